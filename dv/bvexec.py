"""Bit-vector evaluation: Python integer functions (unbounded ints carried in vectors wide enough that nothing is lost, the bound is
checked) and C functions (clang's typed syntax tree, machine semantics of the declared types)."""
import z3 as Z, json, subprocess, os, tempfile
from ir import Unsupported, PyFront

# ------------------------------------------------------------------------------------------------ Python functions
W = 256
class V(object):
    "Python int: W-bit vector whose mathematical value fits in |v| < 2**mag"
    def __init__(self, t, mag):
        if mag > W - 4: raise Unsupported('integer too wide')
        self.t, self.mag = t, mag
def cst(n): return V(Z.BitVecVal(n, W), max(n.bit_length(), 1) + 1)
def const_of(v):
    s = Z.simplify(v.t)
    return s.as_signed_long() if Z.is_bv_value(s) else None

class PyEval(object):
    def __init__(self, mod, ext):
        self.mod, self.ext = mod, ext
        self.depth = 0
    def call(self, name, args):
        "[(condition, value or exception class)]"
        f = self.mod.funcs[name]
        env = dict(zip([p[0] for p in f.params], args))
        for p in f.params[len(args):]:
            if p[2] is None: raise Unsupported('missing argument')
            env[p[0]] = self.ev(p[2], {}, [])
        self.depth += 1
        if self.depth > 20: raise Unsupported('recursion')
        out = []
        rest = self.block(f.body, env, Z.BoolVal(True), out)
        self.depth -= 1
        for c, e in rest: out.append((c, None))
        return out
    def value(self, name, args):
        outs = self.call(name, args)
        if not outs or not all(isinstance(v, V) for c, v in outs): raise Unsupported('%s may raise or return None' % name)
        r = outs[-1][1]
        for c, v in reversed(outs[:-1]): r = V(Z.If(c, v.t, r.t), max(v.mag, r.mag))
        return r
    def block(self, ss, env, pc, out):
        states = [(pc, env)]
        for s in ss:
            nxt = []
            for c, e in states: nxt += self.stmt(s, e, c, out)
            states = nxt
        return states
    def stmt(self, s, env, pc, out):
        op, a = s.op, s.a
        if op == 'assign' and all(t.op == 'name' for t in a[0]):
            v = self.ev(a[1], env, pc)
            return [(pc, dict(env, **{t.a[0]: v for t in a[0]}))]
        if op == 'aug' and a[1].op == 'name': return [(pc, dict(env, **{a[1].a[0]: self.bin(a[0], self.ev(a[1], env, pc), self.ev(a[2], env, pc))}))]
        if op == 'return':
            out.append((pc, self.ev(a[0], env, pc)))
            return []
        if op == 'raise':
            out.append((pc, str(a[0])))
            return []
        if op == 'pass': return [(pc, env)]
        if op == 'expr' and a[0].op == 'const': return [(pc, env)]
        if op == 'if':
            c = self.cond(a[0], env, pc)
            return self.block(a[1], env, Z.And(pc, c), out) + self.block(a[2], env, Z.And(pc, Z.Not(c)), out)
        raise Unsupported('bv statement ' + op)
    def cond(self, e, env, pc):
        if e.op == 'cmp':
            a, b = self.ev(e.a[1], env, pc), self.ev(e.a[2], env, pc)
            if isinstance(a, V) and isinstance(b, V):
                o = e.a[0]
                if o in ('==', 'is'): return a.t == b.t
                if o in ('!=', 'isnot'): return a.t != b.t
                if o in ('<', '<=', '>', '>='): return {'<': a.t < b.t, '<=': a.t <= b.t, '>': a.t > b.t, '>=': a.t >= b.t}[o]
        if e.op == 'not': return Z.Not(self.cond(e.a[0], env, pc))
        if e.op in ('and', 'or'): return (Z.And if e.op == 'and' else Z.Or)(*[self.cond(x, env, pc) for x in e.a[0]])
        if e.op == 'bool': return self.cond(e.a[0], env, pc)
        v = self.ev(e, env, pc)
        if isinstance(v, V): return v.t != 0
        raise Unsupported('bv condition ' + e.op)
    def bin(self, o, a, b):
        if not (isinstance(a, V) and isinstance(b, V)): raise Unsupported('bv operands')
        if o == '|' or o == '^': return V(a.t | b.t if o == '|' else a.t ^ b.t, max(a.mag, b.mag))
        if o == '&':
            m = max(a.mag, b.mag)
            for x in (a, b):
                k = const_of(x)
                if k is not None and k >= 0: m = min(m, k.bit_length() + 1)
            return V(a.t & b.t, m)
        if o in '+-': return V(a.t + b.t if o == '+' else a.t - b.t, max(a.mag, b.mag) + 1)
        if o == '*': return V(a.t * b.t, a.mag + b.mag)
        k = const_of(b)
        if k is None or k < 0: raise Unsupported('bv %s by a variable' % o)
        if o == '<<': return V(a.t << k, a.mag + k)
        if o == '>>': return V(a.t >> min(k, W - 1), max(a.mag - k, 1) + 1)
        if o in ('//', '%') and k > 0 and k & (k - 1) == 0:
            n = k.bit_length() - 1
            return V(a.t >> n, max(a.mag - n, 1) + 1) if o == '//' else V(a.t & (k - 1), n + 1)
        raise Unsupported('bv operator ' + o)
    def ev(self, e, env, pc):
        op, a = e.op, e.a
        if op == 'const':
            if isinstance(a[0], bool): return cst(int(a[0]))
            if isinstance(a[0], int): return cst(a[0])
            return a[0]
        if op == 'name':
            if a[0] in env: return env[a[0]]
            x = self.mod.names.get(a[0])
            if x is not None and x[0] == 'expr': return self.ev(x[1], {}, pc)
            raise Unsupported('name ' + a[0])
        if op in ('tuple', 'list'): return [self.ev(x, env, pc) for x in a[0]]
        if op == 'bin': return self.bin(a[0], self.ev(a[1], env, pc), self.ev(a[2], env, pc))
        if op == 'un':
            x = self.ev(a[1], env, pc)
            if a[0] == '-': return V(-x.t, x.mag + 1)
            if a[0] == '~': return V(~x.t, x.mag + 1)
            if a[0] == '+': return x
        if op == 'if':
            c = self.cond(a[0], env, pc)
            x, y = self.ev(a[1], env, pc), self.ev(a[2], env, pc)
            return V(Z.If(c, x.t, y.t), max(x.mag, y.mag))
        if op == 'index':
            b, i = self.ev(a[0], env, pc), self.ev(a[1], env, pc)
            if isinstance(b, list):
                r = b[-1]
                for k in reversed(range(len(b) - 1)): r = V(Z.If(i.t == k, b[k].t, r.t), max(b[k].mag, r.mag))
                return r
        if op == 'call' and a[0].op == 'name' and not a[2]:
            args = [self.ev(x, env, pc) for x in a[1]]
            if a[0].a[0] in self.mod.funcs: return self.value(a[0].a[0], args)
            x = self.mod.names.get(a[0].a[0])
            if x is not None and x[0] == 'from' and (x[1], x[2]) in self.ext: return self.ext[x[1], x[2]](*args)
        raise Unsupported('bv expression %s' % op)

SIDE = []
def as_signed(x, bits):
    "assumed contract of pypytools.cast.as_signed (PyPy build): sign-extend the low `bits` bits"
    k = const_of(bits)
    if k is None: raise Unsupported('as_signed')
    SIDE.append(('as_signed/pre', Z.And(x.t >= 0, x.t < (1 << k))))
    return V(Z.SignExt(W - k, Z.Extract(k - 1, 0, x.t)), k + 1)
EXT = {('pypytools.cast', 'as_signed'): as_signed}

# ------------------------------------------------------------------------------------------------ C functions
class CV(object):
    def __init__(self, t, signed): self.t, self.signed = t, signed
    @property
    def bits(self): return self.t.size()
TY = {'long': (64, 1), 'int': (32, 1), 'unsigned int': (32, 0), 'unsigned long': (64, 0), 'long long': (64, 1), 'unsigned long long': (64, 0), 'short': (16, 1),
      'unsigned short': (16, 0), 'char': (8, 1), 'signed char': (8, 1), 'unsigned char': (8, 0), '_Bool': (8, 0)}
def cty(n):
    q = n.get('type', n) if 'type' in n else n
    s = q.get('desugaredQualType', q.get('qualType', ''))
    s = s.replace('const ', '').replace('volatile ', '').strip()
    if s.startswith('enum '): return (32, 0)
    return TY.get(s)

_ast = {}
def c_functions(source, flags=()):
    "typed syntax trees of the functions defined in a C text"
    k = (source, tuple(flags))
    if k not in _ast:
        d = tempfile.mkdtemp(prefix='dvc')
        p = os.path.join(d, 'x.c')
        try:
            open(p, 'w').write(source)
            r = subprocess.run(['clang', '-w', '-fsyntax-only', '-Xclang', '-ast-dump=json', *flags, p], capture_output=True)
            if r.returncode: raise Unsupported('clang: ' + r.stderr.decode()[:300])
            tree = json.loads(r.stdout)
        finally:
            os.unlink(p); os.rmdir(d)
        _ast[k] = {n['name']: n for n in tree['inner'] if n['kind'] == 'FunctionDecl' and any(c['kind'] == 'CompoundStmt' for c in n.get('inner', ()))}
        enums = {}
        for n in tree['inner']:
            if n['kind'] == 'EnumDecl':
                nxt = 0
                for c in n.get('inner', ()):
                    if c['kind'] != 'EnumConstantDecl': continue
                    v = next((x for x in c.get('inner', ()) if x.get('kind') == 'ConstantExpr'), None)
                    if v is not None and 'value' in v: nxt = int(v['value'])
                    enums[c['name']] = nxt
                    nxt += 1
        _ast[k]['#enums'] = enums
    return _ast[k]

class CEval(object):
    """loop-free C, and one counted loop through its invariant (the caller evaluates condition, body and increment separately)"""
    def __init__(self, funcs):
        self.f = funcs
        self.side = []        # (name, pc, goal): absence of undefined behaviour
        self.arrays = {}
    def params(self, name): return [(c['name'], cty(c)) for c in self.f[name].get('inner', ()) if c['kind'] == 'ParmVarDecl']
    def body(self, name): return next(c for c in self.f[name]['inner'] if c['kind'] == 'CompoundStmt')
    def call(self, name, args):
        env = {}
        for (p, ty), a in zip(self.params(name), args): env[p] = a
        out = []
        for c, e in self.stmt(self.body(name), env, Z.BoolVal(True), out): out.append((c, None))
        return out
    def value(self, name, args):
        outs = self.call(name, args)
        if any(v is None for c, v in outs): raise Unsupported('no value')
        r = outs[-1][1].t
        for c, v in reversed(outs[:-1]): r = Z.If(c, v.t, r)
        return CV(r, outs[-1][1].signed)
    def conv(self, v, ty):
        bits, sg = ty
        if v.bits == bits: return CV(v.t, sg)
        if v.bits > bits: return CV(Z.Extract(bits - 1, 0, v.t), sg)
        return CV((Z.SignExt if v.signed else Z.ZeroExt)(bits - v.bits, v.t), sg)
    def stmt(self, n, env, pc, out):
        k = n['kind']
        inner = n.get('inner', [])
        if k == 'CompoundStmt':
            st = [(pc, env)]
            for s in inner: st = [y for c, e in st for y in self.stmt(s, e, c, out)]
            return st
        if k == 'NullStmt': return [(pc, env)]
        if k == 'DeclStmt':
            env = dict(env)
            for d in inner:
                if d['kind'] != 'VarDecl': raise Unsupported(d['kind'])
                i = [x for x in d.get('inner', ()) if 'valueCategory' in x]
                env[d['name']] = self.conv(self.ev(i[0], env, pc), cty(d)) if i else CV(Z.BitVec('undef_%s' % d['name'], cty(d)[0]), cty(d)[1])
            return [(pc, env)]
        if k == 'ReturnStmt':
            v = self.ev(inner[0], env, pc)
            out.append((pc, v))
            return []
        if k == 'IfStmt':
            c = self.truth(self.ev(inner[0], env, pc))
            r = self.stmt(inner[1], env, Z.And(pc, c), out)
            return r + (self.stmt(inner[2], env, Z.And(pc, Z.Not(c)), out) if len(inner) > 2 else [(Z.And(pc, Z.Not(c)), env)])
        if 'valueCategory' in n:
            env = dict(env)
            self.ev(n, env, pc)
            return [(pc, env)]
        raise Unsupported('C statement ' + k)
    def truth(self, v): return v.t != 0
    def b2i(self, c): return CV(Z.If(c, Z.BitVecVal(1, 32), Z.BitVecVal(0, 32)), True)
    def arith(self, op, a, b, pc):
        x, y = a.t, b.t
        s = a.signed
        if op == '+':
            if s: self.side.append(('no-overflow(+)', pc, Z.And(Z.BVAddNoOverflow(x, y, True), Z.BVAddNoUnderflow(x, y))))
            return CV(x + y, s)
        if op == '-':
            if s: self.side.append(('no-overflow(-)', pc, Z.And(Z.BVSubNoOverflow(x, y), Z.BVSubNoUnderflow(x, y, True))))
            return CV(x - y, s)
        if op == '*':
            if s: self.side.append(('no-overflow(*)', pc, Z.And(Z.BVMulNoOverflow(x, y, True), Z.BVMulNoUnderflow(x, y))))
            return CV(x * y, s)
        if op == '&': return CV(x & y, s)
        if op == '|': return CV(x | y, s)
        if op == '^': return CV(x ^ y, s)
        raise Unsupported('C operator ' + op)
    def shift(self, op, a, b, pc):
        w = self.conv(b, (a.bits, b.signed)).t if b.bits != a.bits else b.t
        self.side.append(('shift-count', pc, Z.And(Z.UGE(w, 0), Z.ULT(w, a.bits))))
        if op == '<<': return CV(a.t << w, a.signed)       # gcc: left shifts of signed values wrap
        return CV(a.t >> w if a.signed else Z.LShR(a.t, w), a.signed)
    def ev(self, n, env, pc):
        k = n['kind']
        inner = n.get('inner', [])
        if k in ('ParenExpr', 'ConstantExpr'): return self.ev(inner[0], env, pc)
        if k in ('ImplicitCastExpr', 'CStyleCastExpr'):
            ck = n['castKind']
            if ck in ('LValueToRValue', 'NoOp', 'ArrayToPointerDecay'): return self.ev(inner[0], env, pc)
            if ck == 'IntegralCast': return self.conv(self.ev(inner[0], env, pc), cty(n))
            raise Unsupported('cast ' + ck)
        if k == 'IntegerLiteral':
            b, s = cty(n)
            return CV(Z.BitVecVal(int(n['value']), b), bool(s))
        if k == 'UnaryExprOrTypeTraitExpr' and n.get('name') == 'sizeof':
            t = cty({'type': n['argType']}) if 'argType' in n else cty(inner[0])
            return CV(Z.BitVecVal(t[0] // 8, 64), False)
        if k == 'DeclRefExpr':
            d = n['referencedDecl']
            if d['kind'] == 'EnumConstantDecl': return CV(Z.BitVecVal(self.f['#enums'][d['name']], 32), True)
            if d['name'] in env: return env[d['name']]
            raise Unsupported('C name ' + d['name'])
        if k == 'ArraySubscriptExpr':
            b, i = self.ev(inner[0], env, pc), self.ev(inner[1], env, pc)
            if callable(b): return b(self.conv(i, (64, i.signed)), pc)
            raise Unsupported('subscript')
        if k == 'UnaryOperator':
            op = n['opcode']
            if op in ('++', '--'):
                x = inner[0]
                old = self.ev(x, env, pc)
                new = self.arith(op[0], old, CV(Z.BitVecVal(1, old.bits), old.signed), pc)
                env[x['referencedDecl']['name']] = new
                return old if n.get('isPostfix') else new
            v = self.ev(inner[0], env, pc)
            if op == '-':
                if v.signed: self.side.append(('no-overflow(neg)', pc, Z.BVSNegNoOverflow(v.t)))
                return CV(-v.t, v.signed)
            if op == '~': return CV(~v.t, v.signed)
            if op == '!': return self.b2i(v.t == 0)
            if op == '+': return v
            raise Unsupported('unary ' + op)
        if k == 'CompoundAssignOperator':
            op = n['opcode'][:-1]
            x = inner[0]
            ct = cty({'type': n['computeResultType']})
            a, b = self.conv(self.ev(x, env, pc), ct), self.ev(inner[1], env, pc)
            r = self.shift(op, a, b, pc) if op in ('<<', '>>') else self.arith(op, a, self.conv(b, ct), pc)
            v = self.conv(r, cty(x))
            env[x['referencedDecl']['name']] = v
            return v
        if k == 'ConditionalOperator':
            c = self.truth(self.ev(inner[0], env, pc))
            a, b = self.ev(inner[1], env, Z.And(pc, c)), self.ev(inner[2], env, Z.And(pc, Z.Not(c)))
            return CV(Z.If(c, a.t, b.t), a.signed)
        if k == 'BinaryOperator':
            op = n['opcode']
            if op == '=':
                v = self.ev(inner[1], env, pc)
                x = inner[0]
                while x['kind'] == 'ParenExpr': x = x['inner'][0]
                if x['kind'] != 'DeclRefExpr': raise Unsupported('assignment')
                env[x['referencedDecl']['name']] = self.conv(v, cty(x))
                return v
            if op == ',':
                self.ev(inner[0], env, pc)
                return self.ev(inner[1], env, pc)
            a = self.ev(inner[0], env, pc)
            if op in ('&&', '||'):
                ca = self.truth(a)
                cb = self.truth(self.ev(inner[1], env, Z.And(pc, ca if op == '&&' else Z.Not(ca))))
                return self.b2i(Z.And(ca, cb) if op == '&&' else Z.Or(ca, cb))
            b = self.ev(inner[1], env, pc)
            if op in ('<<', '>>'): return self.shift(op, a, b, pc)
            if op in ('==', '!=', '<', '<=', '>', '>='):
                x, y = a.t, b.t
                if op == '==': return self.b2i(x == y)
                if op == '!=': return self.b2i(x != y)
                if a.signed: return self.b2i({'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op])
                return self.b2i({'<': Z.ULT, '<=': Z.ULE, '>': Z.UGT, '>=': Z.UGE}[op](x, y))
            return self.arith(op, a, b, pc)
        raise Unsupported('C expression ' + k)
