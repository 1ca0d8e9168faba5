"""Front ends: Python source (ast) and Cython's analysed syntax tree -> one small intermediate form.

Expressions are E(op, ...) with op one of
  const v | name n | attr o n | call f args kw | bin op a b | un op a | cmp op a b | and/or xs | not a | if c a b
  index a i | slice a lo hi | tuple xs | list xs | cast ctype a (C conversion) | frompy ctype a | topy a | addr x | deref ctype a
  isnone.. are plain cmp | fstr | unsupported why
Statements S(op, ...):
  assign targets e | aug op target e | expr e | return e | raise cls | if c a b | while c body | for target iter body
  try body handlers orelse | assert c | break | continue | pass | unsupported why
What the translation drops: docstrings, comments, exception messages (only the class of a raised exception is kept), decorators that are
known to keep the behaviour (listed in DECORATORS), annotations."""
import ast, os, sys

class Unsupported(Exception):
    pass

class E(object):
    __slots__ = ('op', 'a', 'ct', 'src')
    def __init__(self, op, *a, **kw):
        self.op, self.a = op, a
        self.ct = kw.get('ct')        # C type of the value (None: Python object)
        self.src = kw.get('src')
    def __repr__(self):
        return '(%s%s%s)' % (self.op, ':' + str(self.ct) if self.ct else '', ''.join(' %r' % (x,) for x in self.a))

class S(object):
    __slots__ = ('op', 'a', 'line')
    def __init__(self, op, *a, **kw):
        self.op, self.a, self.line = op, a, kw.get('line')
    def __repr__(self):
        return '<%s%s>' % (self.op, ''.join(' %r' % (x,) for x in self.a))

class CT(object):
    "C integer type (bits, signed), or a pointer, float, or void"
    array = None         # the length of a local array
    def __init__(self, name, bits=None, signed=True, kind='int', to=None):
        self.name, self.bits, self.signed, self.kind, self.to = name, bits, signed, kind, to
    def __repr__(self): return self.name
    def __eq__(self, o): return isinstance(o, CT) and (self.kind, self.bits, self.signed, repr(self.to)) == (o.kind, o.bits, o.signed, repr(o.to))
    def __hash__(self): return hash((self.kind, self.bits, self.signed))
    @property
    def lo(self): return -(1 << (self.bits - 1)) if self.signed else 0
    @property
    def hi(self): return (1 << (self.bits - 1)) - 1 if self.signed else (1 << self.bits) - 1

LONG, INT, SSIZE, CHAR, SIZE = CT('long', 64), CT('int', 32), CT('Py_ssize_t', 64), CT('char', 8), CT('size_t', 64, False)
BINT, VOID, DOUBLE, FLOAT = CT('bint', 32, kind='bool'), CT('void', kind='void'), CT('double', 64, kind='float'), CT('float', 32, kind='float')

class Func(object):
    def __init__(self, mod, qual, params, body, kind='def', ret=None, locals_=None, deco=(), exc=None, line=0, cls=None):
        self.mod, self.qual, self.params, self.body = mod, qual, params, body
        self.kind, self.ret, self.locals, self.deco, self.exc, self.line, self.cls = kind, ret, locals_ or {}, deco, exc, line, cls
        self.classmethod = 'classmethod' in self.deco
        # params: list of (name, ctype or None, default E or None, pytype)
    @property
    def key(self): return '%s:%s' % (self.mod.name, self.qual)
    def __repr__(self): return '<Func %s>' % self.key

class Class(object):
    def __init__(self, mod, name, bases):
        self.mod, self.name, self.bases, self.methods, self.attrs, self.ctypes, self.props = mod, name, bases, {}, {}, {}, {}
    def __repr__(self): return '<Class %s>' % self.name

class Module(object):
    def __init__(self, name, path, mode):
        self.name, self.path, self.mode = name, path, mode
        self.funcs, self.classes, self.names = {}, {}, {}     # names: imported or constant: ('mod', m) ('from', m, n) ('expr', E)

# ------------------------------------------------------------------------------------------------ Python
BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.FloorDiv: '//', ast.Mod: '%', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<',
          ast.RShift: '>>', ast.Div: '/', ast.Pow: '**'}
CMPOPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is', ast.IsNot: 'isnot', ast.In: 'in', ast.NotIn: 'notin'}
STATIC = {'IS_PYPY': True, 'PYX': False, 'PY3': True, 'PY2': False}

class PyFront(object):
    def __init__(self, name, path, static=None, source=None):
        self.m = Module(name, path, 'py')
        self.static = dict(STATIC, **(static or {}))
        tree = ast.parse(source if source is not None else open(path).read())
        self.package = name.rsplit('.', 1)[0]
        self.toplevel(tree.body)

    def static_test(self, t):
        if isinstance(t, ast.Name) and t.id in self.static: return self.static[t.id]
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            v = self.static_test(t.operand)
            return None if v is None else not v
        if isinstance(t, ast.Attribute) and ast.unparse(t) == 'cython.compiled': return False
        if isinstance(t, ast.Attribute) and ast.unparse(t) in ('six.PY2', 'six.PY3'): return t.attr == 'PY3'
        return None

    def toplevel(self, body):
        m = self.m
        for s in body:
            if isinstance(s, ast.FunctionDef):
                f = self.func(s, None)
                m.funcs[s.name] = f
                m.names[s.name] = ('func', f)
            elif isinstance(s, ast.ClassDef):
                c = Class(m, s.name, [ast.unparse(b) for b in s.bases])
                # @NAME.__extend__: adds to the class
                if s.name in m.classes and any(ast.unparse(d) == s.name + '.__extend__' for d in s.decorator_list): c = m.classes[s.name]
                m.classes[s.name] = c
                m.names[s.name] = ('class', c)
                for x in s.body:
                    if isinstance(x, ast.FunctionDef):
                        f = self.func(x, c)
                        if 'property' in f.deco: c.props[x.name] = f
                        else: c.methods[x.name] = f
                    elif isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                        c.attrs[x.targets[0].id] = self.expr(x.value)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    m.names[a.asname or a.name.split('.')[0]] = ('mod', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    m.names[a.asname or a.name] = ('from', s.module, a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        m.names[t.id] = ('expr', self.expr(s.value))
                    elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Call) and ast.unparse(t.value) == 'globals()' and isinstance(t.slice, ast.Constant):
                        m.names[t.slice.value] = ('expr', self.expr(s.value))
            elif isinstance(s, ast.If):
                v = self.static_test(s.test)
                if v is not False: self.toplevel(s.body)
                if v is not True: self.toplevel(s.orelse)
            elif isinstance(s, ast.With):
                self.toplevel(s.body)
            elif isinstance(s, ast.Try):
                self.toplevel(s.body)

    def func(self, d, cls):
        a = d.args
        names = [x.arg for x in a.posonlyargs + a.args]
        defs = [None] * (len(names) - len(a.defaults)) + [self.expr(x) for x in a.defaults]
        params = [(n, None, df, None) for n, df in zip(names, defs)]
        deco = [ast.unparse(x) for x in d.decorator_list]
        qual = (cls.name + '.' if cls else '') + d.name
        f = Func(self.m, qual, params, None, deco=deco, line=d.lineno, cls=cls)
        if a.vararg or a.kwarg or a.kwonlyargs:
            f.body = [S('unsupported', 'star arguments')]
        else:
            f.body = self.block(d.body)
        return f

    def block(self, ss):
        out = []
        for s in ss:
            out += self.stmt(s)
        return out

    def stmt(self, s):
        L = dict(line=s.lineno)
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant): return []
            return [S('expr', self.expr(s.value), **L)]
        if isinstance(s, ast.Assign):
            return [S('assign', [self.expr(t) for t in s.targets], self.expr(s.value), **L)]
        if isinstance(s, ast.AugAssign):
            return [S('aug', BINOPS.get(type(s.op), '?'), self.expr(s.target), self.expr(s.value), **L)]
        if isinstance(s, ast.Return):
            v = s.value         # return all(E for T in IT): the loop it means
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('all', 'any') and len(v.args) == 1 and not v.keywords and isinstance(v.args[0], ast.GeneratorExp) and len(v.args[0].generators) == 1:
                g, every = v.args[0].generators[0], v.func.id == 'all'
                body = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=v.args[0].elt) if every else v.args[0].elt, body=[ast.Return(value=ast.Constant(value=not every))], orelse=[])
                for c in reversed(g.ifs): body = ast.If(test=c, body=[body], orelse=[])
                out = [ast.For(target=g.target, iter=g.iter, body=[body], orelse=[]), ast.Return(value=ast.Constant(value=every))]
                for y in out: ast.fix_missing_locations(ast.copy_location(y, s))
                return self.block(out)
            return [S('return', self.expr(s.value) if s.value else E('const', None), **L)]
        if isinstance(s, ast.Raise):
            if s.exc is None: return [S('raise', None, **L)]
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            return [S('raise', ast.unparse(e), **L)]
        if isinstance(s, ast.If):
            v = self.static_test(s.test)
            if v is True: return self.block(s.body)
            if v is False: return self.block(s.orelse)
            return [S('if', self.expr(s.test), self.block(s.body), self.block(s.orelse), **L)]
        if isinstance(s, ast.While):
            return [S('while', self.expr(s.test), self.block(s.body), self.block(s.orelse), **L)]
        if isinstance(s, ast.For):
            return [S('for', self.expr(s.target), self.expr(s.iter), self.block(s.body), self.block(s.orelse), **L)]
        if isinstance(s, ast.Assert):
            return [S('assert', self.expr(s.test), **L)]
        if isinstance(s, ast.Pass): return []
        if isinstance(s, ast.Break): return [S('break', **L)]
        if isinstance(s, ast.Continue): return [S('continue', **L)]
        if isinstance(s, ast.Try) and not s.finalbody:
            hs = []
            for h in s.handlers:
                if h.type is None: cl = ['BaseException']
                elif isinstance(h.type, ast.Tuple): cl = [ast.unparse(x) for x in h.type.elts]
                else: cl = [ast.unparse(h.type)]
                hs.append((cl, h.name, self.block(h.body)))
            return [S('try', self.block(s.body), hs, self.block(s.orelse), **L)]
        if isinstance(s, ast.Import) and all(a.asname or '.' not in a.name for a in s.names):
            return [S('assign', [E('name', a.asname or a.name)], E('modv', a.name, src=a.name), **L) for a in s.names]
        if isinstance(s, ast.ImportFrom) and s.module and not s.level and all(a.name != '*' for a in s.names):
            return [S('assign', [E('name', a.asname or a.name)], E('attr', E('modv', s.module, src=s.module), a.name, src=a.name), **L) for a in s.names]
        if isinstance(s, ast.With) and not any(isinstance(y, (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom)) for x in s.body for y in ast.walk(x)):
            # an exception that leaves the body also leaves the state __exit__ would restore: only what runs after a normal end is followed
            out, self.nwith = [], getattr(self, 'nwith', 0)
            exits = []
            for it in s.items:
                self.nwith += 1
                v = '__with%d' % self.nwith
                out.append(S('assign', [E('name', v)], self.expr(it.context_expr), **L))
                enter = E('call', E('attr', E('name', v), '__enter__'), [], {}, src='__enter__()')
                out.append(S('assign', [self.expr(it.optional_vars)], enter, **L) if it.optional_vars is not None else S('expr', enter, **L))
                exits.insert(0, S('expr', E('call', E('attr', E('name', v), '__exit__'), [], {}, src='__exit__()'), **L))
            return out + self.block(s.body) + exits
        return [S('unsupported', type(s).__name__, **L)]

    def expr(self, e):
        try:
            src = ast.unparse(e)
        except Exception:
            src = '?'
        r = self._expr(e)
        r.src = src
        return r

    def _expr(self, e):
        x = self.expr
        if isinstance(e, ast.Constant): return E('const', e.value)
        if isinstance(e, ast.Name): return E('name', e.id)
        if isinstance(e, ast.Attribute): return E('attr', x(e.value), e.attr)
        if isinstance(e, ast.Call):
            if any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords):
                if len(e.args) == 1 and isinstance(e.args[0], ast.Starred) and not e.keywords: return E('starcall', x(e.func), x(e.args[0].value))
                if not e.args and len(e.keywords) == 1: return E('dictcall', x(e.func), x(e.keywords[0].value))
                return E('unsupported', 'star call')
            return E('call', x(e.func), [x(a) for a in e.args], {k.arg: x(k.value) for k in e.keywords})
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)) and len(e.generators) == 1 and not (e.generators[0].ifs and isinstance(e, ast.GeneratorExp)):
            return E('listcomp', x(e.generators[0].target), x(e.generators[0].iter), x(e.elt), *[x(c) for c in e.generators[0].ifs])
        if isinstance(e, ast.DictComp) and len(e.generators) == 1: return E('dictcomp', E('listcomp', x(e.generators[0].target), x(e.generators[0].iter), E('tuple', [x(e.key), x(e.value)]), *[x(c) for c in e.generators[0].ifs]))
        if isinstance(e, ast.Yield): return E('yield', x(e.value) if e.value is not None else E('const', None))
        if isinstance(e, ast.BinOp): return E('bin', BINOPS.get(type(e.op), '?'), x(e.left), x(e.right))
        if isinstance(e, ast.UnaryOp):
            if isinstance(e.op, ast.Not): return E('not', x(e.operand))
            return E('un', {ast.USub: '-', ast.UAdd: '+', ast.Invert: '~'}[type(e.op)], x(e.operand))
        if isinstance(e, ast.BoolOp): return E('and' if isinstance(e.op, ast.And) else 'or', [x(v) for v in e.values])
        if isinstance(e, ast.Compare):
            parts, left = [], e.left
            for op, r in zip(e.ops, e.comparators):
                parts.append(E('cmp', CMPOPS[type(op)], x(left), x(r)))
                left = r
            return parts[0] if len(parts) == 1 else E('and', parts)
        if isinstance(e, ast.IfExp): return E('if', x(e.test), x(e.body), x(e.orelse))
        if isinstance(e, ast.Subscript):
            if isinstance(e.slice, ast.Slice):
                if e.slice.step is not None: return E('unsupported', 'slice step')
                return E('slice', x(e.value), x(e.slice.lower) if e.slice.lower else None, x(e.slice.upper) if e.slice.upper else None)
            return E('index', x(e.value), x(e.slice))
        if isinstance(e, ast.Tuple): return E('tuple', [x(v) for v in e.elts])
        if isinstance(e, ast.List): return E('list', [x(v) for v in e.elts])
        if isinstance(e, ast.JoinedStr):
            return E('fstr', [x(v) if isinstance(v, ast.Constant) else E('unsupported', 'format') if v.format_spec is not None or v.conversion not in (-1, 115) else x(v.value) for v in e.values])
        if isinstance(e, ast.Dict):
            if any(k is None for k in e.keys): return E('unsupported', 'dict')
            return E('dict', [x(k) for k in e.keys], [x(v) for v in e.values])
        return E('unsupported', type(e).__name__)

# ------------------------------------------------------------------------------------------------ Cython
_cy = {}
def cython_tree(path, modname, root):
    k = (path, modname, root)
    if k in _cy: return _cy[k]
    p = '/opt/venv/lib/python3.12/site-packages'
    if p not in sys.path: sys.path.append(p)
    from Cython.Compiler import Main, Options, Pipeline, Errors
    from Cython.Compiler.Main import CompilationOptions, Context, CompilationSource
    from Cython.Compiler.Scanning import FileSourceDescriptor
    opts = CompilationOptions(Options.default_options, include_path=[root, root + '/capnpy'], language_level=2)
    ctx = Context.from_options(opts)
    comp = CompilationSource(FileSourceDescriptor(path, os.path.basename(path)), modname, root)
    res = Main.create_default_resultobj(comp, opts)
    mk = Pipeline.create_py_pipeline if path.endswith('.py') else Pipeline.create_pyx_pipeline
    pl = mk(ctx, opts, res)
    Errors.init_thread()
    ctx.setup_errors(opts, res)
    data = comp
    cwd = os.getcwd()
    try:
        os.chdir(root)
        for p in pl:
            if p is None: continue
            data = p(data)
            if type(p).__name__ == 'AnalyseExpressionsTransform': break
    finally:
        os.chdir(cwd)
    if Errors.get_errors_count() if hasattr(Errors, 'get_errors_count') else 0:
        raise Unsupported('Cython reports errors in ' + path)
    _cy[k] = data
    return data

SIZES = {'char': 8, 'short': 16, 'int': 32, 'long': 64, 'long long': 64}
def ctype(t):
    "Cython type -> CT or None (Python object)"
    if t is None or t.is_pyobject: return None
    n = t.declaration_code('', for_display=1).strip()
    if n.startswith('const '): n = n[6:]
    if getattr(t, 'is_const', False) or getattr(t, 'is_cv_qualified', False):
        t = t.cv_base_type
    if t.is_void: return VOID
    if t.is_ptr: return CT(n, kind='ptr', to=ctype(t.base_type))
    if t.is_array:
        c = CT(n, kind='ptr', to=ctype(t.base_type))
        c.array = t.size
        return c
    if n == 'bint': return BINT
    if t.is_float: return CT(n, 32 if n == 'float' else 64, kind='float')
    if t.is_int or t.is_enum:
        if n == 'Py_ssize_t' : return SSIZE
        if n == 'size_t': return SIZE
        if n.startswith('unsigned '): return CT(n, SIZES[n[9:]], False)
        if n in SIZES: return CT(n, SIZES[n])
        b = n
        for w in (8, 16, 32, 64):
            if n == 'int%d_t' % w: return CT(n, w)
            if n == 'uint%d_t' % w: return CT(n, w, False)
        if n == 'Py_hash_t': return CT(n, 64)     # ctypedef'd as size_t in _hash.pyx: only its C definition (signed) counts
        if n == 'Py_ssize_t': return SSIZE
        return CT(n, 64 if 'long' in n else 32)
    if t.is_cfunction: return CT(n, kind='func')
    if t.is_struct_or_union: return CT(n, kind='struct')
    return CT(n, kind='?')

class CyFront(object):
    def __init__(self, name, path, root):
        self.m = Module(name, path, 'pyx')
        self.tree = cython_tree(path, name, root)
        self.toplevel(self.tree.body)

    def toplevel(self, n):
        t = type(n).__name__
        if t in ('StatListNode',):
            for s in n.stats: self.toplevel(s)
        elif t == 'CompilerDirectivesNode':
            self.toplevel(n.body)
        elif t in ('CFuncDefNode', 'DefNode', 'GeneratorDefNode'):
            f = self.func(n, None)
            if f.qual not in self.m.funcs or t == 'CFuncDefNode':
                self.m.funcs[f.qual] = f
                self.m.names[f.qual] = ('func', f)
        elif t in ('CClassDefNode',):
            self.klass(n)
        elif t == 'PyClassDefNode':
            c = Class(self.m, n.name, [str(x.name) for x in getattr(n.orig_bases, 'args', ()) if hasattr(x, 'name')])
            self.m.classes[n.name] = c
            self.m.names[n.name] = ('class', c)
            self.members(c, n.body)
        elif t == 'SingleAssignmentNode':
            if type(n.lhs).__name__ == 'NameNode' and type(n.rhs).__name__ == 'ImportNode':
                mn = n.rhs.module_name
                self.m.names[n.lhs.name] = ('mod', getattr(mn, 'value', str(mn)))
            elif type(n.lhs).__name__ == 'NameNode':
                if type(n.rhs).__name__ == 'PyCFunctionNode' and self.m.names.get(n.lhs.name, ('',))[0] == 'func': return
                try:
                    self.m.names[n.lhs.name] = ('expr', self.expr(n.rhs))
                except Unsupported:
                    pass
        elif t == 'IfStatNode':
            for cl in n.if_clauses:
                x = cl.condition
                neg = False
                while type(x).__name__ in ('CoerceToBooleanNode', 'NotNode', 'CoerceToTempNode', 'BoolNode') and hasattr(x, 'arg') or type(x).__name__ == 'NotNode':
                    if type(x).__name__ == 'NotNode': neg, x = not neg, x.operand
                    else: x = x.arg
                if type(x).__name__ == 'NameNode' and x.name == 'PYX':
                    if not neg:
                        self.toplevel(cl.body)
                        return
                else: return
            if n.else_clause is not None: self.toplevel(n.else_clause)
        elif t == 'FromCImportStatNode':
            for x in n.imported_names:
                nm, al = str(x[1]), str(x[2] or x[1])
                if al != nm: self.m.names.setdefault(al, ('from', str(n.module_name), nm))
        elif t == 'FromImportStatNode':
            for (nm, target) in n.items:
                if hasattr(target, 'name'):
                    mn = getattr(n.module, 'module_name', None)
                    self.m.names[target.name] = ('from', str(getattr(mn, 'value', '?')), nm)

    def klass(self, n):
        base = getattr(n, 'base_type', None)
        bases = []
        et = n.entry.type
        if et.base_type is not None: bases = [et.base_type.name]
        c = Class(self.m, n.class_name, bases)
        self.m.classes[n.class_name] = c
        self.m.names[n.class_name] = ('class', c)
        for e in et.scope.entries.values():
            if e.is_variable: c.ctypes[e.name] = ctype(e.type)
        self.members(c, n.body)

    def members(self, c, body):
        t = type(body).__name__
        if t == 'StatListNode':
            for s in body.stats: self.members(c, s)
        elif t == 'CompilerDirectivesNode': self.members(c, body.body)
        elif t in ('CFuncDefNode', 'DefNode'):
            f = self.func(body, c)
            short = f.qual.split('.')[-1]
            if short not in c.methods or t == 'CFuncDefNode':
                c.methods[short] = f
        elif t == 'PropertyNode':
            for s in body.body.stats:
                if type(s).__name__ == 'DefNode' and s.name == '__get__':
                    c.props[body.name] = f = self.func(s, c)
                    f.qual = '%s.%s' % (c.name, body.name)
        elif t == 'SingleAssignmentNode' and type(body.lhs).__name__ == 'NameNode':
            try: c.attrs[body.lhs.name] = self.expr(body.rhs)
            except Unsupported: pass

    def func(self, n, cls):
        t = type(n).__name__
        if t == 'CFuncDefNode':
            name = n.entry.name
            ft = n.type
            kind = 'cpdef' if n.overridable else 'cdef'
            ret = ctype(ft.return_type)
            exc = (ft.exception_value, ft.exception_check)
            args = n.args
            body = n.body
        else:
            name, kind, ret, exc, args = n.name, 'def', None, None, n.args
            body = n.gbody.body if t == 'GeneratorDefNode' else n.body
            ft = None
        params = []
        for i, a in enumerate(args):
            nm = a.declared_name() or a.name
            ty = a.type if a.type is not None else (ft.args[i].type if ft else None)
            e = getattr(a, 'default', None)
            d = None
            if e is not None:
                try: d = self.expr(e)
                except Unsupported: d = E('unsupported', 'default')
            params.append((nm, ctype(ty), d, self.pytype(ty)))
        loc = {}
        sc = getattr(n, 'local_scope', None)
        if sc is not None:
            for e in sc.entries.values():
                loc[e.name] = (ctype(e.type), self.pytype(e.type))
        f = Func(self.m, (cls.name + '.' if cls else '') + name, params, None, kind=kind, ret=ret, locals_=loc, exc=exc, line=n.pos[1] if n.pos else 0, cls=cls)
        f.classmethod = bool(getattr(n, 'is_classmethod', False))
        try:
            if t in ('DefNode', 'GeneratorDefNode') and (n.star_arg or n.starstar_arg):
                f.body = [S('unsupported', 'star arguments')]
            else:
                f.body = self.block(body)
        except Unsupported as e:
            f.body = [S('unsupported', str(e))]
        return f

    def pytype(self, t):
        if t is None or not t.is_pyobject: return None
        n = getattr(t, 'name', None)
        return n

    # ---- statements
    def block(self, n):
        if n is None: return []
        t = type(n).__name__
        if t == 'StatListNode':
            out = []
            for s in n.stats: out += self.block(s)
            return out
        if t == 'CompilerDirectivesNode': return self.block(n.body)
        return self.stmt(n)

    def stmt(self, n):
        t = type(n).__name__
        L = dict(line=n.pos[1] if n.pos else 0)
        x = self.expr
        if t == 'SingleAssignmentNode':
            if type(n.rhs).__name__ == 'PyCFunctionNode' : return []
            return [S('assign', [x(n.lhs)], self.coerced(x(n.rhs), ctype(n.lhs.type)), **L)]
        if t == 'CascadedAssignmentNode':
            return [S('assign', [x(l) for l in n.lhs_list], x(n.rhs), **L)]
        if t == 'InPlaceAssignmentNode':
            return [S('aug', n.operator, x(n.lhs), x(n.rhs), **L)]
        if t == 'ComprehensionAppendNode': return [S('yieldelt', x(n.expr), **L)]
        if t == 'ExprStatNode' and type(n.expr).__name__ == 'ComprehensionAppendNode': return [S('yieldelt', x(n.expr.expr), **L)]
        if t == 'ExprStatNode': return [S('expr', x(n.expr), **L)]
        if t == 'ReturnStatNode':
            return [S('return', x(n.value) if n.value is not None else E('const', None), **L)]
        if t == 'RaiseStatNode':
            e = n.exc_type
            if e is None: return [S('raise', None, **L)]
            while type(e).__name__ in ('SimpleCallNode', 'GeneralCallNode', 'PythonCapiCallNode', 'CoerceToTempNode', 'CloneNode', 'ProxyNode'):
                e = e.function if hasattr(e, 'function') else e.arg
            nm = getattr(e, 'name', None)
            if nm is None and type(e).__name__ == 'AttributeNode': nm = e.attribute
            return [S('raise', nm, **L)]
        if t == 'IfStatNode':
            r = self.block(n.else_clause) if n.else_clause is not None else []
            for c in reversed(n.if_clauses):
                r = [S('if', x(c.condition), self.block(c.body), r, **L)]
            return r
        if t == 'WhileStatNode':
            return [S('while', x(n.condition) if n.condition is not None else E('const', True), self.block(n.body), self.block(n.else_clause), **L)]
        if t == 'ForInStatNode':
            it = n.iterator
            seq = it.sequence if hasattr(it, 'sequence') else it
            tgt = n.target
            return [S('for', x(tgt), x(seq), self.block(n.body), self.block(n.else_clause), **L)]
        if t == 'ForFromStatNode':
            if n.relation1 != '<=' or n.relation2 != '<' or n.step is not None: return [S('unsupported', 'for-from', **L)]
            rng = E('call', E('name', 'range'), [x(n.bound1), x(n.bound2)], {}, src='range')
            return [S('for', x(n.target), rng, self.block(n.body), self.block(n.else_clause), **L)]
        if t == 'AssertStatNode':
            c = getattr(n, 'condition', None)
            return [S('assert', x(c), **L)]
        if t == 'LetNode':
            r = n.lazy_temp
            return [S('assign', [E('name', '$%d' % id(r))], x(r.expression), **L)] + self.block(n.body)
        if t == 'ParallelAssignmentNode':
            pre, post = [], []
            for i, c in enumerate(n.stats):
                k = E('name', '$%d.%d' % (id(n), i))
                pre.append(S('assign', [k], self.coerced(x(c.rhs), ctype(c.lhs.type)), **L))
                post.append(S('assign', [x(c.lhs)], k, **L))
            return pre + post
        if t == 'PassStatNode': return []
        if t == 'BreakStatNode': return [S('break', **L)]
        if t == 'ContinueStatNode': return [S('continue', **L)]
        if t in ('CVarDefNode', 'CriticalSectionExitNode', 'GlobalNode', 'CNameDeclaratorNode'): return []
        if t == 'CriticalSectionStatNode': return self.block(n.body)
        if t == 'TryFinallyStatNode' : return [S('unsupported', t, **L)]
        if t == 'TryExceptStatNode':
            hs = []
            for c in n.except_clauses:
                cl = ['BaseException'] if not c.pattern else [getattr(p, 'name', None) or getattr(p, 'attribute', '?') for p in c.pattern]
                hs.append((cl, getattr(c.target, 'name', None), self.block(c.body)))
            return [S('try', self.block(n.body), hs, self.block(n.else_clause), **L)]
        return [S('unsupported', t, **L)]

    def coerced(self, e, ct):
        if ct is not None and e.ct is not None and ct.kind in ('int', 'float') and e.ct.kind in ('int', 'bool', 'float') and e.ct != ct:
            return E('cast', ct, e, ct=ct, src=e.src)
        return e

    # ---- expressions
    def expr(self, n):
        r = self._expr(n)
        try:
            if r.ct is None and n.type is not None and not n.type.is_pyobject: r.ct = ctype(n.type)
        except Unsupported:
            pass
        return r

    def strip(self, n):
        while type(n).__name__ in ('CloneNode', 'CoerceToTempNode', 'ProxyNode', 'CMethodSelfCloneNode', 'NoneCheckNode', 'PyTypeTestNode'):
            n = n.arg
        return n

    def _expr(self, n):
        t = type(n).__name__
        x = self.expr
        if t in ('CloneNode', 'CoerceToTempNode', 'ProxyNode', 'CMethodSelfCloneNode', 'CoerceToComplexNode'): return x(n.arg)
        if t == 'NoneCheckNode': return E('nonecheck', x(n.arg), n.exception_type_cname)
        if t == 'PyTypeTestNode': return E('typetest', x(n.arg), n.type.name if hasattr(n.type, 'name') else str(n.type), bool(getattr(n, 'notnone', False)))
        if t == 'NameNode':
            if n.entry is not None and n.entry.is_cfunction and n.entry.scope is not None: return E('cname', n.entry.name or n.name, getattr(n.entry.scope, 'qualified_name', ''), n.entry.cname, src=n.name)
            if n.entry is not None and getattr(n.entry, 'is_const', False): pass
            sc = getattr(n.entry, 'scope', None)
            q = getattr(sc, 'qualified_name', '') if sc is not None and sc.is_module_scope else ''
            return E('name', n.name, q, src=n.name) if q else E('name', n.name, src=n.name)
        if t == 'IntNode':
            s = n.value
            if s in ('PY_SSIZE_T_MAX', 'PY_SSIZE_T_MIN'): return E('const', 2**63 - 1 if s.endswith('MAX') else -2**63)
            return E('const', int(s, 0) if isinstance(s, str) and not s.isdigit() else int(s), src=str(s))
        if t == 'BoolNode': return E('const', bool(n.value))
        if t == 'NoneNode': return E('const', None)
        if t == 'NullNode': return E('null')
        if t == 'FloatNode': return E('const', float(n.value))
        if t == 'CharNode':
            v = n.value
            return E('const', v[0] if isinstance(v, (bytes, bytearray)) else ord(v))
        if t == 'BytesNode':
            if n.type is not None and not n.type.is_pyobject and n.type.is_int:
                return E('const', bytes(n.value.byteencode() if hasattr(n.value, 'byteencode') else n.value)[0])
            return E('const', bytes(n.value.byteencode()) if hasattr(n.value, 'byteencode') else bytes(n.value))
        if t in ('UnicodeNode', 'StringNode', 'IdentifierStringNode'): return E('const', str(n.value))
        if t == 'JoinedStrNode':
            def piece(v):
                if type(v).__name__ != 'FormattedValueNode': return x(v)
                return E('unsupported', 'format') if v.format_spec is not None or v.conversion_char not in (None, 's', 'd') or v.c_format_spec not in (None, 'd') else x(v.value)
            return E('fstr', [piece(v) for v in n.values])
        if t == 'AttributeNode':
            e = n.entry
            if n.is_py_attr is False and e is not None and e.is_cmethod:
                return E('cmeth', x(n.obj), n.attribute, src=n.attribute)
            if e is not None and (e.is_cfunction or e.is_variable) and type(self.strip(n.obj)).__name__ == 'NameNode' and getattr(n.obj, 'entry', None) is not None and n.obj.entry.as_module is not None:
                return E('cname', n.attribute, n.obj.entry.as_module.qualified_name, e.cname, src=n.attribute)
            return E('attr', x(n.obj), n.attribute, src='%s' % n.attribute)
        if t in ('SimpleCallNode', 'PythonCapiCallNode'):
            f = n.function
            args = list(n.args) if n.args is not None else list(n.arg_tuple.args)
            ft = f.type
            fx = x(f)
            if fx.op == 'cmeth' or (t == 'SimpleCallNode' and f.type is not None and f.type.is_cfunction and getattr(f, 'entry', None) is not None and f.entry.is_cmethod and fx.op == 'attr'):
                if len(args) and type(args[0]).__name__ in ('CloneNode', 'CMethodSelfCloneNode', 'CoerceToTempNode', 'ProxyNode', 'NameNode', 'TypecastNode', 'PyTypeTestNode') and ft.is_cfunction and len(args) >= 1:
                    obj = fx.a[0]
                    fx = E('cmeth', obj, fx.a[1], src=fx.src)
                    pt = ft.args[1:]
                    args = args[1:]
                    xs = [self.coerced(x(a), ctype(p.type)) for a, p in zip(args, pt)]
                    return E('call', fx, xs, {}, src='%s()' % fx.src)
            xs = [x(a) for a in args]
            if ft is not None and ft.is_ptr: ft = ft.base_type
            if ft is not None and ft.is_cfunction:
                xs = [self.coerced(a, ctype(p.type)) for a, p in zip(xs, ft.args)] + xs[len(ft.args):]
            return E('call', fx, xs, {}, src='%s()' % fx.src)
        if t == 'GeneralCallNode':
            pa, kw = n.positional_args, n.keyword_args
            if type(pa).__name__ == 'AsTupleNode' and kw is None: return E('starcall', x(n.function), x(pa.arg))
            if type(pa).__name__ != 'TupleNode' or (kw is not None and type(kw).__name__ != 'DictNode'): return E('unsupported', 'general call')
            d = {}
            if kw is not None:
                for it in kw.key_value_pairs: d[str(it.key.value)] = x(it.value)
            return E('call', x(n.function), [x(a) for a in pa.args], d)
        if t in ('AddNode', 'SubNode', 'MulNode', 'IntBinopNode', 'DivNode', 'ModNode', 'PowNode', 'BitwiseOrNode', 'NumBinopNode'):
            op = n.operator
            ct = ctype(n.type)
            if op == '/' and (ct is None or ct.kind == 'int'):
                if ct is not None: op = 'c/' if n.cdivision else '//'
                else: op = '//' if not n.truedivision else '/'
            if op in ('//', '%') and ct is not None and ct.kind == 'int' and n.cdivision: op = 'c' + op[0]
            if t == 'ModNode' and n.operand1.type is not None and n.operand1.type.is_pyobject and type(n.operand1).__name__ in ('UnicodeNode', 'BytesNode', 'StringNode'):
                return E('fmtmod', x(n.operand1), x(n.operand2))
            a, b = x(n.operand1), x(n.operand2)
            if ct is not None and ct.kind == 'int' and op not in ('<<', '>>'):
                a, b = self.coerced(a, ct), self.coerced(b, ct)
            return E('bin', op, a, b, ct=ct)
        if t in ('UnaryMinusNode',): return E('un', '-', x(n.operand))
        if t == 'UnaryPlusNode': return E('un', '+', x(n.operand))
        if t == 'TildeNode': return E('un', '~', x(n.operand))
        if t == 'NotNode': return E('not', x(n.operand))
        if t in ('BoolBinopNode',): return E(n.operator, [x(n.operand1), x(n.operand2)])
        if t == 'BoolBinopResultNode': return x(n.arg)
        if t == 'CoerceToBooleanNode': return E('bool', x(n.arg))
        if t == 'PrimaryCmpNode':
            op = {'is_not': 'isnot', 'not_in': 'notin'}.get(n.operator, n.operator)
            first = E('cmp', op, x(n.operand1), x(n.operand2))
            parts, c, left = [first], n.cascade, n.operand2
            while c is not None:
                parts.append(E('cmp', {'is_not': 'isnot', 'not_in': 'notin'}.get(c.operator, c.operator), x(left), x(c.operand2)))
                left, c = c.operand2, c.cascade
            return first if len(parts) == 1 else E('and', parts)
        if t == 'CondExprNode': return E('if', x(n.condition), x(n.true_val), x(n.false_val))
        if t == 'CoerceToPyTypeNode': return E('topy', x(n.arg))
        if t == 'CoerceIntToBytesNode': return E('topy', x(n.arg))
        if t in ('CoerceFromPyTypeNode',): return E('frompy', ctype(n.type), x(n.arg), ct=ctype(n.type))
        if t == 'TypecastNode':
            a = x(n.operand)
            ct = ctype(n.type)
            if ct is None: return E('typecast', a, getattr(n.type, 'name', None))
            return E('cast', ct, a, True, ct=ct)
        if t == 'AmpersandNode': return E('addr', x(n.operand))
        if t == 'IndexNode':
            b = x(n.base)
            i = x(n.index)
            if b.ct is not None and b.ct.kind == 'ptr': return E('deref', ctype(n.type), b, i, ct=ctype(n.type))
            return E('index', b, i)
        if t == 'SliceIndexNode':
            return E('slice', x(n.base), x(n.start) if n.start is not None else None, x(n.stop) if n.stop is not None else None)
        if t == 'TupleNode': return E('tuple', [x(a) for a in n.args])
        if t == 'ListNode': return E('list', [x(a) for a in n.args])
        if t in ('DefaultLiteralArgNode', 'DefaultNonLiteralArgNode'): return x(n.arg)
        if t == 'YieldExprNode': return E('yield', x(n.arg) if n.arg is not None else E('const', None))
        if t == 'ComprehensionNode' and type(n.loop).__name__ in ('ForInStatNode', 'ForFromStatNode') and n.type.name == 'list':
            try:
                f, = self.stmt(n.loop)
                if f.op == 'for' and len(f.a[2]) == 1 and f.a[2][0].op == 'yieldelt': return E('listcomp', f.a[0], f.a[1], f.a[2][0].a[0])
            except ValueError: pass
            return E('unsupported', t)
        if t == 'EvalWithTempExprNode':
            r = n.lazy_temp if hasattr(n, 'lazy_temp') else n.temp_expression
            v = x(r.expression)
            return E('let', id(r), v, x(n.subexpression))
        if t in ('ResultRefNode', 'LetRefNode'): return E('ref', id(n))
        if t == 'PyCFunctionNode': return E('unsupported', 'closure')
        if t == 'ImportNode': return E('unsupported', 'import')
        if t == 'RawCNameExprNode': return E('unsupported', 'raw cname')
        if t == 'NextNode': return E('unsupported', 'next')
        return E('unsupported', t)
