"""C22: constants and imports.  The text the compiler writes is a sequence of literal pieces and of pieces that stand for values (PH); it is read back with the `ast` module, a piece that
stands for a value being a name, and evaluated symbolically.
  declare_const                  the text evaluates to the struct `s`: its class, its whole segment (or the segment the caller names), its offset and sizes
  _declare_list_const            ... to the list, in the segment of the reflection data
  Value.as_pyobj                 the value of the member the union holds
  Node__Const.emit_reference_as_child   one line, `NAME = TEXT`, TEXT evaluates to the constant's value: for every type of constant, with and without reflection data
  _emit_reflection_data          the segment constants refer to is the whole one of the request they were read from
  Type.list_item_type            the text names the item type of that type (primitive, bool, void, text by the text_type option, data, struct, enum, list), in both modes
  Node._fullname / compile_name / is_imported / get_parent   the path of the node, from the module that holds it (by induction on the depth of the node)
  register_import                a name no other import of the module has
  _declare_imports               each imported file that is used is bound to its registered name, once
Assumed: repr() of None, bool, int, finite float, bytes, tuple reads back as the value, float(repr(x)) is x; classes of imported modules are what those modules define;
compact() gives an equal struct (C14); a list is determined by segment, offset, size tag, count and item type (C04)."""
import ast, string, textwrap
from vc import *
from contracts.c10 import *
N_ = 'capnpy.compiler.node:'; M_ = 'capnpy.compiler.module:'; R_ = 'capnpy.compiler.request:'; T_ = 'capnpy.compiler.misc:'

class PH(object):
    "a value put into the text; conv: s (str), r (repr)"
    def __init__(self, v, conv): self.v, self.conv = v, conv
    def same(self, o): return self.conv == o.conv and (self.v is o.v or isinstance(self.v, Opq) and isinstance(o.v, Opq) and self.v.t.eq(o.v.t) or
                                                       isinstance(self.v, Z.ExprRef) and isinstance(o.v, Z.ExprRef) and self.v.eq(o.v))
class CT(object):
    dv_parts = True
    def __init__(self, parts):
        p = []
        for x in parts:
            for y in (x.p if isinstance(x, CT) else [x]):
                if isinstance(y, str) and p and isinstance(p[-1], str): p[-1] += y
                elif y != '' or not isinstance(y, str): p.append(y)
        self.p = p
    def slice(self, lo, hi): raise Unsupported('slice of a text')
    def __repr__(self): return 'CT(%s)' % ''.join(x if isinstance(x, str) else '<%s>' % x.conv for x in self.p)
class Code(object):
    "code whose meaning is known: the callee's contract gives it"
    dv_parts = True
    def __init__(self, kind, **kw): self.kind, self.__dict__ = kind, dict(kw, kind=kind)
    def slice(self, lo, hi): raise Unsupported('slice of a text')
class PathT(object):
    "the path of an import as the schema gives it: ends with '.capnp'; ops: what was done to it"
    dv_parts = True
    def __init__(self, t, ops=()): self.t, self.ops = t, ops
    def op(self, n, args):
        if n == 'lstrip' and args == ['/'] and not self.ops: return PathT(self.t, ('no leading slashes',))
        if n == 'replace' and args == ['/', '.'] and 'dots' not in self.ops: return PathT(self.t, self.ops + ('dots',))
        if n == 'endswith' and args == ['.capnp'] and 'no suffix' not in self.ops: return True
        if n in ('lstrip', 'replace') and all(isinstance(a, str) for a in args) and args != ['/']: return PathT(self.t, self.ops + ((n, tuple(args)),))
        raise Unsupported('path operation %s%r' % (n, args))
    def slice(self, lo, hi):
        if lo in (None, 0) and conc(hi) == -6 and 'no suffix' not in self.ops: return PathT(self.t, self.ops + ('no suffix',))
        if lo in (None, 0) and conc(hi) is not None and conc(hi) < 0: return PathT(self.t, self.ops + (('cut', conc(hi)),))
        raise Unsupported('part of a path')
    def __repr__(self): return 'path'
def as_text(v, conv='s'):
    if isinstance(v, CT) and conv == 's': return v
    if isinstance(v, CT) and all(isinstance(x, str) for x in v.p): v = ''.join(v.p)
    if isinstance(v, Opq) and str(v.cls).startswith('TT:') and conv == 's': v = v.cls[3:]
    if isinstance(v, str): return CT([v if conv == 's' else repr(v)])
    if v is None or isinstance(v, (bool, int, float, bytes)):
        if not isinstance(v, bytes): return CT([repr(v)])
        return CT([PH(v, conv)])
    return CT([PH(v, conv)])
class CodeText(object):
    "the string operations on such texts"
    def binop(self, ex, s, op, a, b):
        if op == '+': return CT([as_text(a), as_text(b)])
        if op != '%' or not isinstance(a, str): raise Unsupported('text %s' % op)
        args = list(b.xs) if isinstance(b, Tup) else [b]
        out = []
        for x in re.split(r'(%.)', a):
            if x in ('%s', '%r', '%d'):
                if not args: raise Unsupported('format arguments')
                v = args.pop(0)
                if x == '%d' and not isint(v): raise Unsupported('%d')
                out.append(as_text(v, 'r' if x == '%r' else 's'))
            elif x == '%%': out.append('%')
            elif x.startswith('%'): raise Unsupported('format ' + x)
            else: out.append(x)
        if args: raise Unsupported('format arguments')
        return CT(out)
    def joined(self, vs): return CT([as_text(v) for v in vs])
    def t_lstrip(self, ex, s, o, args):
        if args != ['_']: raise Unsupported('lstrip')
        p = list(o.p)
        while p and isinstance(p[0], str):
            p[0] = p[0].lstrip('_')
            if p[0]: break
            p.pop(0)
        if p and isinstance(p[0], PH) and not (isinstance(p[0].v, Opq) and p[0].v.cls == 'CodeName'): raise Unsupported('lstrip')
        return CT(p)          # names start with a letter
    def format(self, tmpl, args, kw):
        if isinstance(tmpl, CT) and len(tmpl.p) == 1 and isinstance(tmpl.p[0], str): tmpl = tmpl.p[0]
        if isinstance(tmpl, CT) and all(isinstance(x, PH) and isinstance(x.v, Opq) and x.v.cls in ('FileName', 'Stem') or isinstance(x, str) and '{' not in x and '}' not in x for x in tmpl.p): return tmpl
        if not isinstance(tmpl, str): raise Unsupported('format of a composed text')
        out, auto = [], 0
        for lit, field, spec, conv in string.Formatter().parse(tmpl):
            out.append(lit)
            if field is None: continue
            if field == '': field, auto = str(auto), auto + 1
            if field.isdigit():
                if int(field) >= len(args): raise Unsupported('format argument')
                v = args[int(field)]
            elif field in kw: v = kw[field]
            else: raise Unsupported('format field %s' % field)
            if spec and not ((isint(v) or isinstance(v, Opq) and v.cls == 'file id') and not conv and spec in ('#x', 'd')): raise Unsupported('format spec')
            out.append(as_text(v, conv or 's'))
        return CT(out)
    def call(self, ex, st, n, o, args): return self.kwcall(ex, st, n, o, args, {})
    def kwcall(self, ex, st, n, o, args, kw):
        if n in ('method.str.format', 'text.format'): return iter([(st, self.format(o, args, kw))])
        if kw: return None
        if n == 'getattr' and len(args) == 2 and isinstance(args[0], Opq):
            a = as_text(args[1])
            if len(a.p) != 1 or not isinstance(a.p[0], str): raise Unsupported('getattr of a composed name')
            return ex.getattr_(st, args[0], a.p[0])
        if n in ('repr', 'str') and len(args) == 1: return iter([(st, as_text(args[0], n[0]))])
        if n == 'method.str.join' or n == 'text.join':
            v = args[0]
            if isinstance(v, Ref) and v.cls == 'list' and conc(st.get(v, 'L').n) is not None:
                L = st.get(v, 'L')
                v = Tup([L.item(st, i) for i in range(conc(L.n))])
            if not isinstance(v, Tup): raise Unsupported('join')
            out = []
            for i, x in enumerate(v.xs): out += ([as_text(o)] if i else []) + [as_text(x)]
            return iter([(st, CT(out))])
        if n.startswith('text.') and isinstance(o, PathT): return iter([(st, o.op(n[5:], args))])
        if n.startswith('text.') and isinstance(o, CT):
            h = getattr(self, 't_' + n[5:], None)
            if h is None: raise Unsupported('text operation ' + n[5:])
            return iter([(st, h(ex, st, o, args))])
        return None
import re
def sem(t, x, mode='eval'):
    "the meaning of a text, as a tree; None: not Python"
    phs, src = [], ''
    if isinstance(x, Code): return ('code', x)
    if isinstance(x, str): x = CT([x])
    if not isinstance(x, CT): raise Unsupported('not a text: %r' % (x,))
    for p in x.p:
        if isinstance(p, str): src += p
        else:
            k = [i for i, q in enumerate(phs) if q.same(p)]
            if not k: phs.append(p); k = [len(phs) - 1]
            src += 'PH%d__' % k[0]
    try: tree = ast.parse(src.strip() if mode == 'eval' else src, mode=mode)
    except SyntaxError: return None
    def name(s):
        m = re.match(r'PH(\d+)__$', s)
        if not m: return ('name', re.sub(r'PH(\d+)__', lambda m: '<%s>' % ident(phs[int(m.group(1))]), s))
        p = phs[int(m.group(1))]
        if isinstance(p.v, Code): return ('code', p.v) if p.conv == 's' else ('v', p.v)
        if isinstance(p.v, CT): return ('reprof', sem(t, p.v))
        if p.conv == 'r' or isint(p.v) or isbool(p.v): return ('v', p.v)
        if isinstance(p.v, Opq) and p.v.cls in ('CodeName', 'str'): return ('code', p.v)
        return ('text of', p.v)
    def ident(p): return p.v.t.sexpr() if isinstance(p.v, Opq) else repr(p.v)
    def go(n):
        if isinstance(n, ast.Expression): return go(n.body)
        if isinstance(n, ast.Module): return ('block', [go(b) for b in n.body])
        if isinstance(n, ast.Expr): return go(n.value)
        if isinstance(n, ast.Assign) and len(n.targets) == 1: return ('assign', go(n.targets[0]), go(n.value))
        if isinstance(n, ast.ImportFrom): return ('from', n.module, [(a.name, a.asname or a.name) for a in n.names])
        if isinstance(n, ast.Import) and len(n.names) == 1: return ('import', name(n.names[0].name) if '.' not in n.names[0].name else ('name', n.names[0].name), name(n.names[0].asname or n.names[0].name))
        if isinstance(n, ast.ClassDef) and not n.decorator_list and not n.keywords: return ('class', name(n.name), [go(b) for b in n.bases], [go(b) for b in n.body])
        if isinstance(n, ast.Name): return name(n.id)
        if isinstance(n, ast.Constant):
            if isinstance(n.value, str) and re.search(r'PH\d+__', n.value):
                parts = [phs[int(x)] if i % 2 else x for i, x in enumerate(re.split(r'PH(\d+)__', n.value))]
                return ('quoted', CT(parts))
            return ('v', n.value)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant): return ('v', -n.operand.value)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            return ('neg', go(n.operand))
        if isinstance(n, ast.Attribute): return ('attr', go(n.value), name(n.attr)[1] if name(n.attr)[0] == 'name' else name(n.attr))
        if isinstance(n, ast.Call): return ('call', go(n.func), [go(a) for a in n.args], dict((k.arg, go(k.value)) for k in n.keywords))
        if isinstance(n, ast.Tuple): return ('tuple', [go(e) for e in n.elts])
        return ('other', ast.dump(n))
    return go(tree)
def params(t, key):
    f = t.w.function(key)
    return [p[0] for p in f.params][1:]
def bound(t, key, c):
    "the arguments of a call of a classmethod, by parameter name"
    ps = params(t, key)
    if len(c[2]) > len(ps): return None
    d = dict(zip(ps, c[2]))
    if set(d) & set(c[3]) or set(c[3]) - set(ps): return None
    d.update(c[3])
    return d if set(d) == set(ps) else None
def valid(t, s, g): return not t.ex.feasible(s, Not(g))
def unsupported(x): raise Unsupported(x)
def opq_is(v, term): return v.t == term if isinstance(v, Opq) else False
REFSEG = ('attr', ('attr', ('name', '_reflection_data'), 'request'), '_seg')
WHOLE, REQSEG = ufn('SEG_OF', OV, OV), Z.Const('REQUEST_SEG', OV)
OFF = {n: ufn('STRUCT_' + n, OV, INT) for n in ('_data_offset', '_data_size', '_ptrs_size')}
LOFF = {n: ufn('LIST_' + n, OV, INT) for n in ('_offset', '_size_tag', '_item_count')}
SBUF, SOFFS, ISMULTI = ufn('SEG_BUF', OV, OV), ufn('SEG_OFFSETS', OV, OV), ufn('SEG_IS_MULTI', OV, BOOL)
COMPACT = ufn('COMPACT', OV, OV)
for _n in OFF: BM.OATTR['ConstStruct', _n] = lambda ex, s, o, _n=_n: iter([(s, OFF[_n](o.t))])
for _n in LOFF: BM.OATTR['ConstList', _n] = lambda ex, s, o, _n=_n: iter([(s, LOFF[_n](o.t))])
for _c in ('ConstStruct', 'ConstList'): BM.OATTR[_c, '_seg'] = lambda ex, s, o: iter([(s, Opq(WHOLE(o.t), 'ConstSeg'))])
BM.OATTR['ConstSeg', 'buf'] = lambda ex, s, o: iter([(s, Opq(SBUF(o.t), 'bytes object'))])
BM.OATTR['ConstSeg', 'segment_offsets'] = lambda ex, s, o: iter([(s, Opq(SOFFS(o.t), 'offsets'))])
# isinstance() of a segment: MultiSegment is a subclass of neither of the others that matter here; a Segment may be one
BM.OATTR['ConstSeg', 'is'] = None
def method_of(cls, name, f):
    BM.OATTR[cls, name] = lambda ex, s, o: iter([(s, Builtin('%s.%s' % (cls, name), o))])
    BM.CALLS['%s.%s' % (cls, name)] = f
method_of('ConstStruct', 'compact', lambda ex, s, args, kw: iter([(s, Opq(COMPACT(args[0].t), 'ConstStruct'))]))
def seg_is(sm, s, term):
    "the segment with the content of the segment `term`"
    if sm[0] == 'call' and sm[1] in (('name', '_Segment'), ('name', '_MultiSegment')) and all(a[0] == 'v' for a in sm[2]) and not sm[3]:
        vs = [a[1] for a in sm[2]]
        if sm[1][1] == '_Segment': return len(vs) == 1 and And(Not(ISMULTI(term)), opq_is(vs[0], SBUF(term)))
        return len(vs) == 2 and And(ISMULTI(term), opq_is(vs[0], SBUF(term)), opq_is(vs[1], SOFFS(term)))
    if sm == REFSEG: return term == REQSEG
    return False
def is_const_struct(t, s, sm, clsname, term):
    "(name, goal)s: the text evaluates to struct `term` of the class named"
    if sm is not None and sm[0] == 'code' and isinstance(sm[1], Code) and sm[1].kind == 'const':
        c = sm[1]
        yield 'class', c.clsname is clsname or isinstance(c.clsname, str) and c.clsname == clsname or isinstance(clsname, Opq) and opq_is(c.clsname, clsname.t)
        yield 'struct', opq_is(c.s, term) if c.seg is not None else Or(opq_is(c.s, term), opq_is(c.s, COMPACT(term)))
        return
    ok = sm is not None and sm[0] == 'call' and sm[1][0] == 'attr' and sm[1][2] == 'from_buffer'
    yield 'is-a-from_buffer-call', ok
    if not ok: return
    d = bound(t, 'capnpy.struct_:Struct.from_buffer', sm)
    yield 'arguments', d is not None
    if d is None: return
    c = sm[1][1]
    yield 'class', (c == ('name', clsname) if isinstance(clsname, str) else c[0] == 'code' and opq_is(c[1], clsname.t))
    yield 'segment', seg_is(d['buf'], s, WHOLE(term))
    for p, n in (('offset', '_data_offset'), ('data_size', '_data_size'), ('ptrs_size', '_ptrs_size')): yield p, d[p][0] == 'v' and isint(d[p][1]) and zi(d[p][1]) == OFF[n](term)
def is_const_list(t, s, sm, item, term):
    ok = sm is not None and sm[0] == 'call' and sm[1] == ('attr', ('name', '_List'), 'from_buffer')
    if sm is not None and sm[0] == 'code' and isinstance(sm[1], Code) and sm[1].kind == 'constlist':
        yield 'list', opq_is(sm[1].val, term)
        yield 'item_type', sm[1].item is item or isinstance(item, Opq) and opq_is(sm[1].item, item.t)
        return
    yield 'is-a-from_buffer-call', ok
    if not ok: return
    d = bound(t, 'capnpy.list:List.from_buffer', sm)
    yield 'arguments', d is not None
    if d is None: return
    yield 'segment', seg_is(d['buf'], s, WHOLE(term))
    for p, n in (('offset', '_offset'), ('size_tag', '_size_tag'), ('item_count', '_item_count')): yield p, d[p][0] == 'v' and isint(d[p][1]) and zi(d[p][1]) == LOFF[n](term)
    yield 'item_type', d['item_type'][0] == 'code' and opq_is(d['item_type'][1], item.t)

def name_binop(ex, s, op, a, b):
    if op == '+' and any(isinstance(x, Opq) and x.cls == 'CodeName' for x in (a, b)): return CT([as_text(a), as_text(b)])
def base_setup(t):
    t.ex.local['text'] = CodeText()
    t.ex.local['binop'] = name_binop
    for n in ('module', 'node', 'misc', 'request', 'struct_', 'enum', 'field'): t.w.module('capnpy.compiler.' + n)
    for n in ('struct_', 'list', 'segment.segment'): t.w.module('capnpy.' + n)
def name_of(s, nm): return Opq(fresho(nm), 'CodeName')

# ---- declare_const
def dc_task(kind, given):
    @task(M_ + 'ModuleGenerator.declare_const', ['C22'], modes=('py',), name=M_ + 'ModuleGenerator.declare_const[%s%s]' % (kind, ',segment named' if given else ''))
    def run(t):
        base_setup(t)
        st = t.st()
        x = fresho('struct')
        st.pc.append(ISMULTI(WHOLE(x)) == (kind == 'multi'))
        BM.OATTR['ConstSeg', 'isinst:MultiSegment'] = BM.OATTR['ConstSeg', 'isinst:Segment'] = None
        if kind == 'multi': del BM.OATTR['ConstSeg', 'isinst:Segment']
        else: del BM.OATTR['ConstSeg', 'isinst:MultiSegment']
        cls = name_of(st, 'clsname')
        m = st.new('ModuleGenerator')
        args = [m, cls, Opq(x, 'ConstStruct')]
        if given:
            args.append('_reflection_data.request._seg')
            st.pc.append(WHOLE(x) == REQSEG)
        t.expect(t.run(st, args), ret=lambda s, v: list(is_const_struct(t, s, sem(t, v), cls, x)))
for _k in ('single', 'multi'):
    for _g in (False, True): dc_task(_k, _g)
@task(N_ + 'Node__Const._declare_list_const', ['C22'], modes=('py',))
def list_const(t):
    base_setup(t)
    st = t.st()
    x = fresho('list')
    st.pc.append(WHOLE(x) == REQSEG)
    item = name_of(st, 'item_type')
    t.expect(t.run(st, [Opq(fresho('node'), 'ConstNode'), Opq(x, 'ConstList'), item]), ret=lambda s, v: list(is_const_list(t, s, sem(t, v), item, x)))

# ---- scopes of pypytools' Code: what is written, with which names filled in
def scope_attrs(s, o): return dict((k, v) for k, v in s.heap[o.id].items() if k not in ('dv_code',))
def fmt(ex, s, o, text, kw):
    d = dict(scope_attrs(s, o), **kw)
    if not d: return text if isinstance(text, (str, CT)) else as_text(text)
    return CodeText().format(text, [], d)
def emit(s, o, line):
    c = s.heap[o.id]['dv_code']
    if s.heap[c.id].get('indent'): line = CT([' ' * s.heap[c.id]['indent'], as_text(line)])
    s.heap[c.id] = dict(s.heap[c.id], lines=s.heap[c.id]['lines'] + (line,))
def _w(ex, s, args, kw):
    o = args[0]
    if len(args) == 1: text = ''
    elif len(args) == 2: text = args[1]
    else: raise Unsupported('w with several parts')
    emit(s, o, fmt(ex, s, o, text, kw))
    yield s, None
def _ww(ex, s, args, kw):
    o, text = args
    if not isinstance(text, str): raise Unsupported('ww of a composed text')
    for l in textwrap.dedent(text[1:]).splitlines(): emit(s, o, fmt(ex, s, o, l, kw))
    yield s, None
def _new_scope(ex, s, args, kw):
    r = s.new('scope', **dict(scope_attrs(s, args[0]), dv_code=s.heap[args[0].id]['dv_code']))
    s.heap[r.id] = dict(s.heap[r.id], **kw)
    yield s, r
for _n, _f in (('w', _w), ('ww', _ww), ('new_scope', _new_scope), ('format', lambda ex, s, args, kw: iter([(s, fmt(ex, s, args[0], args[1], kw))]))):
    BM.ATTR['scope', _n] = lambda ex, s, o, _n=_n: iter([(s, Builtin('scope.' + _n, o))])
    BM.CALLS['scope.' + _n] = _f
def generator(t, st, **kw):
    code = st.new('codeobj', lines=())
    scope = st.new('scope', dv_code=code)
    m = st.new('ModuleGenerator', code=scope, **kw)
    def lines(s): return s.heap[code.id]['lines']
    def w(c):
        class W(Contract):
            key = c
            def apply(self, ex, s, env): raise Unsupported('m.' + c)
        return W()
    return m, lines
BM.ATTR['ModuleGenerator', 'w'] = lambda ex, s, o: iter([(s, Builtin('scope.w', s.heap[o.id]['code']))])
def text_of_lines(ls):
    out = []
    for l in ls: out += [l, '\n']
    return CT([as_text(x) for x in out])

# ---- one constant
KIND = {n: ufn('CONST_IS_' + n, OV, BOOL) for n in ('struct', 'list')}
CONST, TYPEOF, VALUE, NODEOF, TYPEID, PTRVAL = (ufn('CONST_' + n, OV, OV) for n in ('const', 'type', 'value', 'node', 'typeid', 'ptr'))
CNAME, SHORT, ITEMT, ELT = ufn('COMPILE_NAME', OV, OV), ufn('SHORTNAME', OV, OV), ufn('LIST_ITEM_TYPE', OV, OV, OV), ufn('ELEMENT_TYPE', OV, OV)
def chain(cls, n, to, f=lambda t: t): BM.OATTR[cls, n] = lambda ex, s, o: iter([(s, Opq(f(o.t), to))])
chain('ConstNode', 'const', 'Const.const'); chain('Const.const', 'type', 'CType', TYPEOF); chain('Const.const', 'value', 'CValue', VALUE)
chain('CType', 'struct', 'CType.struct'); chain('CType.struct', 'typeId', 'TypeId', TYPEID); chain('CType', 'list', 'CType.list'); chain('CType.list', 'elementType', 'EType', ELT)
chain('CValue', 'struct', 'AnyPtr.struct'); chain('CValue', 'list', 'AnyPtr.list')
chain('ConstNode', 'id', 'id')
for _n in KIND: method_of('CType', 'is_' + _n, lambda ex, s, args, kw, _n=_n: iter([(s, KIND[_n](args[0].t))]))
method_of('ConstNode', 'shortname', lambda ex, s, args, kw: iter([(s, Opq(SHORT(args[0].t), 'CodeName'))]))
method_of('TypeNode', 'compile_name', lambda ex, s, args, kw: iter([(s, Opq(CNAME(args[0].t), 'CodeName'))]) if len(args) == 2 and not kw else unsupported('compile_name with a prefix'))
BM.INDEX['nodesbyid'] = lambda ex, s, o, i: iter([(s, Opq(NODEOF(i.t), 'TypeNode'))])
def _eitem(ex, s, args, kw):
    e, m, opt = args
    yield s, Opq(ITEMT(e.t, opt.t), 'CodeName')
method_of('EType', 'list_item_type', _eitem)
def _as_struct(ex, s, args, kw):
    if not (isinstance(args[1], ClsV) and args[1].name == 'Struct'): raise Unsupported('as_struct')
    yield s, Opq(PTRVAL(args[0].t), 'ConstStruct')
method_of('AnyPtr.struct', 'as_struct', _as_struct)
def _as_list(ex, s, args, kw): yield s, Opq(PTRVAL(args[0].t), 'ConstList')
method_of('AnyPtr.list', 'as_list', _as_list)
FIN = ufn('FINITE', FV, BOOL)
BM.OATTR['finite float', 'isinst:float'] = True
def pyvalues(ex, s, t):
    "the values a constant that is neither struct nor list can have"
    inf = float('inf')
    for tag, mk in (('void', lambda: None), ('bool', lambda: freshb('value')), ('int', lambda: fresh('value')), ('inf', lambda: inf), ('-inf', lambda: -inf), ('nan', lambda: float('nan')),
                    ('float', lambda: Opq(ufn('FLOAT_OF', OV, OV)(t), 'finite float')), ('bytes', lambda: Opq(ufn('BYTES_OF', OV, OV)(t), 'bytes')), ('text', lambda: Opq(ufn('STR_OF', OV, OV)(t), 'unicode'))):
        s2 = s.fork()
        v = mk()
        s2.ghost = dict(s2.ghost, value=v)
        yield s2, v
def _as_pyobj(ex, s, args, kw):
    ex.ob('as_pyobj/pre/no-pointer-to-struct-or-list', s, And(Not(KIND['struct'](s.ghost['c22type'])), Not(KIND['list'](s.ghost['c22type']))))
    for y in pyvalues(ex, s, args[0].t): yield y
method_of('CValue', 'as_pyobj', _as_pyobj)
def fbinop(ex, s, op, a, b):
    if op == '-' and isinstance(a, Opq) and isinstance(b, Opq) and a.cls == b.cls == 'finite float' and a.t.eq(b.t): return 0.0
    if op in ('-', '*') and isinstance(a, float) and isinstance(b, float): return a - b if op == '-' else a * b
    if op == '*' and isinstance(a, Opq) and a.cls == 'finite float' and b == 0: return 0.0
    return name_binop(ex, s, op, a, b)
def fcompare(ex, s, op, a, b):
    if isinstance(a, Opq) and isinstance(b, Opq) and a.cls == b.cls == 'finite float' and a.t.eq(b.t): return op in ('==', '<=', '>=')
    if isinstance(a, Opq) and a.cls == 'finite float' and isinstance(b, float) and b - b != 0: return op == '!=' or b > 0 and op in ('<', '<=') or b < 0 and op in ('>', '>=')
def mathfn(inf, nan):
    def f(ex, s, args, kw):
        v, = args
        if isinstance(v, Opq) and v.cls == 'finite float': yield s, False
        elif isinstance(v, float): yield s, (inf and v in (float('inf'), -float('inf')) or nan and v != v)
        else: raise Unsupported('math.isinf')
    return f
BM.CALLS['math.isinf'], BM.CALLS['math.isnan'] = mathfn(1, 0), mathfn(0, 1)
BM.CALLS['math.isfinite'] = lambda ex, s, args, kw: iter([(s, isinstance(args[0], Opq) or args[0] - args[0] == 0)])
def same_value(sm, v):
    "the text evaluates to v"
    if sm is None: return False
    if isinstance(v, float):
        # not finite: only float('...') gives it
        if not (sm[0] == 'call' and sm[1] == ('name', 'float') and len(sm[2]) == 1 and not sm[3]): return False
        a = sm[2][0]
        if a[0] != 'v' or not isinstance(a[1], str): return False
        try: w = float(a[1])
        except ValueError: return False
        return w == v or (w != w and v != v)
    if sm[0] == 'call' and sm[1] == ('name', 'float') and isinstance(v, Opq) and v.cls == 'finite float' and len(sm[2]) == 1:
        a = sm[2][0]
        # float('<repr of the value>')
        return a[0] == 'reprof' and a[1] == ('v', v) or a[0] == 'quoted' and len(a[1].p) == 1 and isinstance(a[1].p[0], PH) and a[1].p[0].v is v or (a[0] == 'v' and a[1] is v)
    if sm[0] == 'text of': return isinstance(v, Opq) and v.cls == 'finite float' and opq_is(sm[1], v.t)
    if sm[0] != 'v': return False
    w = sm[1]
    if v is None or w is None: return v is w
    if isinstance(v, Opq): return isinstance(w, Opq) and v.cls == w.cls and opq_is(w, v.t)
    if isbool(v): return isbool(w) and zb(w) == zb(v)
    return isint(w) and not isbool(w) and zi(w) == zi(v)
NESTED, MANGLED, PARENTOF = ufn('CONST_IS_NESTED', OV, BOOL), ufn('MANGLED', OV, OV), ufn('CONST_PARENT', OV, OV)
method_of('ConstNode', 'is_nested', lambda ex, s, args, kw: iter([(s, NESTED(args[0].t))]))
method_of('ConstNode', 'get_parent', lambda ex, s, args, kw: iter([(s, Opq(PARENTOF(args[0].t), 'TypeNode'))]))
class Mangle(Contract):
    "discharged below"
    key = M_ + 'ModuleGenerator._mangle_name'
    def apply(self, ex, s, env):
        if not isinstance(env['name'], Opq): raise Unsupported('_mangle_name')
        yield s, Opq(MANGLED(env['name'].t), 'CodeName')
def const_task(refl, delayed=False):
    @task(N_ + 'Node__Const.emit_reference_as_child', ['C22'], modes=('py',), name=N_ + 'Node__Const.emit_reference_as_child[%s reflection data]' % ('delayed, with' if delayed else 'with' if refl else 'no'))
    def run(t):
        base_setup(t)
        t.ex.local['binop'], t.ex.local['compare'] = fbinop, fcompare
        st = t.st()
        opt = fresho('options')
        BM.OATTR['ConstOptions', 'include_reflection_data'] = lambda ex, s, o: iter([(s, refl)])
        late = st.new('list', L=G.Lst(0, None))
        m, lines = generator(t, st, allnodes=st.new('nodesbyid'), delayed_consts=late)
        node = fresho('node')
        t.ex.local[Mangle.key] = Mangle()
        ty, val = TYPEOF(node), VALUE(node)
        st.ghost['c22type'] = ty
        st.pc += [Not(And(KIND['struct'](ty), KIND['list'](ty))), WHOLE(PTRVAL(val)) == REQSEG]
        class Options(Contract):
            key = M_ + 'ModuleGenerator.options'
            def apply(self, ex, s, env):
                ex.ob('options/pre/of-this-node', s, opq_is(env['node_or_field'], node))
                yield s, Opq(opt, 'ConstOptions')
        class DeclareConst(Contract):
            "discharged above"
            key = M_ + 'ModuleGenerator.declare_const'
            def apply(self, ex, s, env):
                c, x, seg = env['clsname'], env['s'], env['segment']
                if not (isinstance(x, Opq) and x.cls == 'ConstStruct'): raise Unsupported('declare_const')
                if seg is not None:
                    sm = sem(t, seg)
                    ex.ob('declare_const/pre/segment-exists', s, sm == REFSEG and refl)
                    ex.ob('declare_const/pre/segment', s, WHOLE(x.t) == REQSEG)
                yield s, Code('const', clsname=c, s=x, seg=seg)
        class DeclareList(Contract):
            key = N_ + 'Node__Const._declare_list_const'
            def apply(self, ex, s, env):
                x = env['val']
                if not (isinstance(x, Opq) and x.cls == 'ConstList'): raise Unsupported('_declare_list_const')
                ex.ob('_declare_list_const/pre/segment-exists', s, refl)
                ex.ob('_declare_list_const/pre/segment', s, WHOLE(x.t) == REQSEG)
                yield s, Code('constlist', val=x, item=env['item_type'])
        BM.OATTR['ConstNode', '_declare_list_const'] = lambda ex, s, o: iter([(s, FnV(t.w.function(N_ + 'Node__Const._declare_list_const'), o))])
        t.ex.local[Options.key], t.ex.local[DeclareConst.key], t.ex.local[DeclareList.key] = Options(), DeclareConst(), DeclareList()
        def ret(s, v):
            ls = lines(s)
            L = s.get(late, 'L')
            if not delayed and conc(L.n) != 0:
                # a list constant of a class: its items' type may come later in the module
                yield 'only-lists-of-classes-are-delayed', And(KIND['list'](ty), NESTED(node))
                yield 'delayed-once', conc(L.n) == 1 and opq_is(L.item(s, 0), node) and len(ls) == 0
                return
            if not delayed: yield 'lists-of-classes-are-delayed', Not(And(KIND['list'](ty), NESTED(node)))
            else: yield 'not-delayed-again', conc(L.n) == 0
            yield 'one-line', len(ls) == 1
            if len(ls) != 1: return
            sm = sem(t, ls[0], 'exec')
            if delayed:
                a = sm[1][0] if sm is not None and len(sm[1]) == 1 else ('',)
                ok = a[0] == 'call' and len(a[2]) == 3 and not a[3] and a[1] == ('name', '_magic_setattr')
                yield 'attribute-of-the-class', ok
                if not ok: return
                yield 'class', a[2][0][0] == 'code' and opq_is(a[2][0][1], CNAME(PARENTOF(node)))
                yield 'name', a[2][1][0] == 'v' and opq_is(a[2][1][1], MANGLED(SHORT(node)))
                value = a[2][2]
            else:
                ok = sm is not None and len(sm[1]) == 1 and sm[1][0][0] == 'assign'
                yield 'assignment', ok
                if not ok: return
                _, target, value = sm[1][0]
                yield 'name', target[0] == 'code' and opq_is(target[1], MANGLED(SHORT(node)))
            if value[0] == 'code' and isinstance(value[1], Code) and value[1].kind == 'constlist' or valid(t, s, KIND['list'](ty)):
                yield 'list-only', KIND['list'](ty)
                for y in is_const_list(t, s, value, Opq(ITEMT(ELT(ty), opt), 'CodeName'), PTRVAL(val)): yield y
            elif valid(t, s, KIND['struct'](ty)):
                for y in is_const_struct(t, s, value, Opq(CNAME(NODEOF(TYPEID(ty))), 'CodeName'), PTRVAL(val)): yield y
            elif 'value' in s.ghost:
                yield 'value', same_value(value, s.ghost['value'])
                yield 'not-a-pointer', And(Not(KIND['struct'](ty)), Not(KIND['list'](ty)))
            else: yield 'value-read', False
        if delayed: st.pc += [KIND['list'](ty), NESTED(node)]
        t.expect(t.run(st, [Opq(node, 'ConstNode'), m], dict(delayed=True) if delayed else {}), ret=ret, raises=[(And(KIND['list'](ty), Not(NESTED(node))), ('NotImplementedError',))] if not refl else [])
    return run
const_task(True); const_task(False); const_task(True, True)

# ---- the code of an item type
KINDS = ['void', 'bool', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'float32', 'float64', 'text', 'data', 'list', 'enum', 'struct', 'interface', 'anyPointer']
IMPORTED, PREFIXED = ufn('IS_IMPORTED', OV, BOOL), ufn('PREFIXED_NAME', OV, OV)
for _i, _k in enumerate(KINDS):
    _c = 'type:' + _k
    for _j in KINDS: method_of(_c, 'is_' + _j[0].lower() + _j[1:], lambda ex, s, args, kw, r=_j == _k: iter([(s, r)]))
    method_of(_c, 'is_builtin', lambda ex, s, args, kw, r=_i <= KINDS.index('data'): iter([(s, r)]))
    method_of(_c, 'is_primitive', lambda ex, s, args, kw, r=2 <= _i <= KINDS.index('float64'): iter([(s, r)]))
    method_of(_c, 'which', lambda ex, s, args, kw, k=_k: iter([(s, k)]))
    method_of(_c, 'get_node', lambda ex, s, args, kw: iter([(s, Opq(NODEOF(args[0].t), 'NamedNode'))]))
    def _cname(ex, s, args, kw, k=_k):
        d = dict(zip(('self', 'm', 'prefix'), args), **kw)
        node, p = NODEOF(d['self'].t), d.get('prefix', '')
        if k not in ('struct', 'enum'): raise Unsupported('compile_name of ' + k)
        if p == '': yield s, Opq(CNAME(node), 'CodeName')
        elif p == '_':
            for s2, imp in ex.branch(s, IMPORTED(node)): yield s2, Opq(PREFIXED(node), 'CodeName') if imp else CT(['_', PH(Opq(CNAME(node), 'CodeName'), 's')])
        else: raise Unsupported('prefix')
    method_of(_c, 'compile_name', _cname)
    BM.OATTR[_c, 'dv_classes'] = ('capnpy.compiler.misc:Type',)
    if _k == 'list':
        chain(_c, 'list', 'TList'); chain('TList', 'elementType', 'ETypeI', ELT)
method_of('NamedNode', 'is_imported', lambda ex, s, args, kw: iter([(s, IMPORTED(args[0].t))]))
method_of('ETypeI', 'list_item_type', _eitem)
BM.OATTR['ItemOptions', 'text_type'] = lambda ex, s, o: iter([(s, s.ghost['text_type'])])
def ttcompare(ex, s, op, a, b):
    def tt(x):
        if isinstance(x, Opq) and str(x.cls).startswith('TT:'): return x.cls[3:]
        if isinstance(x, Builtin) and x.name.startswith('class.TextType.'): return x.name[15:]
    if op in ('==', '!=', 'is', 'isnot') and tt(a) and tt(b): return (tt(a) == tt(b)) == (op in ('==', 'is'))
def item_task(k, pyx):
    @task(T_ + 'Type.list_item_type', ['C22', 'C04'], modes=('py',), name=T_ + 'Type.list_item_type[%s,%s]' % (k, 'compiled' if pyx else 'pure Python'))
    def run(t):
        base_setup(t)
        t.ex.local['compare'] = ttcompare
        x, opt = fresho('type'), fresho('options')
        for tt in ('bytes', 'unicode'):
            st = t.st()
            st.ghost['text_type'] = Opq(Z.Const('TT_' + tt, OV), 'TT:' + tt)
            m = st.new('ModuleGenerator', pyx=pyx)
            def ret(s, v):
                sm = sem(t, v)
                node = NODEOF(x)
                if sm is None: yield 'is-Python', False
                elif sm[0] == 'call':
                    ok = sm[1][0] == 'name' and len(sm[2]) == 1 and not sm[3] or sm[1][0] == 'name' and not sm[2] and not sm[3]
                    f, a = sm[1][1], (sm[2][0] if sm[2] else None)
                    ty = lambda n: a == ('attr', ('name', '_Types'), n)
                    if k == 'void': g = f == '_VoidItemType' and a is None
                    elif k == 'bool': g = f == '_BoolItemType' and a is None
                    elif k == 'text': g = f == ('_TextItemType' if tt == 'bytes' else '_TextUnicodeItemType') and ty('text')
                    elif k == 'data': g = f == '_TextItemType' and ty('data')
                    elif k in ('struct', 'enum'): g = opq_is(a[1], CNAME(node)) if f == ('_StructItemType' if k == 'struct' else '_EnumItemType') and a is not None and a[0] == 'code' else False
                    elif k == 'list': g = opq_is(a[1], ITEMT(ELT(x), opt)) if f == '_ListItemType' and a is not None and a[0] == 'code' else False
                    else: g = f == '_PrimitiveItemType' and ty(k)
                    yield 'item-type', And(ok, g)
                elif sm[0] == 'name' and k in ('struct', 'enum'):
                    # the name the class's definition gives its item type, in this module
                    yield 'item-type', And(Not(IMPORTED(node)), sm[1] == '_<%s>_list_item_type' % Opq(CNAME(node), 'CodeName').t.sexpr())
                elif sm[0] == 'name': yield 'prebuilt-item-type', pyx and k in KINDS[:14] and sm[1] == '_%s_list_item_type' % (k if k != 'text' else 'text_' + tt)
                else: yield 'item-type', False
            t.expect(t.run(st, [Opq(x, 'type:' + k), m, Opq(opt, 'ItemOptions')]), ret=ret, raises=[(True, ('NotImplementedError',))] if k in ('interface', 'anyPointer') else [])
        if k in ('interface', 'anyPointer'): t.normal = 1
for _k in KINDS:
    for _p in (False, True): item_task(_k, _p)

# ---- the path of a node
PARENT, ISFILE, NOPARENT = ufn('PARENT', OV, OV), ufn('IS_FILE', OV, BOOL), ufn('NO_PARENT', OV, BOOL)
SCOPE = Z.Const('CURRENT_SCOPE', OV)
method_of('PathNode', 'is_file', lambda ex, s, args, kw: iter([(s, ISFILE(args[0].t))]))
def _parent(ex, s, args, kw):
    for s2, none in ex.branch(s, NOPARENT(args[0].t)): yield s2, (None if none else Opq(PARENT(args[0].t), 'PathNode'))
method_of('PathNode', 'get_parent', _parent)
BM.OATTR['PathNode', 'dv_classes'] = ('capnpy.compiler.node:Node',)
BM.OATTR['ConstNode', 'dv_classes'] = ('capnpy.compiler.node:Node__Const', 'capnpy.compiler.node:Node')
method_of('PathNode', 'shortname', lambda ex, s, args, kw: iter([(s, Opq(SHORT(args[0].t), 'CodeName'))]))
def _fullname(ex, s, args, kw):
    n, m, sep = args
    yield s, Code('fullname', node=n, sep=sep)
method_of('PathNode', '_fullname', _fullname)
@task(N_ + 'Node._fullname', ['C22'], modes=('py',))
def fullname(t):
    "by induction on the depth of the node: the recursive call, on the parent, is used through this contract"
    base_setup(t)
    for sep in ('_', '.', '._'):
        st = t.st()
        m, lines = generator(t, st, current_scope=Opq(SCOPE, 'PathNode'))
        n = fresho('node')
        def ret(s, v):
            top = Or(NOPARENT(n), PARENT(n) == SCOPE)
            if isinstance(v, CT) and len(v.p) == 3:
                a, b, c = v.p
                ok = isinstance(a, PH) and isinstance(a.v, Code) and a.v.kind == 'fullname' and a.v.sep == sep and b == sep and isinstance(c, PH) and isinstance(c.v, Opq)
                yield 'nested', And(Not(top), ok, opq_is(a.v.node, PARENT(n)) if ok else False, opq_is(c.v, SHORT(n)) if ok else False)
            elif isinstance(v, Opq): yield 'top', And(top, opq_is(v, SHORT(n)))
            else: yield 'form', False
        t.expect(t.run(st, [Opq(n, 'PathNode'), m, sep]), ret=ret)
def _is_imported(ex, s, args, kw): yield s, IMPORTED(args[0].t)
method_of('PathNode', 'is_imported', _is_imported)
def _runtime_name(ex, s, args, kw):
    d = dict(zip(('self', 'm', 'sep'), args), **kw)
    yield s, Code('fullname', node=d['self'], sep=d.get('sep', '.'))
method_of('PathNode', 'runtime_name', _runtime_name)
@task(N_ + 'Node.compile_name', ['C22'], modes=('py',))
def compile_name(t):
    "an imported class is an attribute of its module (and of the classes around it); a class of this module has a global name of its own"
    base_setup(t)
    for prefix in ('', '_'):
        st = t.st()
        m, lines = generator(t, st, current_scope=Opq(SCOPE, 'PathNode'))
        n = fresho('node')
        def ret(s, v):
            if isinstance(v, CT) and len(v.p) == 2 and v.p[0] == prefix and isinstance(v.p[1], PH): v = v.p[1].v
            elif prefix and not t.ex.feasible(s, Not(IMPORTED(n))): return             # a prefix is not used with imported classes (list_item_type)
            elif prefix: v = None
            elif isinstance(v, CT) and len(v.p) == 1 and isinstance(v.p[0], PH): v = v.p[0].v
            ok = isinstance(v, Code) and v.kind == 'fullname'
            yield 'full-name', And(ok, opq_is(v.node, n) if ok else False)
            if ok: yield 'separator', Z.If(IMPORTED(n), zb(v.sep == '.'), zb(v.sep == '_')) if not prefix else zb(v.sep == '_')
        t.expect(t.run(st, [Opq(n, 'PathNode'), m] + ([prefix] if prefix else [])), ret=ret)

@task(M_ + 'ModuleGenerator._mangle_name', ['C22', 'C18'], modes=('py',))
def mangle(t):
    base_setup(t)
    n = fresho('name')
    iskw = ufn('IS_KEYWORD', OV, BOOL)
    BM.VALUES.setdefault('keyword', {})['kwlist'] = Opq(Z.Const('kwlist', OV), 'kwlist')
    BM.CALLS['keyword.iskeyword'] = lambda ex, s, args, kw: iter([(s, iskw(args[0].t))])
    t.ex.local['compare'] = lambda ex, s, op, a, b: (iskw(a.t) if op == 'in' else Not(iskw(a.t))) if op in ('in', 'notin') and isinstance(b, Opq) and b.cls == 'kwlist' and isinstance(a, Opq) else None
    st = t.st()
    def ret(s, v):
        if isinstance(v, CT): yield 'keyword', And(iskw(n), len(v.p) == 2 and isinstance(v.p[0], PH) and v.p[0].conv == 's' and opq_is(v.p[0].v, n), v.p[1:] == ['_'])
        else: yield 'other', And(Not(iskw(n)), opq_is(v, n))
    t.expect(t.run(st, [st.new('ModuleGenerator'), Opq(n, 'CodeName')]), ret=ret)

# ---- the file a node belongs to
IMP = IMPORTED                                 # a recursive call has the contract the other tasks use
def imp_def(ex, s, n):
    "belonging to another file: of a file, being another one than the current; of anything else, that its parent does.  A file has no parent"
    f = And(IMP(n) == Z.If(ISFILE(n), n != SCOPE, Z.If(NOPARENT(n), False, IMP(PARENT(n)))), Z.Implies(ISFILE(n), NOPARENT(n)))
    s.pc.append(f)
def up(s):
    v = s.env['node']
    if isinstance(v, Opt): return zb(v.cond), v.value.t
    return (Z.BoolVal(False), v.t) if isinstance(v, Opq) else (Z.BoolVal(True), Z.Const('nobody', OV))
@loop(N_ + 'Node.is_imported', 0, modes=('py',))
class Up(LoopSpec):
    def inv(self, ex, st0, st, k):
        n = st.ghost['c22n']
        none, v = up(st)
        v0 = st.env['node']
        yield 'a-node', v0 is None or isinstance(v0, Opq) and v0.cls == 'PathNode' or isinstance(v0, Opt) and v0.special is None and isinstance(v0.value, Opq)
        yield 'answer-is-that-of-the-ancestor', IMP(n) == Z.If(none, False, IMP(v))
    values = dict(node=lambda ex, s: Opt(fresh('no_more') == 0, None, Opq(fresho('ancestor'), 'PathNode')))
    def havoc(self, ex, st0, st, k): self.unfold(ex, st0, st, k)
    def unfold(self, ex, st0, st, k):
        none, v = up(st)
        imp_def(ex, st, v)
def node_eq(ex, s, op, a, b):
    if op in ('==', '!=') and isinstance(a, Opq) and isinstance(b, Opq) and a.cls == b.cls == 'PathNode': return a.t == b.t if op == '==' else a.t != b.t
@task(N_ + 'Node.is_imported', ['C22'], modes=('py',))
def is_imported(t):
    base_setup(t)
    t.ex.local['compare'] = node_eq
    st = t.st()
    m, lines = generator(t, st, current_scope=Opq(SCOPE, 'PathNode'))
    n = fresho('node')
    t.ex.unfolds = True
    imp_def(t.ex, st, n)
    st.ghost['c22n'] = n
    t.expect(t.run(st, [Opq(n, 'PathNode'), m]), ret=lambda s, v: [('imported', And(isbool(v), zb(v) == IMP(n)))])

SCOPEID, BYID = ufn('SCOPE_ID', OV, INT), ufn('NODE_BY_ID', INT, OV)
BM.OATTR['ParentNode', 'scopeId'] = lambda ex, s, o: iter([(s, SCOPEID(o.t))])
BM.OATTR['ParentNode', 'dv_classes'] = ('capnpy.compiler.node:Node',)
BM.INDEX['nodesbyint'] = lambda ex, s, o, i: iter([(s, Opq(BYID(zi(i)), 'ParentNode'))])
@task(N_ + 'Node.get_parent', ['C22', 'C18'], modes=('py',))
def get_parent(t):
    base_setup(t)
    st = t.st()
    m = st.new('ModuleGenerator', allnodes=st.new('nodesbyint'))
    n = fresho('node')
    t.expect(t.run(st, [Opq(n, 'ParentNode'), m]), ret=lambda s, v: [('parent', SCOPEID(n) == 0 if v is None else And(SCOPEID(n) != 0, opq_is(v, BYID(SCOPEID(n)))))])
@task(N_ + 'Node.is_nested', ['C22'], modes=('py',))
def is_nested(t):
    "a node whose parent is not a file: a file is what has scope 0"
    base_setup(t)
    st = t.st()
    m = st.new('ModuleGenerator', allnodes=st.new('nodesbyint'))
    n = fresho('node')
    st.pc.append(SCOPEID(n) != 0)
    t.expect(t.run(st, [Opq(n, 'ParentNode'), m]), ret=lambda s, v: [('nested', And(isbool(v), zb(v) == (SCOPEID(BYID(SCOPEID(n))) != 0)))])

# ---- the value of a member of the union Value
@task(T_ + 'Value.as_pyobj', ['C22', 'C12'], modes=('py',))
def as_pyobj(t):
    base_setup(t)
    PYNAME = {'list': 'list'}
    for k in KINDS:
        st = t.st()
        v, x = fresho('value'), fresho('member')
        cls = 'SchemaValue:' + k
        method_of(cls, 'which', lambda ex, s, args, kw, k=k: iter([(s, Opq(Z.Const('WHICH_' + k, OV), 'TT:' + PYNAME.get(k, k)))]))
        for k2 in KINDS: BM.OATTR[cls, PYNAME.get(k2, k2)] = lambda ex, s, o, k=k, k2=k2, x=x: iter([(s, Opq(x, 'the member') if k == k2 else Exc('ValueError'))])
        t.expect(t.run(st, [Opq(v, cls)]), ret=lambda s, r, x=x: [('member', And(opq_is(r, x), isinstance(r, Opq) and r.cls == 'the member'))])

# ---- names of imported modules
FNAME, STEM = Z.Const('FNAME', OV), ufn('STEM_OF', OV, OV)
NSTEM, NSUFFIX, NCOUNT = ufn('NAME_STEM', INT, OV), ufn('NAME_SUFFIX', INT, INT), Z.Int('IMPORTS')
BM.VALUES.setdefault('py', {})['path'] = Opq(Z.Const('py.path', OV), 'py.path')
method_of('py.path', 'local', lambda ex, s, args, kw: iter([(s, Opq(args[1].t, 'LocalPath'))]))
BM.OATTR['LocalPath', 'purebasename'] = lambda ex, s, o: iter([(s, Opq(STEM(o.t), 'Stem'))])
REPL = ufn('REPLACED', OV, OV)
method_of('Stem', 'replace', lambda ex, s, args, kw: iter([(s, Opq(REPL(args[0].t), 'Stem'))]))
def normal(v):
    "(stem, suffix) of a name: '_STEM_capnp' (suffix -1), '_STEM_capnp_SUFFIX'; no two names of these forms are the same unless stem and suffix are (the suffix is the digits at the end)"
    if isinstance(v, CT) and len(v.p) in (3, 4) and v.p[0] == '_' and isinstance(v.p[1], PH) and isinstance(v.p[1].v, Opq) and v.p[1].v.cls == 'Stem' and v.p[1].conv == 's':
        if len(v.p) == 3 and v.p[2] == '_capnp': return v.p[1].v.t, Z.IntVal(-1)
        if len(v.p) == 4 and v.p[2] == '_capnp_':
            if isinstance(v.p[3], PH) and isint(v.p[3].v): return v.p[1].v.t, zi(v.p[3].v)
        k = re.match(r'_capnp_(0|[1-9]\d*)$', str(v.p[2]))
        if len(v.p) == 3 and k: return v.p[1].v.t, Z.IntVal(int(k.group(1)))
    raise Unsupported('form of the name')
def names_compare(ex, s, op, a, b):
    if op in ('in', 'notin') and isinstance(b, Ref) and b.cls == 'importnames': return freshb('is_a_file_name')
    if op in ('in', 'notin') and isinstance(b, Opq) and b.cls == 'NameValues':
        n = normal(a)
        i, j = fresh('witness'), s.ghost['c22i']
        taken = Z.Bool('taken_%s' % i)
        is_ = lambda q: And(NSTEM(q) == n[0], NSUFFIX(q) == n[1])
        s.pc.append(And(Z.Implies(taken, And(i >= 0, i < NCOUNT, is_(i))), Z.Implies(And(j >= 0, j < NCOUNT, is_(j)), taken)))
        return taken if op == 'in' else Not(taken)
    return None
BM.ATTR['importnames', 'values'] = lambda ex, s, o: iter([(s, Builtin('importnames.values', o))])
BM.CALLS['importnames.values'] = lambda ex, s, args, kw: iter([(s, Opq(Z.Const('names', OV), 'NameValues'))])
BM.ATTR['importnames', '__len__'] = lambda ex, s, o: iter([(s, NCOUNT)])
def _setname(ex, s, o, i, v):
    s.heap[o.id] = dict(s.heap[o.id], sets=s.heap[o.id]['sets'] + ((i, v),))
BM.SETINDEX['importnames'] = _setname
@task(M_ + 'ModuleGenerator.register_import', ['C22'], modes=('py',))
def register_import(t):
    """the name is one no import has yet.  Invariant of the table: its n names are '_STEM_capnp' or '_STEM_capnp_K' with K < n (n: the number of imports; j: any one of them);
    a file is registered once (file names are distinct: precondition)"""
    base_setup(t)
    t.ex.local['compare'] = names_compare
    st = t.st()
    j = Z.Int('any_import')
    st.ghost['c22i'] = j
    st.pc += [NCOUNT >= 0, Z.Implies(And(j >= 0, j < NCOUNT), And(NSUFFIX(j) >= -1, NSUFFIX(j) < NCOUNT))]
    names = st.new('importnames', sets=())
    m = st.new('ModuleGenerator', importnames=names)
    f = Opq(FNAME, 'FileName')
    def ret(s, v):
        n = normal(v)
        yield 'of-this-file', Or(n[0] == REPL(STEM(FNAME)), n[0] == STEM(FNAME))
        yield 'new', Z.Implies(And(j >= 0, j < NCOUNT), Not(And(NSTEM(j) == n[0], NSUFFIX(j) == n[1])))
        yield 'invariant-of-the-table', And(n[1] >= -1, n[1] < NCOUNT + 1)
        sets = s.heap[names.id]['sets']
        yield 'registered', len(sets) == 1 and sets[0][0] is f and sets[0][1] is v
    t.expect(t.run(st, [m, f]), ret=ret)

# ---- imports of the generated module
NIMP, IMPAT, INUSE, FILEOF, DISPLAY, IMPNAME, ASID = Z.Int('NIMPORTS'), ufn('IMPORT', INT, OV), ufn('IMPORT_IN_USE', OV, BOOL), ufn('FILE_OF', OV, OV), ufn('DISPLAY_NAME', OV, OV), ufn('IMPORT_PATH', OV, OV), ufn('AS_IDENTIFIER', OV, OV)
CPP, REGNAME = ufn('IS_CPP_CAPNP', OV, BOOL), ufn('REGISTERED_NAME', OV, OV)
BM.ITER['Imports'] = lambda ex, s, o: iter([(s, (NIMP, lambda s2, i: Opq(IMPAT(zi(i)), 'Import')))])
BM.OATTR['RequestedFile', 'imports'] = lambda ex, s, o: iter([(s, Opq(Z.Const('IMPORTS', OV), 'Imports'))])
BM.OATTR['RequestedFile', 'dv_classes'] = ('capnpy.compiler.request:RequestedFile',)
chain('Import', 'id', 'import id')
BM.OATTR['Import', 'name'] = lambda ex, s, o: iter([(s, Opq(IMPNAME(o.t), 'bytes name'))])
def _filenode(ex, s, o, i):
    for s2, b in ex.branch(s, INUSE(i.t)): yield s2, (Opq(FILEOF(i.t), 'FileNode') if b else Exc('KeyError'))
BM.INDEX['filesbyid'] = _filenode
def _fileget(ex, s, args, kw):
    d = args[2] if len(args) > 2 else kw.get('default')
    for s2, b in ex.branch(s, INUSE(args[1].t)): yield s2, (Opq(FILEOF(args[1].t), 'FileNode') if b else d)
BM.ATTR['filesbyid', 'get'] = lambda ex, s, o: iter([(s, Builtin('filesbyid.get', o))])
BM.CALLS['filesbyid.get'] = _fileget
BM.OATTR['FileNode', 'displayName'] = lambda ex, s, o: iter([(s, Opq(DISPLAY(o.t), 'bytes name'))])
class AsIdentifier(Contract):
    "ASCII names (others raise ValueError: file names are identifiers)"
    key = 'capnpy.compiler.util:as_identifier'
    def apply(self, ex, s, env):
        x, = env.values()
        if not (isinstance(x, Opq) and x.cls == 'bytes name'): raise Unsupported('as_identifier')
        yield s, (PathT(x.t) if x.t.decl().name() == 'IMPORT_PATH' else Opq(ASID(x.t), 'CodeName'))
class Register(Contract):
    "discharged above"
    key = M_ + 'ModuleGenerator.register_import'
    def apply(self, ex, s, env):
        if not isinstance(env['fname'], Opq): raise Unsupported('register_import')
        r = Opq(REGNAME(env['fname'].t), 'CodeName')
        s.ghost = dict(s.ghost, registered=s.ghost['registered'] + (env['fname'].t,))
        yield s, r
def path_compare(ex, s, op, a, b):
    if op in ('in', 'notin') and isinstance(b, Ref) and b.cls == 'filesbyid' and isinstance(a, Opq): return INUSE(a.t) if op == 'in' else Not(INUSE(a.t))
    if isinstance(b, PathT): a, b = b, a
    if isinstance(a, PathT):
        if op in ('==', '!=') and b == '/capnp/c++.capnp' and not a.ops: return CPP(a.t) if op == '==' else Not(CPP(a.t))
        raise Unsupported('comparison of a path')
def line_is(t, sm, imp, standalone, pyx):
    "the line binds the module of import `imp` to its registered name"
    reg = REGNAME(ASID(DISPLAY(FILEOF(imp))))
    is_reg = lambda x: x[0] == 'code' and opq_is(x[1], reg)
    if sm is None or sm[0] != 'block' or len(sm[1]) != 1: return False
    x = sm[1][0]
    if standalone:
        if x[0] != 'import' or x[1][0] != 'text of': return False
        p = x[1][1]
        return And(is_reg(x[2]), isinstance(p, PathT) and set(p.ops) == {'no leading slashes', 'dots', 'no suffix'} and p.t == IMPNAME(imp))
    if x[0] != 'assign' or x[2][0] != 'call' or x[2][1] != ('attr', ('name', '__compiler'), 'load_schema') or x[2][2]: return False
    kw = dict(x[2][3])
    q = kw.pop('importname', None)
    if q is None or set(kw) != {'pyx'}: return False
    if q[0] == 'quoted': p = q[1].p[0].v if len(q[1].p) == 1 and q[1].p[0].conv == 's' else None
    else: p = q[1] if q[0] == 'v' else None
    v = kw['pyx']
    return And(is_reg(x[1]), isinstance(p, PathT) and not p.ops and p.t == IMPNAME(imp), v[0] == 'v' and isbool(v[1]) and zb(v[1]) == zb(pyx))
@loop(R_ + 'RequestedFile._declare_imports', 0, modes=('py',))
class EachImport(LoopSpec):
    "an iteration declares its own import, if the file is in use, and nothing else"
    def inv(self, ex, st0, st, k):
        g = st.ghost['c22imp']
        if 'iteration' not in g or zi(k).eq(zi(g['iteration'])): return
        imp = IMPAT(zi(g['iteration']))
        ls = st.heap[g['code'].id]['lines']
        wanted = And(INUSE(imp), Not(CPP(IMPNAME(imp))))
        yield 'one-line-if-needed', zb(wanted) == zb(len(ls) == 1)
        yield 'no-other-lines', len(ls) <= 1
        if ls: yield 'the-line', line_is(g['t'], sem(g['t'], ls[0], 'exec'), imp, g['standalone'], g['pyx'])
        yield 'registered', And(*[r == ASID(DISPLAY(FILEOF(imp))) for r in st.ghost['registered']])
        yield 'registered-if-declared', Z.Implies(wanted, zb(len(st.ghost['registered']) == 1))
    def havoc(self, ex, st0, st, k):
        g = st.ghost['c22imp']
        st.ghost = dict(st.ghost, c22imp=dict(g, iteration=k), registered=())
        st.heap[g['code'].id] = dict(lines=())
        return {('heap', g['code'].id, 'lines')}
@task(R_ + 'RequestedFile._declare_imports', ['C22'], modes=('py',))
def declare_imports(t):
    for standalone in (False, True):
        base_setup(t)
        t.ex.local['compare'] = path_compare
        t.ex.local[Register.key], t.ex.local[AsIdentifier.key] = Register(), AsIdentifier()
        st = t.st()
        pyx = freshb('pyx')
        m, lines = generator(t, st, allnodes=st.new('filesbyid'), standalone=standalone, pyx=pyx)
        code = st.heap[st.heap[m.id]['code'].id]['dv_code']
        st.ghost = dict(st.ghost, c22imp=dict(t=t, code=code, standalone=standalone, pyx=pyx), registered=())
        def first(s):
            "the first iterations, as they are"
            ls = list(lines(s))
            for i in range(4):
                imp = IMPAT(Z.IntVal(i))
                wanted = And(NIMP > i, INUSE(imp), Not(CPP(IMPNAME(imp))))
                if valid(t, s, Not(wanted)): continue
                yield 'import-%d' % i, Z.Implies(wanted, zb(line_is(t, sem(t, ls.pop(0), 'exec'), imp, standalone, pyx) if ls else False))
            yield 'no-other-lines', not ls
            yield 'registered', zb(len(s.ghost['registered']) >= len(lines(s)))
        t.expect(t.run(st, [Opq(fresho('file'), 'RequestedFile'), m]), ret=lambda s, v: first(s) if 'iteration' not in s.ghost['c22imp'] else [('every-import-visited', zi(s.ghost['c22imp']['iteration']) == Z.If(NIMP > 0, NIMP, 0)), ('nothing-after', len(lines(s)) == 0)])

# ---- the name of a node in its scope
ISF, PFX, AFTER = ufn('NODE_IS_FILE', OV, BOOL), ufn('PREFIX_LENGTH', OV, INT), ufn('NAME_FROM', OV, INT, OV)
BM.OATTR['ShortNode', 'displayName'] = lambda ex, s, o: iter([(s, DispName(DISPLAY(o.t)))])
class DispName(object):
    dv_parts = dv_symbolic = True
    def __init__(self, t): self.t, self.cls = t, 'bytes name'
    def slice(self, lo, hi):
        if hi is not None or not isint(lo): raise Unsupported('part of a name %r %r' % (lo, hi))
        return Opq(AFTER(self.t, zi(lo)), 'bytes name')
BM.OATTR['ShortNode', 'displayNamePrefixLength'] = lambda ex, s, o: iter([(s, PFX(o.t))])
BM.OATTR['ShortNode', 'dv_classes'] = ('capnpy.compiler.node:Node',)
method_of('ShortNode', 'is_file', lambda ex, s, args, kw: iter([(s, ISF(args[0].t))]))
BM.INDEX['importtable'] = lambda ex, s, o, i: iter([(s, Opq(REGNAME(i.t), 'CodeName'))])
class AsIdentifier2(AsIdentifier):
    def apply(self, ex, s, env):
        x, = env.values()
        if not isinstance(x, (Opq, DispName)): raise Unsupported('as_identifier')
        yield s, Opq(ASID(x.t), 'CodeName')
@task(N_ + 'Node.shortname', ['C22'], modes=('py',))
def shortname(t):
    base_setup(t)
    t.ex.local[AsIdentifier.key] = AsIdentifier2()
    st = t.st()
    m, lines = generator(t, st, importnames=st.new('importtable'))
    n = fresho('node')
    t.expect(t.run(st, [Opq(n, 'ShortNode'), m]), ret=lambda s, v: [('name', Z.If(ISF(n), opq_is(v, REGNAME(ASID(DISPLAY(n)))), opq_is(v, ASID(AFTER(DISPLAY(n), PFX(n))))))])

# ---- the reflection data
@task(R_ + 'RequestedFile._emit_reflection_data', ['C22'], modes=('py',))
def reflection_data(t):
    "`_reflection_data.request` is the request the constants were read from: same class, whole segment"
    base_setup(t)
    st = t.st()
    req, opts, modname = fresho('request'), fresho('default_options'), name_of(st, 'modname')
    pyx = freshb('pyx')
    class DeclareConst(Contract):
        "discharged above"
        key = M_ + 'ModuleGenerator.declare_const'
        def apply(self, ex, s, env):
            if env['segment'] is not None: raise Unsupported('segment')
            yield s, Code('const', clsname=env['clsname'], s=env['s'], seg=None)
    t.ex.local[DeclareConst.key] = DeclareConst()
    m, lines = generator(t, st, modname=modname, pyx=pyx, request=Opq(req, 'ConstStruct'), default_options=Opq(opts, 'ConstStruct'))
    def ret(s, v):
        sm = sem(t, text_of_lines(lines(s)), 'exec')
        yield 'is-Python', sm is not None
        if sm is None: return
        yield 'block', sm[0] == 'block'
        env, classes, bound_ = {}, {}, None
        for x in sm[1]:
            if x[0] == 'from':
                for a, b in x[2]: env[b] = (x[1], a)
            elif x[0] == 'class': classes[x[1]] = x
            elif x[0] == 'assign': bound_ = x
            else: yield 'statement', False
        yield 'reflection-data', bound_ is not None and bound_[1] == ('name', '_reflection_data') and bound_[2][0] == 'call' and bound_[2][1] in classes and not bound_[2][2] and not bound_[2][3]
        c = classes.get(bound_[2][1]) if bound_ is not None and bound_[2][0] == 'call' else None
        if c is None: return
        yield 'base', [env.get(b[1]) for b in c[2]] == [('capnpy.reflection', 'ReflectionData')]
        d = dict((b[1][1], b[2]) for b in c[3] if b[0] == 'assign' and b[1][0] == 'name')
        yield 'members', {'request', 'default_options', 'pyx'} <= set(d)
        for n, cl, term in (('request', ('capnpy.schema', 'CodeGeneratorRequest'), req), ('default_options', ('capnpy.annotate', 'Options'), opts)):
            x = d.get(n)
            ok = x is not None and x[0] == 'code' and isinstance(x[1], Code) and x[1].kind == 'const'
            yield n, And(ok, opq_is(x[1].s, term) if ok else False, ok and env.get(x[1].clsname) == cl)
        p = d.get('pyx')
        yield 'pyx', p is not None and p[0] == 'v' and isbool(p[1]) and zb(p[1]) == zb(pyx)
    t.expect(t.run(st, [Opq(fresho('file'), 'RequestedFile'), m]), ret=ret)

# ---- the whole module: what is written in which order
NCH, NDEL, CHILDAT, DELAT = Z.Int('NCHILDREN'), Z.Int('NDELAYED'), ufn('CHILD', INT, OV), ufn('DELAYED', INT, OV)
PHASES = ('declared', 'defined', 'delayed', 'referenced')
def names_bound(s, lines):
    "name -> (module, name there), as the lines written so far bind them"
    out = {}
    for l in lines:
        l = l if isinstance(l, str) else ''.join(p if isinstance(p, str) else '?' for p in l.p)
        k = re.match(r'from (\S+) c?import (.*)$', l.strip())
        if k:
            for part in k.group(2).split(','):
                a = part.strip().split(' as ')
                out[a[-1].strip()] = (k.group(1), a[0].strip())
    return out
def step(phase, at):
    def f(ex, s, args, kw):
        g = s.ghost['emit']
        n = g[phase]
        ex.ob('%s/in-order' % phase, s, args[0].t == at(zi(n)))
        if phase == 'defined':
            ex.ob('defined/after-all-declarations', s, zi(g['declared']) == NCH)
            ex.ob('defined/after-the-imports', s, g['imports'])
            ex.ob('defined/after-the-reflection-data', s, Z.Implies(zb(g['refl']), zb(g['reflected'])))
        if phase in ('delayed', 'referenced'): ex.ob('%s/after-all-definitions' % phase, s, zi(g['defined']) == NCH)
        if phase == 'delayed':
            ex.ob('delayed/magic_setattr-is-known', s, names_bound(s, g['lines'](s)).get('_magic_setattr') == ('capnpy.util', 'magic_setattr'))
            rest = dict(zip(('delayed',), args[2:]), **kw)
            ex.ob('delayed/mode', s, zb(rest.get('delayed', False)))
        s.ghost = dict(s.ghost, emit=dict(g, **{phase: simp(zi(n) + 1)}))
        yield s, None
    return f
for _n, _p in (('emit_declaration', 'declared'), ('emit_definition', 'defined'), ('emit_reference_as_child', 'referenced')): method_of('EmittedChild', _n, step(_p, CHILDAT))
method_of('DelayedConst', 'emit_reference_as_child', step('delayed', DELAT))
BM.ITER['EmittedChildren'] = lambda ex, s, o: iter([(s, (NCH, lambda s2, i: Opq(CHILDAT(zi(i)), 'EmittedChild')))])
class Phases(LoopSpec):
    "each loop advances one of the counters, with its iterations"
    def inv(self, ex, st0, st, k): return ()
    def cands(self, ex, st0, st, k):
        for p in PHASES:
            a, b = zi(st.ghost['emit'][p]), zi(st0.ghost['emit'][p])
            yield p + '-unchanged', a == b
            yield p + '-counts', a == b + zi(k)
    def havoc(self, ex, st0, st, k): st.ghost = dict(st.ghost, emit=dict(st.ghost['emit'], **{p: fresh(p) for p in PHASES}))
for _i in range(8): loop(R_ + 'RequestedFile.emit', _i, modes=('py',))(Phases)
chain('EmitFile', 'id', 'file id')
method_of('EmitFile', 'is_file', lambda ex, s, args, kw: iter([(s, True)]))
BM.INDEX['emitfiles'] = lambda ex, s, o, i: iter([(s, Opq(i.t, 'EmitFile'))])
def _childrenof(ex, s, o, i):
    ex.ob('children/of-the-file', s, opq_is(i, s.ghost['emit']['file']))
    yield s, Opq(Z.Const('CHILDREN', OV), 'EmittedChildren')
BM.INDEX['childrenbyid'] = _childrenof
BM.OATTR['EmitRequestedFile', 'id'] = lambda ex, s, o: iter([(s, Opq(s.ghost['emit']['file'], 'file id'))])
chain('EmitRequestedFile', 'filename', 'bytes name')
BM.OATTR['EmitRequestedFile', 'dv_classes'] = ('capnpy.compiler.request:RequestedFile',)
def phase_done(name):
    def f(ex, s, args, kw):
        s.ghost = dict(s.ghost, emit=dict(s.ghost['emit'], **{name: True}))
        yield s, None
    return f
method_of('EmitRequestedFile', '_declare_imports', phase_done('imports')); method_of('EmitRequestedFile', '_emit_reflection_data', phase_done('reflected'))
method_of('datetime', 'now', lambda ex, s, args, kw: iter([(s, args[0])])); method_of('datetime', 'strftime', lambda ex, s, args, kw: iter([(s, 'today')]))
TYPES = Opq(Z.Const('Types', OV), 'Types')
for _k in KINDS[:14]: BM.OATTR['Types', _k] = lambda ex, s, o, _k=_k: iter([(s, Opq(Z.Const('Types.' + _k, OV), 'Type.' + _k))])
for _k in KINDS[:14]: BM.OATTR['Type.' + _k, 'name'] = lambda ex, s, o, _k=_k: iter([(s, _k)])
BM.OATTR['Types', '__all__'] = lambda ex, s, o: iter([(s, Tup([Opq(Z.Const('Types.' + _k, OV), 'Type.' + _k) for _k in KINDS[:14]]))])
class AsIdentifier3(AsIdentifier):
    def apply(self, ex, s, env):
        x, = env.values()
        yield s, Opq(ASID(x.t), 'FileName')
BM.ATTR['scope', 'global_scope'] = lambda ex, s, o: iter([(s, o)])
BM.ATTR['scope', '__dict__'] = lambda ex, s, o: iter([(s, s.new('scopedict', scope=o))])
def _setscope(ex, s, o, i, v):
    sc = s.heap[o.id]['scope']
    s.heap[sc.id] = dict(s.heap[sc.id], **{i: v})
BM.SETINDEX['scopedict'] = _setscope
NEEDED = [('_Segment', 'capnpy.segment.segment'), ('_MultiSegment', 'capnpy.segment.segment'), ('_List', 'capnpy.list'), ('_Types', 'capnpy.type')] + [('_%sItemType' % k, 'capnpy.list') for k in 'Primitive Bool Text TextUnicode Struct Enum Void List'.split()]
PREBUILT = ['%s_list_item_type' % k for k in KINDS[:12] + ['text_bytes', 'text_unicode', 'data']]
def type_compare(ex, s, op, a, b):
    if all(isinstance(x, Opq) and str(x.cls).startswith('Type.') for x in (a, b)) and op in ('is', 'isnot', '==', '!='): return (a.cls == b.cls) == (op in ('is', '=='))
def emit_task(pyx, standalone):
    @task(R_ + 'RequestedFile.emit', ['C22'], modes=('py',), name=R_ + 'RequestedFile.emit[%s,%s]' % ('compiled' if pyx else 'pure Python', 'standalone' if standalone else 'loaded'))
    def run(t):
        base_setup(t)
        t.ex.local[AsIdentifier.key] = AsIdentifier3()
        BM.VALUES['datetime'] = dict(datetime=Opq(Z.Const('datetime', OV), 'datetime'))
        BM.VALUES.setdefault('six', {})['PY3'] = True
        BM.VALUES.setdefault('capnpy.type', {})['Types'] = TYPES
        t.ex.local['compare'] = type_compare
        BM.VALUES['capnpy'] = dict(__version__='VERSION')
        st = t.st()
        fid = fresho('file_id')
        late = st.new('list', L=G.Lst(NDEL, lambda s, i: Opq(DELAT(zi(i)), 'DelayedConst')))
        st.pc += [NCH >= 0, NDEL >= 0]
        refl, check = freshb('include_reflection_data'), freshb('version_check')
        BM.OATTR['EmitOptions', 'include_reflection_data'] = lambda ex, s, o: iter([(s, refl)])
        BM.OATTR['EmitOptions', 'version_check'] = lambda ex, s, o: iter([(s, check)])
        class Options(Contract):
            key = M_ + 'ModuleGenerator.options'
            def apply(self, ex, s, env):
                ex.ob('options/pre/of-the-file', s, opq_is(env['node_or_field'], fid))
                yield s, Opq(fresho('options'), 'EmitOptions')
        t.ex.local[Options.key] = Options()
        m, lines = generator(t, st, allnodes=st.new('emitfiles'), children=st.new('childrenbyid'), delayed_consts=late, pyx=pyx, standalone=standalone, capnproto_version='1.0')
        st.ghost = dict(st.ghost, emit=dict({p: 0 for p in PHASES}, file=fid, imports=False, reflected=False, refl=refl, lines=lines))
        def ret(s, v):
            g = s.ghost['emit']
            for p in PHASES: yield 'all-' + p, zi(g[p]) == (NDEL if p == 'delayed' else NCH)
            yield 'imports', g['imports']
            yield 'reflection-data', zb(g['reflected']) == refl
            b = names_bound(s, lines(s))
            for n, mod in NEEDED: yield 'binds-' + n, b.get(n) == (mod, n[1:])
            if pyx: yield 'binds-prebuilt-item-types', all(b.get('_' + n) == ('capnpy.list', n) for n in PREBUILT)
            if pyx and not standalone or not standalone: pass
        t.expect(t.run(st, [Opq(fresho('requested'), 'EmitRequestedFile'), m]), ret=ret)
for _p in (False, True):
    for _s in (False, True): emit_task(_p, _s)
