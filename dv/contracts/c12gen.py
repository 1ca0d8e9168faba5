"""C12 / C13 for the members of every schema: what Structor.handle_node writes for a member whose offset, default value, union tag and discriminant offset are unknown, as
c11gen.py does for the accessors.  The lines are read as the body of a function of the builder, the argument and the current tag; it is proved, in both modes, to store what
the getter reads back, at the place the schema gives the member, and to leave every other byte and bit alone.
Assumed: as in c11gen.py.  The frame of the constructor (the allocation, the order of the members, groups, nullable groups) is that of the corpus (c12.py)."""
from vc import *
from contracts.common import *
from contracts.c04 import COPYEXC
from contracts.c10 import mkmsg
from contracts import c12 as C12, gencode as GC
from contracts.gencode import KIND, SIZE_OF
from contracts import c11gen as A
ST_ = 'capnpy.compiler.structor:Structor'
class Goals(C12.Goals):
    def use(self, lo, n): pass
def call_for(ds, ps, disc):
    def call(t1, s, m, f, lines):
        A_ = s.new('Union', varname='anonymous', offset=simp(2 * disc))
        tree = s.new('FieldTree', union=A_, children=())
        node = s.new('Node', f=Opq(f.t, 'GField'), varname=Opq(A.NAMEOF(f.t), 'CodeName'), parent=tree, union=None, children=())
        me = s.new('Structor', m=m, fieldtree=tree, data_size=ds, ptrs_size=ps)
        c = s.heap[s.heap[m.id]['code'].id]['dv_code']
        h = s.heap[c.id]
        n = A.as_text(A.CT([A.PH(Opq(A.NAMEOF(f.t), 'CodeName'), 's')]))
        s.heap[c.id] = dict(h, lines=h['lines'] + (('begin', f),))
        for s2, v in t1.run(s, [me, node], key=ST_ + '.handle_node'): yield s2, v
    return call
def over(t, f, v):
    if f.kind == 'enum' or isint(v):
        lo, hi = krange('h' if f.kind == 'enum' else KIND[f.kind])
        return Or(zi(v) < lo, zi(v) > hi)
    if f.kind == 'float32' and (not (type(f.default) is int and f.default == 0) or not t.pyx): return Not(ufn('fits_float', FV, BOOL)(v))
    return Z.BoolVal(False)
def arg(t, st, f):
    k = f.kind
    if k == 'void': return None, C12.Arg(f, None)
    if k == 'bool': v = freshb('f'); return v, C12.Arg(f, v)
    if k.startswith('float'): v = freshf('f'); return v, C12.Arg(f, v)
    if k == 'enum' or k in A.SIGNED or k in A.UNSIGNED: v = fresh('f'); return v, C12.Arg(f, v)
    none = freshb('none')
    if k in ('text', 'data'):
        n = fresh('len')
        st.pc.append(And(n >= 0, n < 1 << 28))
        q = Seq(n, Store(n, 'arg'))
        if k == 'text' and GC.mod_of(t).endswith('_u'):
            u = Opq(fresho('unicode'), 'str')
            u.utf8 = q
            v = Opt(none, None, u)
        else: v = Opt(none, None, q)
        return v, C12.Arg(f, v, none=none, q=q)
    if k == 'struct':
        seg, b = mkmsg(t, st, False)
        r = st.new('DvSub', _seg=seg)
        v = Opt(none, None, r)
        return v, C12.Arg(f, v, none=none, r=r)
    if k == 'list':
        l = SymTup(fresh('count'), lambda s, i: None)
        v = Opt(none, None, l)
        return v, C12.Arg(f, v, none=none, l=l)
    raise Unsupported(k)
def place(f, ds, ps, disc):
    "(first byte, size) of the member in the body, and the facts that make the place a valid one"
    k = f.kind
    if k == 'void': return 0, 0, []
    if k == 'bool': return f.offset.q, 1, [f.offset.q >= 0, f.offset.q < 8 * ds]
    if k in A.PTRS: return simp(8 * ds + 8 * f.offset), 8, [f.offset < ps]
    n = SIZE_OF['h' if k == 'enum' else KIND[k]]
    return simp(n * f.offset), n, [n * f.offset + n <= 8 * ds]
def write_task(k, tt):
    v = 'any' + ('_u' if tt == 'unicode' else '')
    @task(ST_ + '.handle_node', ['C12', 'C13'], variants=('%s:%s' % (v, k),), name='any-schema:' + ST_ + '.handle_node', weight=6)
    def run(t):
        ms, pcs = A.members(k)
        ds, ps, disc = fresh('data_size'), fresh('ptrs_size'), fresh('discriminantOffset')
        pcs += [And(ds >= 0, ds < 1 << 16, ps >= 0, ps < 1 << 16, disc >= 0, disc < 1 << 16)]
        for f in ms:
            if f.in_union: pcs.append(2 * disc + 2 <= 8 * ds)
            lo, n, valid = place(f, ds, ps, disc)
            pcs += valid
            if f.in_union and n: pcs.append(Or(zi(lo) + n <= 2 * disc, zi(lo) >= 2 * disc + 2))
        for facts, lines in A.stage1(t, k, ms, pcs, tt, call=call_for(ds, ps, disc)):
            txt = A.Text(ms, facts, t)
            body = []
            for l in lines:
                if isinstance(l, tuple) and l[0] == 'begin':
                    body += ['    return _curtag'] * bool(body) + ['def write_%s(%s_builder, %s_pos, %s%s, %s_curtag):' % (l[1].name, '_SegmentBuilder ' * t.pyx, 'long ' * t.pyx, 'object ' * t.pyx, l[1].name, 'object ' * t.pyx)]
                else: body += ['    ' + txt.lines([l])[0]]
            body.append('    return _curtag')
            m = A.module(t, v, ['pass'], txt.number(2 * disc, False), txt, more=body)
            t.ex.ob('generated/is-code', St(), m is not None)
            if m is None: continue
            t.w.mods['gen.dvany'] = m
            S = A.FakeSchema()
            c = A.N__(S=S, name='DvC', node=A.N__(union=[f for f in ms if f.in_union], disc_off=disc, fields=ms, name='DvC', ds=ds, ps=ps))
            t.gen = m
            for f in ms:
                for cur in ((None, b'other') if f.in_union else (None,)):
                    t.ex.where = t.where + '/' + f.name + ('/second' if cur else '')
                    member(t, c, m, f, cur, facts, ds, ps, disc)
    run
def member(t, c, m, f, cur, facts, ds, ps, disc):
    st = t.st()
    st.pc += facts
    b, e = mkbuilder(t, st, aligned=True)
    st.pc.append(e >= 8 * (ds + ps))
    t.w.module('capnpy.struct_')
    v, a = arg(t, st, f)
    if f.in_union:
        given = freshb('given')
        v = Opt(Not(given), C12.UNDEF(), v)
        a.v = v
    else: given = Z.BoolVal(True)
    a.given = given
    old = bstore(st, b)
    lo, n, _ = place(f, ds, ps, disc)
    if f.kind == 'bool': st.pc.append((zi(old.at(zi(lo))) / (1 << f.offset.r)) % 2 == 0)      # the body is fresh
    outs = list(t.ex.call_func(m.funcs['write_' + f.name], st, [b, 0, v, cur], {}, inline=True))
    ov = And(given, over(t, f, C12.base_value(a)))
    conflict = And(given, cur is not None)
    def ret(s, r):
        yield 'rejected/out-of-range', Not(ov)
        known = True if not f.in_union else True if t.ex.known(s, given) else False if t.ex.known(s, Not(given)) else None
        if known is None: raise Unsupported('a member that may be given')
        x, now = fresh('x'), bstore(s, b)
        mine = []
        if known:
            if f.in_union:
                yield 'tag', zi(now.dec(t.ex, s, 'H', simp(2 * disc))) == f.tag
                yield 'noted', r is not None
                mine.append(And(x >= 2 * disc, x < 2 * disc + 2))
            g = Goals(t, s, c, now, b)
            g.bits = {}
            for y in g.field(c, a): yield y
            if n: mine.append(And(x >= zi(lo), x < zi(lo) + n))
            if f.kind == 'bool':
                for k in range(8):
                    if k != f.offset.r: yield 'other-bit-%d' % k, (zi(now.at(zi(lo))) / (1 << k)) % 2 == (zi(old.at(zi(lo))) / (1 << k)) % 2
        else: yield 'no-tag', r is cur or r == cur
        yield 'other-bytes', Implies(And(x >= 0, x < zi(e), *[Not(y) for y in mine]), now.at(x) == old.at(x))
        yield 'end', zi(bend(s, b)) >= zi(e)
        for y in binv(t, s, b): yield y
    t.expect(outs, raises=[(conflict, ('TypeError',))] if f.in_union else [],
        maybe=[(ov, ('OverflowError', 'struct.error')), (True, C12.LISTEXC if f.kind == 'list' else COPYEXC if f.kind == 'struct' else ()), (GC.mod_of(t).endswith('_u'), ('UnicodeEncodeError',))], ret=ret)
for _k in A.KINDS:
    if _k in ('interface', 'anyPointer'): continue
    write_task(_k, 'bytes')
    if _k == 'text': write_task(_k, 'unicode')

# ---- the constructor of a struct with one member, of any size: Node__Struct._emit_ctors, _emit_init and Structor.emit
def deffs(kind):
    def f(ex, s, args, kw):
        o, name, params = args
        c = s.heap[o.id]['dv_code']
        pyx = s.heap[c.id]['pyx']
        parts = []
        for v in params.xs:
            nm, d = v.xs if isinstance(v, Tup) else (v, None)
            parts += [', '] * bool(parts) + ['object '] * pyx + [A.as_text(nm)] + ([] if d is None else ['=', A.as_text(d)])
        kw2 = dict(funcname=name, paramlist=A.CT([A.as_text(x) for x in parts]), cpdef={'cdef': 'cdef' if pyx else 'def', 'cpdef': 'cpdef' if pyx else 'def', 'def': 'def'}[kind])
        return A._block(ex, s, [o, '{cpdef} {funcname}({paramlist}):'], kw2)
    return f
def cdef_var(ex, s, args, kw):
    o = args[0]
    if len(args) != 3: raise Unsupported('cdef_var')
    if s.heap[s.heap[o.id]['dv_code'].id]['pyx']: A.emit(s, o, 'cdef %s %s' % (args[1], args[2]))
    yield s, None
def arglist(vs):
    parts = []
    for v in vs.xs: parts += [', '] * bool(parts) + [A.as_text(v)]
    return A.CT([A.as_text(x) for x in parts])
def call_(ex, s, args, kw):
    yield s, A.CT([A.as_text(args[1]), '(', arglist(args[2]), ')'])
for _n, _f in (('cdef_', deffs('cdef')), ('def_', deffs('def')), ('cpdef_', deffs('cpdef')), ('cdef_var', cdef_var), ('call', call_), ('args', lambda ex, s, args, kw: iter([(s, arglist(args[1], s))]))):
    BM.ATTR['scope', _n] = lambda ex, s, o, _n=_n: iter([(s, Builtin('scope.' + _n, o))])
    BM.CALLS['scope.' + _n] = _f
FT = 'capnpy.compiler.fieldtree:'; NS = 'capnpy.compiler.struct_:Node__Struct'
class AllNodes(Contract):
    key = FT + 'AbstractNode.allnodes'
    def apply(self, ex, s, env): yield s, s.heap[env['self'].id]['children']
class NoUnionCtors(Contract):
    key = NS + '._emit_ctors_union'
    def apply(self, ex, s, env): yield s, None
class TreeOfOne(Contract):
    "Structor.__init__ for a struct of one member: the tree of its fields"
    key = ST_ + '.__init__'
    def __init__(self, f, ds, ps, disc): self.f, self.ds, self.ps, self.disc = f, ds, ps, disc
    def apply(self, ex, s, env):
        f, me, m = self.f, env['self'], env['m']
        u = s.new('Union', varname='anonymous', offset=simp(2 * self.disc)) if f.in_union else None
        tree = s.new('FieldTree', union=u)
        name = Opq(A.NAMEOF(f.t), 'CodeName')
        node = s.new('Node', parent=tree, union=None, children=Tup([]), f=Opq(f.t, 'GField'), varname=name, force_default=None)
        for s2, d in ex.call_func(ex.w.module('capnpy.compiler.fieldtree').classes['Node'].methods['_get_default'], s, [node, m], {}, inline=True):
            if isinstance(d, Exc):
                yield s2, d
                continue
            s2.heap[tree.id] = dict(s2.heap[tree.id], children=Tup([node]))
            s2.heap[me.id] = dict(s2.heap[me.id], m=m, fieldtree=tree, data_size=self.ds, ptrs_size=self.ps, argnames=Tup([name]), params=Tup([Tup([name, d])]))
            yield s2, None
CN = ufn('NODE_NAME', OV, OV)
def ctor_call(ds, ps, disc):
    def call(t1, s, m, f, lines):
        O = BM.OATTR
        O['GNode', 'dv_classes'] = (NS, 'capnpy.compiler.node:Node')
        A.chain('GNode', 'struct', 'GStruct')
        O['GStruct', 'isGroup'] = lambda ex, s, o: iter([(s, False)])
        O['GStruct', 'dataWordCount'] = lambda ex, s, o: iter([(s, ds)])
        O['GStruct', 'pointerCount'] = lambda ex, s, o: iter([(s, ps)])
        O['GStruct', 'fields'] = lambda ex, s, o: iter([(s, None)])
        A.method_of('GNode', 'compile_name', lambda ex, s, args, kw: iter([(s, Opq(CN(args[0].t), 'CodeName'))]))
        t1.w.module('capnpy.compiler.structor'); t1.w.module('capnpy.compiler.fieldtree')
        for c in (AllNodes(), NoUnionCtors(), TreeOfOne(f, ds, ps, disc)): t1.ex.local[c.key] = c
        c = s.heap[s.heap[m.id]['code'].id]['dv_code']
        s.heap[c.id] = dict(s.heap[c.id], lines=s.heap[c.id]['lines'] + (('begin', f),), pyx=t1.gen_pyx)
        return t1.run(s, [Opq(f.t, 'GNode'), m], key=NS + '._emit_ctors')
    return call
def ctor_task(k, tt):
    v = 'any' + ('_u' if tt == 'unicode' else '')
    @task(NS + '._emit_ctors', ['C12', 'C13'], variants=('%s:%s' % (v, k),), name='any-schema:' + NS + '._emit_ctors', weight=6)
    def run(t):
        ms, pcs = A.members(k)
        ds, ps, disc = fresh('data_size'), fresh('ptrs_size'), fresh('discriminantOffset')
        pcs += [And(ds >= 0, ds < 1 << 16, ps >= 0, ps < 1 << 16, disc >= 0, disc < 1 << 16)]
        if k == 'bool': ms = [f for f in ms if f.offset.r in (0, 5) or f.offset.r == 7]
        for f in ms:
            if f.in_union: pcs.append(2 * disc + 2 <= 8 * ds)
            lo, n, valid = place(f, ds, ps, disc)
            pcs += valid
            if f.in_union and n: pcs.append(Or(zi(lo) + n <= 2 * disc, zi(lo) >= 2 * disc + 2))
        for facts, lines in A.stage1(t, k, ms, pcs, tt, call=ctor_call(ds, ps, disc)):
            txt = A.Text(ms, facts, t)
            for f in ms: txt.names.append((CN(f.t), 'Dv' + f.name))
            body = []
            for l in lines:
                if isinstance(l, tuple) and l[0] == 'begin': body.append('%s Dv%s(_Struct):' % ('cdef class' if t.pyx else 'class', l[1].name))
                else: body += ['    ' + txt.lines([l])[0]]
            m = A.module(t, v, ['pass'], txt.number(2 * disc, False), txt, more=body)
            t.ex.ob('generated/is-code', St(), m is not None)
            if m is None: continue
            t.w.mods['gen.dvany'] = m
            t.gen = m
            for f in ms:
                c = A.N__(S=A.FakeSchema(), name='Dv' + f.name, node=A.N__(union=[f] if f.in_union else [], disc_off=disc, fields=[f], name='Dv' + f.name, ds=ds, ps=ps))
                for how in ('given', 'absent'):
                    if how == 'absent' and k.startswith('float') and not f.in_union and type(f.default) is not int: continue      # the text of a float default: the corpus
                    t.ex.where = t.where + '/' + f.name + '/' + how
                    build(t, c, m, f, how, facts, ds, ps, disc)
    run
def build(t, c, m, f, how, facts, ds, ps, disc):
    st = t.st()
    st.pc += facts
    t.w.module('capnpy.struct_')
    args = {}
    if how == 'given' and (f.in_union or f.kind != 'void'):
        v, a = arg(t, st, f)
        if f.in_union:
            a.given = freshb('given')
            v = Opt(Not(a.given), C12.UNDEF(), v)
            a.v = v
        else: a.given = Z.BoolVal(True)
        args[f.name] = a
    if f.kind == 'void' and not f.in_union: return
    outs = list(BM.construct(t.ex, ClsV(c.name, m.classes[c.name]), st, [], {n: a.v for n, a in args.items()}))
    lo, n, _ = place(f, ds, ps, disc)
    ov = Or(*[And(a.given, over(t, f, C12.base_value(a))) for a in args.values()])
    def ret(s, r):
        yield 'rejected/out-of-range', Not(ov)
        yield 'class', isinstance(r, Ref) and r.cls == c.name
        if not isinstance(r, Ref): return
        h = s.heap[r.id]
        yield 'at-the-start', And(zi(h['_data_offset']) == 0, zi(h['_data_size']) == ds, zi(h['_ptrs_size']) == ps, zi(h['_ptrs_offset']) == 8 * ds)
        q = s.get(h['_seg'], 'buf')
        bs = [Ref('SegmentBuilder', i) for i, x in s.heap.items() if x.get('__class__') == 'SegmentBuilder' or C12.builder_like(x)]
        if len(bs) != 1: raise Unsupported('%d builders' % len(bs))
        b = bs[0]
        yield 'whole-message', zi(q.len) == zi(bend(s, b))
        yield 'content', same_bytes(s, q.store, bstore(s, b), 0, q.len)
        g = Goals(t, s, c, q.store, b)
        g.bits = {}
        if args: 
            for y in g.fields(c, args): yield y
        x, mine = fresh('x'), []
        if args and f.in_union: mine.append(And(x >= 2 * disc, x < 2 * disc + 2))
        if args and g.given(args[f.name]):
            if n: mine.append(And(x >= zi(lo), x < zi(lo) + n))
            if f.kind == 'bool':
                for i in range(8):
                    if i != f.offset.r: yield 'unused-bit-%d' % i, (zi(q.store.at(zi(lo))) / (1 << i)) % 2 == 0
        yield 'unused-bytes', Implies(And(x >= 0, x < 8 * (ds + ps), *[Not(y) for y in mine]), q.store.at(x) == 0)
        yield 'body', zi(q.len) >= 8 * (ds + ps)
    t.expect(outs, maybe=[(ov, ('OverflowError', 'struct.error')), (True, C12.LISTEXC if f.kind == 'list' else COPYEXC if f.kind == 'struct' else ()), (GC.mod_of(t).endswith('_u'), ('UnicodeEncodeError',))], ret=ret)
for _k in A.KINDS:
    if _k in ('interface', 'anyPointer'): continue
    ctor_task(_k, 'bytes')
    if _k == 'text': ctor_task(_k, 'unicode')

# ---- the constructors of a struct with a union: Node__Struct._emit_ctors, _emit_ctors_union and _emit_one_ctor_union, Structor.__init__, the whole of fieldtree.py
def _namedtuple(ex, s, args, kw):
    n, fs = args
    yield s, Opq(Z.Const('namedtuple_' + n, OV), 'NamedTuple:' + n)
    BM.OCALL['NamedTuple:' + n] = lambda ex, s, fv, a, k: iter([(s, s.new(n, **dict(zip([x for x in fs.xs], a), **k)))])
BM.CALLS['collections.namedtuple'] = _namedtuple
BM.MODELLED['collections', 'namedtuple'] = 1
def as_tup(s, v): return Tup([s.get(v, 'L').item(s, i) for i in range(conc(s.get(v, 'L').n))]) if isinstance(v, Ref) else v
class Leaves(Contract):
    "the nodes of a tree without groups: its children"
    key = FT + 'AbstractNode.allnodes'
    def apply(self, ex, s, env): yield s, as_tup(s, s.heap[env['self'].id]['children'])
class ArgsParams(Contract):
    "get_args_and_params itself, its lists as tuples"
    key = FT + 'FieldTree.get_args_and_params'
    def apply(self, ex, s, env):
        f = ex.w.module('capnpy.compiler.fieldtree').classes['FieldTree'].methods['get_args_and_params']
        for s2, v in ex.call_func(f, s, [env['self']], {}, inline=True): yield s2, (v if isinstance(v, Exc) else Tup([as_tup(s2, x) for x in v.xs]))
def distinct_names(ex, s, args, kw):
    v = as_tup(s, args[0])
    if not all(isinstance(x, Opq) and x.cls == 'CodeName' for x in v.xs): raise Unsupported('set')
    yield s, v          # the members of a struct have different names
def arglist(vs, s=None):
    if s is not None: vs = as_tup(s, vs)
    parts = []
    for v in vs.xs: parts += [', '] * bool(parts) + ([A.as_text(v)] if not isinstance(v, Tup) else [A.as_text(v.xs[0]), '=', A.as_text(v.xs[1])])
    return A.CT([A.as_text(x) for x in parts])
def call_(ex, s, args, kw):
    yield s, A.CT([A.as_text(args[1]), '(', arglist(args[2], s), ')'])
BM.CALLS['scope.call'] = call_
def defs_of(kind):
    g = deffs(kind)
    return lambda ex, s, args, kw: g(ex, s, [args[0], args[1], as_tup(s, args[2])], kw)
for _n, _k in (('cdef_', 'cdef'), ('def_', 'def'), ('cpdef_', 'cpdef')): BM.CALLS['scope.' + _n] = defs_of(_k)
def three(k, order):
    "a member outside of the union and two of the union, of the kind k all or but one"
    ms, pcs = [], []
    for n, kk, r in (('x', k, 0), ('u', 'int16', 3), ('v', k, 5)):
        off = fresh('offset')
        pcs.append(And(off >= 0, off < 1 << 16))
        f = A.F_(t=fresho('field_' + n), name=n, type=A.ty_of(kk), kind=kk, in_union=n != 'x', tag=fresh('tag') if n != 'x' else None, default=0, raw=off, offset=off)
        if n != 'x': pcs.append(And(f.tag >= 0, f.tag < 1 << 15))
        if kk == 'bool': f.offset, f.raw = A.BoolOff(off, r), 8 * off + r
        if n == 'x' and kk in A.UNSIGNED:
            f.default = fresh('default')
            pcs.append(And(f.default > 0, f.default < 1 << A.UNSIGNED[kk]))
        ms.append(f)
    pcs.append(Z.Distinct(*[f.t for f in ms]))
    pcs.append(Z.Distinct(*[A.NAMEOF(f.t) for f in ms]))
    return [ms[i] for i in order], pcs
def union_call(ds, ps, disc, ms):
    def start(t1, s, m, f, lines):
        if f is not ms[0]: return [(s, None)]
        O = BM.OATTR
        O['GNode', 'dv_classes'] = (NS, 'capnpy.compiler.node:Node')
        A.chain('GNode', 'struct', 'GStruct')
        O['GStruct', 'isGroup'] = lambda ex, s, o: iter([(s, False)])
        O['GStruct', 'dataWordCount'] = lambda ex, s, o: iter([(s, ds)])
        O['GStruct', 'pointerCount'] = lambda ex, s, o: iter([(s, ps)])
        O['GStruct', 'fields'] = lambda ex, s, o: iter([(s, None)])
        O['GStruct', 'discriminantOffset'] = lambda ex, s, o: iter([(s, disc)])
        O['GStruct', '__bool__'] = O['GField', '__bool__'] = True
        A.method_of('GStruct', 'is_union', lambda ex, s, args, kw: iter([(s, True)]))
        A.method_of('GNode', 'compile_name', lambda ex, s, args, kw: iter([(s, Opq(CN(args[0].t), 'CodeName'))]))
        A.method_of('GNode', 'get_struct_fields', lambda ex, s, args, kw: iter([(s, Tup([Opq(f.t, 'GField') for f in ms]))]))
        BM.CALLS['set'] = distinct_names
        t1.w.module('capnpy.compiler.structor'); t1.w.module('capnpy.compiler.fieldtree')
        mods = dict(t1.w.mods)          # Node is the one of fieldtree.py, the schema's are opaque
        t1.w.mods.clear()
        t1.w.mods.update({'capnpy.compiler.fieldtree': mods['capnpy.compiler.fieldtree']}, **mods)
        for c in (Leaves(), ArgsParams()): t1.ex.local[c.key] = c
        c = s.heap[s.heap[m.id]['code'].id]['dv_code']
        s.heap[c.id] = dict(s.heap[c.id], pyx=t1.gen_pyx)
        return t1.run(s, [Opq(f.t, 'GNode'), m], key=NS + '._emit_ctors')
    return start
def union_task(k, tt):
    v = 'any' + ('_u' if tt == 'unicode' else '')
    @task(NS + '._emit_one_ctor_union', ['C12', 'C13'], variants=('%s:%s' % (v, k),), name='any-schema:' + NS + '._emit_one_ctor_union', weight=6)
    def run(t):
        ms, pcs = three(k, (1, 0, 2))
        ds, ps, disc = fresh('data_size'), fresh('ptrs_size'), fresh('discriminantOffset')
        pcs += [And(ds >= 0, ds < 1 << 16, ps >= 0, ps < 1 << 16, disc >= 0, disc < 1 << 16, 2 * disc + 2 <= 8 * ds)]
        places = []
        for f in ms:
            lo, n, valid = place(f, ds, ps, disc)
            pcs += valid
            if n: pcs.append(Or(zi(lo) + n <= 2 * disc, zi(lo) >= 2 * disc + 2))
            for g, lo2, n2 in places:
                # the members of a union may share their place
                if n and n2 and not (f.kind == g.kind == 'bool') and not (f.in_union and g.in_union): pcs.append(Or(zi(lo) + n <= zi(lo2), zi(lo) >= zi(lo2) + n2))
            places.append((f, lo, n))
        for facts, lines in A.stage1(t, k, ms, pcs, tt, call=union_call(ds, ps, disc, ms)):
            txt = A.Text(ms, facts, t)
            for f in ms: txt.names.append((CN(f.t), 'DvStruct'))
            body = ['%s DvStruct(_Struct):' % ('cdef class' if t.pyx else 'class')] + ['    ' + txt.lines([l])[0] for l in lines]
            m = A.module(t, v, ['pass'], txt.number(2 * disc, False), txt, more=body)
            t.ex.ob('generated/is-code', St(), m is not None)
            if m is None: continue
            t.w.mods['gen.dvany'] = m
            t.gen = m
            c = A.N__(S=A.FakeSchema(), name='DvStruct', node=A.N__(union=[f for f in ms if f.in_union], disc_off=disc, fields=ms, name='DvStruct', ds=ds, ps=ps))
            w = t.ex.where
            for how in ('u', 'v'):
                t.ex.where = w + '/new_' + how
                ctor3(t, c, m, ms, how, facts, ds, ps, disc)
            t.ex.where = w + '/both'
            ctor3(t, c, m, ms, None, facts, ds, ps, disc)
            t.ex.where = w
    run
def ctor3(t, c, m, ms, how, facts, ds, ps, disc):
    st = t.st()
    st.pc += facts
    t.w.module('capnpy.struct_')
    args = {}
    for f in ms:
        if how is not None and f.in_union and f.name != how: continue
        if f.kind == 'void' and not f.in_union: continue
        v, a = arg(t, st, f)
        a.given = Z.BoolVal(True)
        if how is None and f.in_union:
            a.given = freshb('given')
            a.v = Opt(Not(a.given), C12.UNDEF(), v)
        else: a.v = v
        args[f.name] = a
    cls = ClsV(c.name, m.classes[c.name])
    kw = {n: a.v for n, a in args.items()}
    if how is None: outs = list(BM.construct(t.ex, cls, st, [], kw))
    else: outs = list(t.ex.call_func(m.classes[c.name].methods['new_' + how], st, [cls], kw, inline=True))
    ov = Or(*[And(a.given, over(t, a.f, C12.base_value(a))) for a in args.values()])
    both = And(args['u'].given, args['v'].given) if how is None else Z.BoolVal(False)
    def ret(s, r):
        yield 'rejected/out-of-range', Not(ov)
        yield 'rejected/two-members', Not(both)
        yield 'class', isinstance(r, Ref) and r.cls == c.name
        if not isinstance(r, Ref): return
        h = s.heap[r.id]
        yield 'at-the-start', And(zi(h['_data_offset']) == 0, zi(h['_data_size']) == ds, zi(h['_ptrs_size']) == ps, zi(h['_ptrs_offset']) == 8 * ds)
        q = s.get(h['_seg'], 'buf')
        bs = [Ref('SegmentBuilder', i) for i, x in s.heap.items() if x.get('__class__') == 'SegmentBuilder' or C12.builder_like(x)]
        if len(bs) != 1: raise Unsupported('%d builders' % len(bs))
        b = bs[0]
        yield 'whole-message', zi(q.len) == zi(bend(s, b))
        yield 'content', same_bytes(s, q.store, bstore(s, b), 0, q.len)
        g = Goals(t, s, c, q.store, b)
        g.bits = {}
        for y in g.fields(c, args): yield y
        x, mine = fresh('x'), []
        now = [a for a in args.values() if g.given(a)]
        for a in now:
            f = a.f
            lo, n, _ = place(f, ds, ps, disc)
            if f.in_union:
                yield 'tag', zi(q.store.dec(t.ex, s, 'H', simp(2 * disc))) == f.tag
                mine.append(And(x >= 2 * disc, x < 2 * disc + 2))
            if n: mine.append(And(x >= zi(lo), x < zi(lo) + n))
            if f.kind == 'bool':
                for i in range(8):
                    if i == f.offset.r: continue
                    others = [o.f.offset.q == f.offset.q for o in now if o.f.kind == 'bool' and o.f is not f and o.f.offset.r == i]
                    yield 'unused-bit-%d' % i, Or((zi(q.store.at(zi(lo))) / (1 << i)) % 2 == 0, *others)
        yield 'unused-bytes', Implies(And(x >= 0, x < 8 * (ds + ps), *[Not(y) for y in mine]), q.store.at(x) == 0)
        yield 'body', zi(q.len) >= 8 * (ds + ps)
    kinds = set(f.kind for f in ms)
    t.expect(outs, maybe=[(ov, ('OverflowError', 'struct.error')), (both, ('TypeError',)), (True, C12.LISTEXC if 'list' in kinds else COPYEXC if 'struct' in kinds else ()), (GC.mod_of(t).endswith('_u'), ('UnicodeEncodeError',))], ret=ret)
for _k in A.KINDS:
    if _k in ('interface', 'anyPointer'): continue
    union_task(_k, 'bytes')
    if _k == 'text': union_task(_k, 'unicode')
