"""C12 / C13 for the groups of every schema: what Node__Struct._emit_ctors writes for a struct with a member, and a group of two members of which one is of any kind - a plain
group, a group that is a union, and a nullable group - at unknown places.  Structor and fieldtree.py are executed whole, the text is read as the class body it is (c12gen.py), in
both modes, and the constructor is proved to store each member of the group where its getter reads it, the tag of the group's union where the group has it, and nothing else.
Assumed: as in c12gen.py; deeper groups are the same text with longer names; the capitalized name of a group is an identifier."""
from vc import *
from contracts.common import *
from contracts.c04 import COPYEXC
from contracts import c12 as C12, gencode as GC, c11gen as A, c12gen as N, c20gen as R20
from contracts.c12gen import place, arg, over, Goals, FT, NS, CN, as_tup
CAP = ufn('CAPITALIZED', OV, OV)
A.method_of('CodeName', 'capitalize', lambda ex, s, args, kw: iter([(s, Opq(CAP(args[0].t), 'CodeName'))]))
BM.CALLS['scope.params'] = lambda ex, s, args, kw: iter([(s, N.arglist(args[1], s))])
BM.ATTR['scope', 'params'] = lambda ex, s, o: iter([(s, Builtin('scope.params', o))])
def _lstrip(ex, s, args, kw):
    if args[1:] != ['_']: raise Unsupported('lstrip')
    yield s, args[0]            # names of members start with a letter
A.method_of('CodeName', 'lstrip', _lstrip)
class PreOrder(Contract):
    "the nodes of the tree, in pre-order"
    key = FT + 'AbstractNode.allnodes'
    def apply(self, ex, s, env):
        def walk(n):
            for x in as_tup(s, s.heap[n.id]['children']).xs:
                yield x
                for y in walk(x): yield y
        yield s, Tup(list(walk(env['self'])))
# members may have the names the generator uses, less the underscore
PYNAMES = dict(group=dict(x='pos', y='builder', z='buf', g='SegmentBuilder'), union=dict(x='undefined', y='check_tag', z='curtag', g='pos'), nullable=dict(isNull='builder', value='pos', z='buf', g='Struct'))
def schema(k, how):
    "a member z outside, the group g and its members"
    ms, pcs = [], []
    other = 'int8' if k == 'bool' else 'bool'
    inner = (('isNull', other, 0), ('value', k, 5)) if how == 'nullable' else (('x', k, 5), ('y', 'int16', 3))
    for n, kk, r in inner + (('z', 'int16', 0), ('g', 'group', 0)):
        off = fresh('offset')
        pcs.append(And(off >= 0, off < 1 << 16))
        u = how == 'union' and n in ('x', 'y', 'z', 'g')
        f = A.F_(t=fresho('field_' + n), name=n, type=None if kk == 'group' else A.ty_of(kk), kind=kk, in_union=u, tag=fresh('tag') if u else None, default=0, raw=off, offset=off)
        f.is_group, f.pyname = kk == 'group', PYNAMES[how].get(n, n)
        if u: pcs.append(And(f.tag >= 0, f.tag < 1 << 15))
        if kk == 'bool': f.offset, f.raw = A.BoolOff(off, r), 8 * off + r
        if n in ('x', 'value') and kk in A.UNSIGNED:
            f.default = fresh('default')
            pcs.append(And(f.default > 0, f.default < 1 << A.UNSIGNED[kk]))
        if n in ('x', 'value') and kk == 'bool': f.default = 1
        ms.append(f)
    if how == 'nullable': ms[0], ms[1] = ms[1], ms[0]
    pcs.append(Z.Distinct(*[f.t for f in ms]))
    pcs.append(Z.Distinct(*[A.NAMEOF(f.t) for f in ms]))
    return ms, pcs
def start(ds, ps, disc, disc0, ms, how):
    x, y, z, g = ms
    kids = (y, x) if how == 'nullable' else (x, y)
    by = lambda o: [f for f in ms if f.t.eq(o.t)][0]
    top, grp = fresho('node'), fresho('group_node')
    isg = lambda o: o.t.eq(grp)
    def call(t1, s, m, f, lines):
        if f is not ms[0]: return [(s, None)]
        O, M = BM.OATTR, A.method_of
        O['GNode', 'dv_classes'] = (NS, 'capnpy.compiler.node:Node')
        A.chain('GNode', 'struct', 'GStruct')
        A.chain('GField', 'group', 'GGroup')
        O['GField', 'name'] = lambda ex, s, o: iter([(s, by(o).name.encode())])
        M('GGroup', 'get_node', lambda ex, s, args, kw: iter([(s, Opq(grp, 'GNode'))]))
        for n, fn in (('is_slot', lambda o: not by(o).is_group), ('is_group', lambda o: by(o).is_group), ('which', lambda o: Opq(o.t, 'TAG:Field.' + ('group' if by(o).is_group else 'slot')))):
            M('GField', n, lambda ex, s, args, kw, fn=fn: iter([(s, fn(args[0]))]))
        O['GStruct', 'isGroup'] = lambda ex, s, o: iter([(s, isg(o))])
        O['GStruct', 'dataWordCount'] = lambda ex, s, o: iter([(s, ds)])
        O['GStruct', 'pointerCount'] = lambda ex, s, o: iter([(s, ps)])
        O['GStruct', 'fields'] = lambda ex, s, o: iter([(s, None)])
        O['GStruct', 'discriminantOffset'] = lambda ex, s, o: iter([(s, disc if isg(o) else disc0)])
        O['GStruct', '__bool__'] = O['GField', '__bool__'] = O['CodeName', '__bool__'] = True
        M('GStruct', 'is_union', lambda ex, s, args, kw: iter([(s, how == 'union')]))
        M('GNode', 'compile_name', lambda ex, s, args, kw: iter([(s, Opq(CN(args[0].t), 'CodeName'))]))
        M('GNode', 'get_struct_fields', lambda ex, s, args, kw: iter([(s, Tup([Opq(f.t, 'GField') for f in (kids if isg(args[0]) else (g, z))]))]))
        M('NullAnn', 'check', lambda ex, s, args, kw: iter([(s, Tup([Opq(A.NAMEOF(g.t), 'CodeName')] + [Opq(f.t, 'GField') for f in kids]))]))
        if how == 'nullable': t1.ex.local[R20.Nullable.key] = R20.Nullable(g)
        BM.CALLS['set'] = N.distinct_names
        t1.w.module('capnpy.compiler.structor'); t1.w.module('capnpy.compiler.fieldtree')
        mods = dict(t1.w.mods)
        t1.w.mods.clear()
        t1.w.mods.update({'capnpy.compiler.fieldtree': mods['capnpy.compiler.fieldtree']}, **mods)
        for c in (PreOrder(), N.ArgsParams()): t1.ex.local[c.key] = c
        c = s.heap[s.heap[m.id]['code'].id]['dv_code']
        s.heap[c.id] = dict(s.heap[c.id], pyx=t1.gen_pyx)
        out = []
        for s2, v in t1.run(s, [Opq(top, 'GNode'), m], key=NS + '._emit_ctors'):
            if isinstance(v, Exc) or how == 'nullable':
                out.append((s2, v))
                continue
            name = Opq(A.NAMEOF(g.t), 'CodeName')
            for s3, ns in BM.CALLS['scope.new_scope'](t1.ex, s2, [s2.heap[m.id]['code']], {}):
                s3.heap[ns.id] = dict(s3.heap[ns.id], name=name)
                out += list(t1.run(s3, [Opq(g.t, 'GField'), m, ns, name], key=A.FD + 'Field__Group._emit_ctor_like'))
        return out
    return call, top
def group_task(k, tt, how):
    v = 'any' + ('_u' if tt == 'unicode' else '')
    @task(NS + '._emit_ctors', ['C12', 'C13'], variants=('%s:%s,%s' % (v, k, how),), name='any-schema:' + NS + '._emit_ctors/' + how, weight=6)
    def run(t):
        ms, pcs = schema(k, how)
        z, g = ms[2:]
        ds, ps, disc, disc0 = fresh('data_size'), fresh('ptrs_size'), fresh('discriminantOffset'), fresh('discriminantOffset0')
        pcs += [And(ds >= 0, ds < 1 << 16, ps >= 0, ps < 1 << 16, disc >= 0, disc < 1 << 16, disc0 >= 0, disc0 < 1 << 16)]
        if how == 'union': pcs.append(And(2 * disc + 2 <= 8 * ds, 2 * disc0 + 2 <= 8 * ds, disc != disc0))
        places = []
        for f in ms[:3]:
            lo, n, valid = place(f, ds, ps, disc)
            pcs += valid
            if n and how == 'union':
                for d in (disc, disc0): pcs.append(Or(zi(lo) + n <= 2 * d, zi(lo) >= 2 * d + 2))
            for h, lo2, n2 in places:
                if n and n2 and not (f.in_union and h.in_union and (z in (f, h)) is False): pcs.append(Or(zi(lo) + n <= zi(lo2), zi(lo) >= zi(lo2) + n2))
            places.append((f, lo, n))
        call, top = start(ds, ps, disc, disc0, ms, how)
        for facts, lines in A.stage1(t, k, ms, pcs, tt, call=call):
            txt = A.Text(ms, facts, t)
            txt.names = [(A.NAMEOF(f.t), f.pyname) for f in ms] + [(CN(top), 'DvStruct'), (CAP(A.NAMEOF(g.t)), 'G')]
            body = ['%s DvStruct(_Struct):' % ('cdef class' if t.pyx else 'class')] + ['    ' + txt.lines([l])[0] for l in lines]
            m = A.module(t, v, ['pass'], txt.number(2 * disc, False), txt, more=body)
            t.ex.ob('generated/is-code', St(), m is not None)
            if m is None: continue
            t.w.mods['gen.dvany'] = m
            t.gen = m
            c = A.N__(S=A.FakeSchema(), name='DvStruct', node=A.N__(union=[z, g] if how == 'union' else [], disc_off=disc0, fields=ms, name='DvStruct', ds=ds, ps=ps))
            w = t.ex.where
            for given in (True, False):
                t.ex.where = w + ('/given' if given else '/absent')
                build(t, c, m, ms, how, given, facts, ds, ps, disc, disc0)
            t.ex.where = w
    run
def build(t, c, m, ms, how, given, facts, ds, ps, disc, disc0):
    x, y, z, g = ms
    st = t.st()
    st.pc += facts
    t.w.module('capnpy.struct_')
    args, kids = {}, {}
    v, a = arg(t, st, z)
    a.v, a.given = v, Z.BoolVal(True)
    if how == 'union':
        a.given = freshb('given_z')
        a.v = Opt(Not(a.given), C12.UNDEF(), v)
    args['z'] = a
    none, both = Z.BoolVal(False), Z.BoolVal(False)
    if given:
        for f in (x, y):
            if f.kind == 'void' and not f.in_union: continue
            v, a = arg(t, st, f)
            a.v, a.given = v, Z.BoolVal(True)
            if how == 'union':
                a.given = freshb('given')
                a.v = Opt(Not(a.given), C12.UNDEF(), v)
            kids[f.name] = a
        if how == 'nullable':
            none = freshb('none')
            ga = C12.Arg(g, Opt(none, None, kids['value'].v), none=none, val=kids.pop('value'), isnull=y)
            kids = {}
        else:
            # the group value is made by the generated helper of the group
            made = list(t.ex.call_func(m.classes[c.name].methods['G'], st, [], {a.f.pyname: a.v for a in kids.values()}, inline=True))
            if len(made) != 1 or not isinstance(made[0][1], Tup): raise Unsupported('the helper of a group')
            ga = C12.Arg(g, made[0][1], kids=kids)
            ga.cl = A.N__(S=c.S, name='g', node=A.N__(disc_off=disc, fields=[x, y], ds=ds, ps=ps))
        ga.given = Z.BoolVal(True)
        if how == 'union':
            ga.given = freshb('given_g')
            ga.v = Opt(Not(ga.given), C12.UNDEF(), ga.v)
        args['g'] = ga
    if how == 'union' and given: both = Or(And(args['z'].given, ga.given), And(ga.given, kids['x'].given, kids['y'].given))
    outs = list(BM.construct(t.ex, ClsV(c.name, m.classes[c.name]), st, [], {a.f.pyname: a.v for a in args.values()}))
    ov = And(args['z'].given, over(t, z, C12.base_value(args['z'])))
    if kids: ov = Or(ov, And(ga.given, Or(*[And(a.given, over(t, a.f, C12.base_value(a))) for a in kids.values()])))
    if given and how == 'nullable': ov = Or(ov, And(Not(none), over(t, x, args['g'].val.v)))
    def ret(s, r):
        yield 'rejected/out-of-range', Not(ov)
        yield 'rejected/two-members', Not(both)
        yield 'class', isinstance(r, Ref) and r.cls == c.name
        if not isinstance(r, Ref): return
        h = s.heap[r.id]
        yield 'at-the-start', And(zi(h['_data_offset']) == 0, zi(h['_data_size']) == ds, zi(h['_ptrs_size']) == ps, zi(h['_ptrs_offset']) == 8 * ds)
        q = s.get(h['_seg'], 'buf')
        bs = [Ref('SegmentBuilder', i) for i, o in s.heap.items() if o.get('__class__') == 'SegmentBuilder' or C12.builder_like(o)]
        if len(bs) != 1: raise Unsupported('%d builders' % len(bs))
        b = bs[0]
        yield 'whole-message', zi(q.len) == zi(bend(s, b))
        yield 'content', same_bytes(s, q.store, bstore(s, b), 0, q.len)
        gl = Goals(t, s, c, q.store, b)
        gl.bits = {}
        for o in gl.fields(c, args): yield o
        j, mine = fresh('x'), []
        used = [z] if gl.given(args['z']) else []
        if given: used += [x, y] if how == 'nullable' else [a.f for a in kids.values() if gl.given(ga) and gl.given(a)]
        if given and how == 'union' and gl.given(ga): mine.append(And(j >= 2 * disc0, j < 2 * disc0 + 2))
        for f in used:
            lo, n, _ = place(f, ds, ps, disc)
            if f.in_union:
                d = disc0 if f is z else disc
                mine.append(And(j >= 2 * d, j < 2 * d + 2))
            if n: mine.append(And(j >= zi(lo), j < zi(lo) + n))
            if f.kind == 'bool':
                for i in range(8):
                    if i != f.offset.r: yield 'unused-bit-%d' % i, (zi(q.store.at(zi(lo))) / (1 << i)) % 2 == 0
        yield 'unused-bytes', Implies(And(j >= 0, j < 8 * (ds + ps), *[Not(o) for o in mine]), q.store.at(j) == 0)
        yield 'body', zi(q.len) >= 8 * (ds + ps)
    k = x.kind
    t.expect(outs, maybe=[(ov, ('OverflowError', 'struct.error')), (both, ('TypeError',)), (True, C12.LISTEXC if k == 'list' else COPYEXC if k == 'struct' else ()), (GC.mod_of(t).endswith('_u'), ('UnicodeEncodeError',))], ret=ret)
for _k in A.KINDS:
    if _k in ('interface', 'anyPointer'): continue
    for _how in ('group', 'union', 'nullable'):
        if _how == 'nullable' and (_k in A.PTRS or _k == 'void'): continue
        group_task(_k, 'bytes', _how)
        if _k == 'text': group_task(_k, 'unicode', _how)
