"""C19: what a pickle and a raw dump carry rebuilds a struct of the same class over the same bytes at the same place with the same sizes, hence the same reads.
Assumed: pickle calls the rebuild function of __reduce__ with equal arguments; marshal.loads(marshal.dumps(x)) == x for tuples of str, bytes, int, None, tuple."""
from vc import *
from contracts.c10 import *
def _dumps(ex, st, args, kw):
    if len(args) != 1 or kw: raise Unsupported('marshal.dumps arguments')
    st.ghost = dict(st.ghost, marshal=args[0])
    yield st, Opq(fresho('marshalled'), 'marshalled')
def _loads(ex, st, args, kw):
    if not (isinstance(args[0], Opq) and args[0].cls == 'marshalled' and 'marshal' in st.ghost): raise Unsupported('marshal.loads')
    yield st, st.ghost['marshal']
BM.CALLS['marshal.dumps'] = _dumps
BM.CALLS['marshal.loads'] = _loads
BM.CALLS['warnings.warn'] = lambda ex, st, args, kw: iter([(st, None)])
def eq_seq(t, s, a, b):
    if a is b: return True
    x, y = BM.as_seq(t.ex, s, a), BM.as_seq(t.ex, s, b)
    if x is None or y is None: return False
    return And(zi(x.len) == zi(y.len), same_bytes(s, x.store, y.store, 0, y.len))
def eq_tup(t, s, a, b):
    if a is b: return True
    if a is None or b is None or not isinstance(a, SymTup) or not isinstance(b, SymTup): return False
    j = fresh('j')
    s.pc.append(And(j >= 0, j < zi(b.n)))
    return And(zi(a.n) == zi(b.n), zi(a.item(s, j)) == zi(b.item(s, j)))
def cptr(t, s, g):
    p, q = s.get(g, 'cbuf'), s.get(g, 'buf')
    return isinstance(p, Ptr) and p.base is q and zi(p.off) == 0
def same_struct(t, s, v, seg, r, h0):
    yield 'class', isinstance(v, Ref) and v.cls == r.cls
    if not isinstance(v, Ref): return
    h = s.heap[v.id]
    for k in ('_data_offset', '_data_size', '_ptrs_size', '_ptrs_offset'): yield k, zi(h[k]) == zi(h0[k])
    g, g0 = h['_seg'], h0['_seg']
    yield 'segment-class', isinstance(g, Ref) and g.cls == g0.cls
    q, q0 = s.get(g, 'buf'), s.get(g0, 'buf')
    yield 'segment-bytes', eq_seq(t, s, q, q0)
    yield 'segment-offsets', eq_tup(t, s, s.heap[g.id].get('segment_offsets'), s.heap[g0.id].get('segment_offsets'))
    if t.pyx: yield 'segment-pointer', cptr(t, s, g)
@task(ST + '._raw_dumps', ['C19'], variants=V2)
def raw(t):
    st = t.st()
    r, seg, b, o, d, P, q = mkstruct(t, st, t.variant == 'multi')
    h0 = dict(st.heap[r.id])
    for s, v in t.run(st, [r]):
        if isinstance(v, Exc):
            t.ex.ob('no-exception', s, False)
            continue
        outs = t.run(s, [ClsV('Struct', t.w.find_class('Struct')), v], key=ST + '._raw_loads')
        t.expect(outs, ret=lambda s2, x: same_struct(t, s2, x, seg, r, h0))
def rebuild(t, s, v):
    "what unpickling does with the result of __reduce__"
    if not (isinstance(v, Tup) and len(v.xs) == 2 and isinstance(v.xs[1], Tup)): raise Unsupported('__reduce__ result')
    return list(t.ex.call(v.xs[0], s, list(v.xs[1].xs), {}))
@task(ST + '.__reduce__', ['C19'], variants=V2)
def reduce(t):
    st = t.st()
    r, seg, b, o, d, P, q = mkstruct(t, st, t.variant == 'multi')
    h0 = dict(st.heap[r.id])
    for s, v in t.run(st, [r]):
        if isinstance(v, Exc):
            t.ex.ob('no-exception', s, False)
            continue
        t.expect(rebuild(t, s, v), ret=lambda s2, x: same_struct(t, s2, x, seg, r, h0))
def seg_reduce(t, multi):
    st = t.st()
    seg, b = mkmsg(t, st, multi)
    for s, v in t.run(st, [seg]):
        if isinstance(v, Exc):
            t.ex.ob('no-exception', s, False)
            continue
        def ret(s2, g):
            yield 'class', isinstance(g, Ref) and g.cls == seg.cls
            yield 'bytes', eq_seq(t, s2, s2.get(g, 'buf'), b)
            yield 'offsets', eq_tup(t, s2, s2.heap[g.id].get('segment_offsets'), s2.heap[seg.id].get('segment_offsets'))
            if t.pyx: yield 'pointer', cptr(t, s2, g)
        t.expect(rebuild(t, s, v), ret=ret)
@task(SG + '.__reduce__', ['C19'])
def sreduce(t): seg_reduce(t, False)
@task(SM + '.__reduce__', ['C19'])
def mreduce(t): seg_reduce(t, True)
