"""C04 / C05: the schema-less deep copy. DEQ(a, d): "the pointer word at source address a designates an object and the word at destination address d designates an
equal one", unfolded one level by the goals of the copy_pointer task (its definition); below that level it is a ghost fact, produced by the contract of the
recursive call and carried along with a footprint (its slot and the block allocated for it): a write that might touch the footprint drops the fact.
Induction on the recursion: the contract is assumed for the recursive calls."""
from vc import *
from contracts.common import mkbuilder, bsid, bstore, bend, binv, grow, alloc_pre, same_until, LIM
from contracts.c10 import mkmsg, word, F, resolve, inside
import bvexec as B
CP = dict(py='capnpy.segment._copy_pointer:', pyx='capnpy.segment.builder:')
COPYEXC = ('IndexError', 'ValueError', 'AssertionError')
BIGPOS = 1 << 60

class Deq(object):
    def __init__(self, sid, p, a, d, lo, hi, guard=True, src=None): self.src, self.sid, self.p, self.a, self.d, self.lo, self.hi, self.guard = src, sid, p, a, d, lo, hi, guard
    def move(self, nid): return Deq(nid, self.p, self.a, self.d, self.lo, self.hi, self.guard, self.src)
    def frame(self, ex, s, lo, hi):
        return ex.known(s, Implies(self.guard, And(Or(zi(hi) <= zi(self.d), zi(lo) >= zi(self.d) + 8), Or(zi(hi) <= zi(self.lo), zi(lo) >= zi(self.hi)))))
def copied(s, b, p, a, d):
    "the slot d holds a copy of pointer p at a"
    return Or(*[And(f.guard, zi(f.p) == zi(p), zi(f.a) == zi(a), zi(f.d) == zi(d)) for f in s.facts if type(f) is Deq and f.sid == bsid(s, b)])
def hole(ln): return Store(ln, 'h%d' % next(G._n))

class CopyPointer(Contract):
    def apply(self, ex, st, env):
        src, p, a, b, d = [env[k] for k in ('src', 'p', 'src_pos', 'dst', 'dst_pos')]
        e = bend(st, b)
        pre = And(alloc_pre(e, d), zi(a) >= -BIGPOS, zi(a) <= BIGPOS)
        ex.ob('copy_pointer/pre', st, pre, 'the destination slot is a word of the builder')
        st.pc.append(zb(pre))
        for c in COPYEXC: yield st.fork(), Exc(c)
        e2 = fresh('end')
        st.pc.append(And(e2 >= zi(e), e2 % 8 == 0, e2 < LIM))
        H = hole(e2)
        grow(ex, st, b, simp(e2 - zi(e)), [(d, simp(zi(d) + 8), ('copy', H, 0)), (e, e2, ('copy', H, 0))])
        st.facts.append(Deq(bsid(st, b), p, a, d, e, e2, src=src.id))
        # a non-empty struct is the first thing allocated
        w = bstore(st, b).dec(ex, st, 'q', d)
        body = F(st, p, 'dsz') + F(st, p, 'psz')
        st.pc.append(Implies(And(F(st, p, 'kind') == 0, body > 0), And(zi(d) + 8 + 8 * F(st, w, 'offset') == zi(e), e2 >= zi(e) + 8 * body)))
        yield st, None
def interest(st, a, d):
    "the caller of _copy_many_ptrs wants to know about the slot d, copied from a"
    st.ghost = dict(st.ghost, interest=st.ghost.get('interest', ()) + ((a, d),))
class CopyMany(Contract):
    def apply(self, ex, st, env):
        n, src, a, b, d = [env[k] for k in ('n', 'src', 'src_pos', 'dst', 'dst_pos')]
        e = bend(st, b)
        pre = And(zi(n) >= 0, zi(n) < 1 << 30, zi(e) % 8 == 0, zi(d) % 8 == 0, zi(d) >= 0, zi(d) + 8 * zi(n) <= zi(e), zi(a) >= -BIGPOS, zi(a) <= BIGPOS)
        ex.ob('copy_many_ptrs/pre', st, pre, 'the destination slots are words of the builder')
        st.pc.append(zb(pre))
        for c in COPYEXC: yield st.fork(), Exc(c)
        L = zi(st.get(src, 'buf').len)
        st.pc.append(And(zi(a) >= 0, zi(a) + 8 * zi(n) <= L))
        old = bstore(st, b)
        ints = [(ia, id_) for ia, id_ in st.ghost.get('interest', ())]
        def rec(s, todo, mine):
            if todo:
                ia, id_ = todo[0]
                inr = And(zi(ia) >= zi(a), zi(ia) < zi(a) + 8 * zi(n), (zi(ia) - zi(a)) % 8 == 0, zi(id_) - zi(d) == zi(ia) - zi(a))
                for s2, y in ex.branch(s, inr):
                    if not y:
                        for z in rec(s2, todo[1:], mine): yield z
                        continue
                    w = word(ex, s2, src, ia)
                    for s3, null in ex.branch(s2, zi(w) == 0):
                        for z in rec(s3, todo[1:], mine + [(ia, id_, w, null)]): yield z
                return
            e2 = fresh('end')
            s.pc.append(And(e2 >= zi(e), e2 % 8 == 0, e2 < LIM))
            H = hole(e2)
            before = [old.dec(ex, s, 'q', id_) for ia, id_, w, null in mine]
            hi = simp(zi(d) + 8 * zi(n))
            grow(ex, s, b, simp(e2 - zi(e)), [(d, hi, ('copy', H, 0)), (e, e2, ('copy', H, 0))])
            for (ia, id_, w, null), o in zip(mine, before):
                if null: s.pc.append(zi(bstore(s, b).dec(ex, s, 'q', id_)) == zi(o))
                else:
                    lo, hi2 = fresh('lo'), fresh('hi')
                    s.pc.append(And(zi(e) <= lo, lo <= hi2, hi2 <= e2))
                    s.facts.append(Deq(bsid(s, b), w, ia, id_, lo, hi2))
            yield s, None
        for z in rec(st, ints, []): yield z
for _m in CP:
    contract(CP[_m] + 'copy_pointer', modes=(_m,))(CopyPointer)
    contract(CP[_m] + '_copy_many_ptrs', modes=(_m,))(CopyMany)

def havoc_builder(ex, h, b, e0, e, keep):
    "the builder's contents become: as keep (layers given) below e0, unknown in [e0, e)"
    old = bstore(h, b)
    sid = bsid(h, b)
    nid = BM.new_sid(h, None)
    may = {('store', sid), ('store', nid)}
    H = hole(e)
    ents = tuple((lo, hi, ('copy', H, 0)) for lo, hi in keep) + ((e0, e, ('copy', H, 0)),)
    ba = h.get(b, 'buf')
    if 'end' in h.heap[b.id]:
        cap = fresh('cap')
        h.pc.append(And(cap >= zi(e), cap < 1 << 40))
        h.stores[nid] = Store(cap, old.base, ((e, cap, ('zero',)),) + ents + old.ents)
        h.stores[sid] = Store(old.len, old.base, old.ents, live=False)
        h.heap[b.id] = dict(h.heap[b.id], cbuf=Ptr(nid, 0), length=cap, end=e)
        may |= {('heap', b.id, x) for x in ('cbuf', 'length', 'end')}
    else:
        h.stores[nid] = Store(e, old.base, ents + old.ents)
    h.heap[ba.id] = dict(h.heap[ba.id], sid=nid)
    may.add(('heap', ba.id, 'sid'))
    return may

class ManyLoop(LoopSpec):
    def j(self, st0): return st0.ghost['slot']       # (j, source address, destination address, word)
    def havoc(self, ex, st0, h, k):
        b, d = h.env['dst'], st0.env['dst_pos']
        h.facts = []
        return havoc_builder(ex, h, b, bend(st0, b), self.end(h), [(d, simp(zi(d) + 8 * zi(k)))])
    def end(self, h):
        e = fresh('end')
        h.pc.append(And(e >= 0, e < LIM))
        return e
    def inv(self, ex, st0, s, k):
        b, d = st0.env['dst'], zi(st0.env['dst_pos'])
        e0, e = zi(bend(st0, b)), zi(bend(s, b))
        yield 'index', zi(k) <= zi(st0.env['n'])
        yield 'end', And(e >= e0, e % 8 == 0)
        x = fresh('x')
        yield 'outside', Implies(And(x >= 0, x < e0, Or(x < d, x >= d + 8 * zi(k))), bstore(s, b).at(x) == bstore(st0, b).at(x))
        for y in binv_(s, b): yield y
        j, a_, d_, w = self.j(st0)
        for nm, c in (('last', zi(k) == j + 1), ('earlier', zi(k) > j + 1)):
            s2 = s.fork(c, zi(w) == 0)
            if not ex.feasible(s2): continue
            v, o = bstore(s2, b).dec(ex, s2, 'q', d_), bstore(st0, b).dec(ex, s2, 'q', d_)
            yield 'null-slot-' + nm, Implies(And(c, zi(w) == 0), zi(v) == zi(o))
    def facts(self, ex, st0, h, k):
        b = h.env['dst']
        j, a_, d_, w = self.j(st0)
        lo, hi = fresh('lo'), fresh('hi')
        h.pc.append(And(zi(bend(st0, b)) <= lo, lo <= hi, hi <= zi(bend(h, b))))
        return [Deq(bsid(h, b), w, a_, d_, lo, hi, And(zi(k) > j, zi(w) != 0))]
    def facts_check(self, ex, st0, s, k):
        b = s.env['dst']
        j, a_, d_, w = self.j(st0)
        yield 'slot-copied', Implies(And(zi(k) + 1 > j, zi(w) != 0), copied(s, b, w, a_, d_))
def binv_(s, b):
    h = s.heap[b.id]
    if 'end' not in h: return
    st = bstore(s, b)
    ok = isinstance(h['cbuf'], Ptr) and h['cbuf'].base == bsid(s, b)
    yield 'builder/pointer', And(ok, zi(h['cbuf'].off) == 0) if ok else False
    yield 'builder/capacity', And(zi(h['length']) == zi(st.len), zi(h['end']) >= 0, zi(h['end']) <= zi(h['length']))
    j = fresh('z')
    yield 'builder/zero-tail', Implies(And(j >= zi(h['end']), j < zi(st.len)), st.at(j) == 0)
for _m in CP: loop(CP[_m] + '_copy_many_ptrs', modes=(_m,))(ManyLoop)

def setup(t, multi=False):
    st = t.st()
    src, sb = mkmsg(t, st, multi)
    b, e = mkbuilder(t, st, aligned=True)
    return st, src, sb, b, e
def cptask(fn):
    def dec(f):
        for m in CP: task(CP[m] + fn[0], ['C04', 'C05'], modes=(m,), **fn[1])(f)
        return f
    return dec

@cptask(('_copy_many_ptrs', dict(weight=6)))
def many(t):
    st, src, sb, b, e = setup(t)
    n, a, d, j = fresh('n'), fresh('a'), fresh('d'), fresh('j')
    st.pc.append(And(n >= 0, n < 1 << 30, d % 8 == 0, d >= 0, d + 8 * n <= zi(e), a >= -BIGPOS, a <= BIGPOS, j >= 0, j < n))
    w = word(t.ex, st, src, a + 8 * j)
    st.ghost['slot'] = (j, simp(a + 8 * j), simp(d + 8 * j), w)
    old = bstore(st, b)
    o = old.dec(t.ex, st, 'q', d + 8 * j)
    def ret(s, v):
        e2 = zi(bend(s, b))
        yield 'source-in-bounds', And(a >= 0, a + 8 * n <= zi(sb.len))
        yield 'end', And(e2 >= zi(e), e2 % 8 == 0)
        x = fresh('x')
        yield 'outside', Implies(And(x >= 0, x < zi(e), Or(x < d, x >= d + 8 * n)), bstore(s, b).at(x) == old.at(x))
        s2 = s.fork(zi(w) == 0)
        if t.ex.feasible(s2): yield 'null-slot', Implies(zi(w) == 0, zi(bstore(s2, b).dec(t.ex, s2, 'q', d + 8 * j)) == zi(o))
        yield 'slot-copied', Implies(zi(w) != 0, copied(s, b, w, a + 8 * j, d + 8 * j))
        for y in binv(t, s, b): yield y
    t.expect(t.run(st, [n, src, a, b, d]), ret=ret, maybe=[(True, COPYEXC)])

def frame_goals(t, s, b, e, d, old):
    e2 = zi(bend(s, b))
    yield 'end', And(e2 >= zi(e), e2 % 8 == 0)
    x = fresh('x')
    yield 'outside', Implies(And(x >= 0, x < zi(e), Or(x < d, x >= d + 8)), bstore(s, b).at(x) == old.at(x))
    for y in binv(t, s, b): yield y
def new_object(t, s, b, e, d, size):
    "(goals, word, start) of the object the slot d designates now: inside the newly allocated block"
    w = bstore(s, b).dec(t.ex, s, 'q', d)
    T_ = simp(zi(d) + 8 + 8 * F(s, w, 'offset'))
    return [('block', And(zi(T_) >= zi(e), zi(T_) + zi(size) <= zi(bend(s, b))))], w, T_
def slot_goals(t, s, src, b, a, d):
    "slot d is a copy of the pointer at a"
    w = word(t.ex, s, src, a)
    s2 = s.fork(zi(w) == 0)
    if t.ex.feasible(s2): yield 'null-slot', Implies(zi(w) == 0, zi(bstore(s2, b).dec(t.ex, s2, 'q', d)) == 0)
    s3 = s.fork(zi(w) != 0)
    if t.ex.feasible(s3): yield 'slot-copied', Implies(zi(w) != 0, copied(s3, b, w, a, d))
def base(t, multi=False):
    st, src, sb, b, e = setup(t, multi)
    p, a, d = fresh('p'), fresh('a'), fresh('d')
    st.pc.append(And(inss(p), a >= -BIGPOS, a <= BIGPOS, alloc_pre(e, d)))
    f = {k: F(st, p, k) for k in ('kind', 'offset', 'dsz', 'psz', 'ltag', 'lcnt')}
    S = simp(a + 8 + 8 * f['offset'])
    return st, src, sb, b, e, p, a, d, f, S
def args(src, p, a, b, d): return [src, p, a, b, d]

@cptask(('copy_pointer', dict(variants=('struct', 'empty-struct', 'list-flat', 'list-bits', 'list-ptr', 'far', 'far-single', 'other'), weight=3)))
def copy_pointer(t):
    v = t.variant
    st, src, sb, b, e, p, a, d, f, S = base(t, v == 'far')
    old = bstore(st, b)
    j = fresh('j')
    must = False
    if v == 'struct':
        st.pc.append(And(f['kind'] == 0, f['dsz'] + f['psz'] > 0, j >= 0, j < f['psz']))
        sa, sd = simp(S + 8 * f['dsz'] + 8 * j), simp(zi(e) + 8 * f['dsz'] + 8 * j)
        interest(st, sa, sd)
        size = 8 * (f['dsz'] + f['psz'])
        def goals(s):
            g, w, T_ = new_object(t, s, b, e, d, size)
            for x in g: yield x
            yield 'first', And(zi(T_) == zi(e))
            yield 'pointer', And(F(s, w, 'kind') == 0, F(s, w, 'dsz') == f['dsz'], F(s, w, 'psz') == f['psz'])
            yield 'source-in-bounds', And(S >= 0, S + size <= zi(sb.len))
            x = fresh('x')
            yield 'data', Implies(And(x >= 0, x < 8 * f['dsz']), bstore(s, b).at(zi(T_) + x) == sb.store.at(S + x))
            for y in slot_goals(t, s, src, b, sa, simp(zi(T_) + 8 * f['dsz'] + 8 * j)): yield y
    elif v == 'empty-struct':
        st.pc.append(And(f['kind'] == 0, f['dsz'] == 0, f['psz'] == 0))
        def goals(s):
            w = bstore(s, b).dec(t.ex, s, 'q', d)
            yield 'pointer', And(F(s, w, 'kind') == 0, F(s, w, 'dsz') == 0, F(s, w, 'psz') == 0, F(s, w, 'offset') != 0)
    elif v in ('list-flat', 'list-bits'):
        n = f['lcnt']
        if v == 'list-bits':
            st.pc.append(And(f['kind'] == 1, f['ltag'] == 1))
            size = (n + 7) / 8
        else:
            st.pc.append(And(f['kind'] == 1, f['ltag'] != 1, f['ltag'] < 6))
            size = Z.If(f['ltag'] == 2, n, Z.If(f['ltag'] == 3, 2 * n, Z.If(f['ltag'] == 4, 4 * n, Z.If(f['ltag'] == 5, 8 * n, 0))))
        def goals(s):
            g, w, T_ = new_object(t, s, b, e, d, size)
            for x in g: yield x
            yield 'pointer', And(F(s, w, 'kind') == 1, F(s, w, 'ltag') == f['ltag'], F(s, w, 'lcnt') == n)
            yield 'source-in-bounds', And(S >= 0, S + size <= zi(sb.len))
            x = fresh('x')
            yield 'bytes', Implies(And(x >= 0, x < size), bstore(s, b).at(zi(T_) + x) == sb.store.at(S + x))
            yield 'padding', Implies(And(x >= size, x < 8 * ((size + 7) / 8)), bstore(s, b).at(zi(T_) + x) == 0)
    elif v == 'list-ptr':
        n = f['lcnt']
        st.pc.append(And(f['kind'] == 1, f['ltag'] == 6, j >= 0, j < n))
        sa, sd = simp(S + 8 * j), simp(zi(e) + 8 * j)
        interest(st, sa, sd)
        def goals(s):
            g, w, T_ = new_object(t, s, b, e, d, 8 * n)
            for x in g: yield x
            yield 'pointer', And(F(s, w, 'kind') == 1, F(s, w, 'ltag') == 6, F(s, w, 'lcnt') == n)
            yield 'source-in-bounds', And(S >= 0, S + 8 * n <= zi(sb.len))
            for y in slot_goals(t, s, src, b, sa, simp(zi(T_) + 8 * j)): yield y
    elif v in ('far', 'far-single'):
        st.pc.append(f['kind'] == 2)
        st.pc.append(Implies(inside(st, src, a), zi(word(t.ex, st, src, a)) == zi(p)))
        if v == 'far':
            ok, o2, p2 = resolve(t.ex, st, src, a)
            st.pc.append(And(zi(o2) >= -BIGPOS, zi(o2) <= BIGPOS))
            must = Not(ok)
            def goals(s):
                if any(type(f) is Deq and f.sid == bsid(s, b) for f in s.facts) or bstore(s, b) is old: g = copied(s, b, p2, o2, d)
                else:
                    # no call of copy_pointer: the object is copied in place
                    s.ghost = dict(s.ghost, approx='the object behind the far pointer is copied without a call of copy_pointer')
                    g = False
                yield 'resolved-pointer-copied', Or(g, And(bstore(s, b) is old, F(s, p2, 'kind') >= 2))       # (a far pointer to a far pointer: followed, or not copied)
        else: must = True
    else:
        st.pc.append(f['kind'] == 3)
        def goals(s): yield 'untouched', same_bytes(s, bstore(s, b), old, 0, e)
    def ret(s, r):
        for x in goals(s): yield x
        for x in frame_goals(t, s, b, e, d, old): yield x
    t.expect(t.run(st, [src, p, a, b, d]), ret=ret, maybe=[(True, COPYEXC)], raises=[(must, COPYEXC)] if must is not False else [])
    if v == 'far-single': t.normal = 1

# ---- lists of structs: a skolem item i, a skolem byte x of its data and a skolem pointer j of it
class CompLoop(LoopSpec):
    def havoc(self, ex, st0, h, k):
        b = h.env['dst']
        h.facts = []
        e = fresh('end')
        h.pc.append(And(e >= 0, e < LIM))
        g = st0.ghost['comp']
        return havoc_builder(ex, h, b, g['e0'], e, [])
    def inv(self, ex, st0, s, k):
        b = st0.env['dst']
        g = st0.ghost['comp']
        d, q, i, x, sx, dx, sa, sd = [g[n] for n in ('d', 'q', 'i', 'x', 'sx', 'dx', 'sa', 'sd')]
        W = d + q
        for u in (k, zi(k) - 1):       # instances of monotonicity of multiplication
            u = zi(u)
            s.pc.append(Implies(u >= i + 1, W * u >= W * i + W))
            s.pc.append(Implies(i >= u + 1, W * i >= W * u + W))
            s.pc.append(Implies(And(u >= 0, u < g['cnt']), And(W * u >= 0, W * u + W <= W * g['cnt'])))
        s.pc.append(Implies(And(i >= 0, i < g['cnt']), And(W * i >= 0, W * i + W <= W * g['cnt'])))
        e1, e = zi(bend(st0, b)), zi(bend(s, b))
        S_, S0 = bstore(s, b), bstore(st0, b)
        yield 'index', zi(k) <= Z.If(g['cnt'] > 0, g['cnt'], 0)
        yield 'end', And(e >= e1, e % 8 == 0)
        yield 'data', Implies(And(i >= 0, i < g['cnt'], x >= 0, x < 8 * d), S_.at(dx) == g['src'].at(sx))
        yield 'tag', zi(S_.dec(ex, s, 'q', g['e0'])) == zi(S0.dec(ex, s, 'q', g['e0']))
        w = g['w']
        for y in binv_(s, b): yield y
        s2 = s.fork(zi(w) == 0, i >= 0, i < g['cnt'])
        v, o = S_.dec(ex, s2, 'q', sd), 0
        yield 'null-slot', Implies(And(zi(w) == 0, i >= 0, i < g['cnt']), zi(v) == 0)
    def facts(self, ex, st0, h, k):
        b = h.env['dst']
        g = st0.ghost['comp']
        lo, hi = fresh('lo'), fresh('hi')
        h.pc.append(And(zi(bend(st0, b)) <= lo, lo <= hi, hi <= zi(bend(h, b))))
        return [Deq(bsid(h, b), g['w'], g['sa'], g['sd'], lo, hi, And(zi(k) > g['i'], zi(g['w']) != 0))]
    def facts_check(self, ex, st0, s, k):
        b = s.env['dst']
        g = st0.ghost['comp']
        yield 'slot-copied', Implies(And(zi(k) + 1 > g['i'], zi(g['w']) != 0), copied(s, b, g['w'], g['sa'], g['sd']))
for _m in CP: loop(CP[_m] + '_copy_list_composite', modes=(_m,))(CompLoop)
@cptask(('copy_pointer', dict(variants=('list-composite',), weight=8)))
def composite(t):
    st, src, sb, b, e, p, a, d, f, S = base(t)
    old = bstore(st, b)
    n = f['lcnt']
    tag = word(t.ex, st, src, S)
    cnt, dd, q = F(st, tag, 'offset'), F(st, tag, 'dsz'), F(st, tag, 'psz')
    i, x, j = fresh('i'), fresh('x'), fresh('j')
    st.pc.append(And(f['kind'] == 1, f['ltag'] == 7, i >= 0, i < cnt, x >= 0, x < 8 * dd, j >= 0, j < q))
    W = dd + q
    it = 8 + 8 * (W * i)
    g = dict(d=dd, q=q, i=i, x=x, cnt=cnt, e0=e, src=sb.store, sx=simp(S + it + x), dx=simp(zi(e) + it + x), sa=simp(S + it + 8 * dd + 8 * j), sd=simp(zi(e) + it + 8 * dd + 8 * j))
    g['w'] = word(t.ex, st, src, g['sa'])
    st.pc.append(And(W * i >= 0, W * i + W <= W * cnt))
    st.ghost['comp'] = g
    interest(st, g['sa'], g['sd'])
    def ret(s, v):
        o, w, T_ = new_object(t, s, b, e, d, 8 + 8 * n)
        for y in o: yield y
        yield 'pointer', And(F(s, w, 'kind') == 1, F(s, w, 'ltag') == 7, F(s, w, 'lcnt') == n)
        yield 'source-in-bounds', And(S >= 0, S + 8 + 8 * n <= zi(sb.len))
        yield 'fits', And(cnt >= 0, cnt * W <= n)
        yield 'tag', zi(bstore(s, b).dec(t.ex, s, 'q', T_)) == zi(tag)
        yield 'data', bstore(s, b).at(zi(T_) + it + x) == sb.store.at(g['sx'])
        for y in slot_goals(t, s, src, b, g['sa'], simp(zi(T_) + it + 8 * dd + 8 * j)): yield y
        for y in frame_goals(t, s, b, e, d, old): yield y
    t.expect(t.run(st, [src, p, a, b, d]), ret=ret, maybe=[(True, COPYEXC)])

# ---- the macro behind check_bounds in the compiled version, and what it calls
@task('capnpy.segment.builder:check_bounds', ['C04', 'C05'], modes=('pyx',), name='CHECK_BOUNDS (_copy_pointer.h)')
def check_bounds(t):
    h = open(os.path.join(t.w.root, 'capnpy', 'segment', '_copy_pointer.h')).read()
    keep = [l for l in h.replace('\\\n', ' ').split('\n') if not l.startswith('#include') and 'RAISE_OUT_OF_BOUNDS __pyx' not in l and not l.startswith('static PyObject')]
    src = '#define _PyString_GET_SIZE(x) n\n#define Py_INCREF(x) 0\n#define Py_None 0\n#define RAISE_OUT_OF_BOUNDS(a, b) 1\n' + '\n'.join(keep) + \
          '\nint f(long n, long size, long offset) { CHECK_BOUNDS(src, size, offset) ; return 0; }\n'
    ev = B.CEval(B.c_functions(src))
    n, size, off = [Z.BitVec(x, 64) for x in ('n', 'size', 'offset')]
    st = t.st()
    st.pc.append(And(n >= 0, n < BIGPOS, size > -BIGPOS, size < BIGPOS))
    r = ev.value('f', [B.CV(x, True) for x in (n, size, off)])
    t.ex.ob('ensures/raises-iff-outside', st, (r.t != 0) == Z.Or(off < 0, off > n - size))
    for nm, pc, g in ev.side: t.ex.ob_c('wellformed/' + nm, st, Z.Implies(pc, g))
    t.normal = 1
@task('capnpy.segment.builder:raise_out_of_bounds', ['C04', 'C05'], modes=('pyx',))
def raise_oob(t):
    st = t.st()
    a, b = fresh('size'), fresh('offset')
    st.pc.append(And(a > -BIGPOS, a < BIGPOS, b > -BIGPOS, b < BIGPOS))
    t.expect(t.run(st, [a, b]), raises=[(True, ('IndexError',))])
    t.normal = 1
