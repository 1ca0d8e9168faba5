"""C06: endof. Specification: END(p, pos), a recursive function on the message that gives the end of the object that pointer p at pos designates, or -1 when the
object is not one gap-free block; the contract of endof is: the result is -1 or END(p, pos). A lemma (by induction on END) shows that END(p, pos) = e != -1
implies that all the object lies in [start, e), no pointer leaves it and none is far; a second one that such a block can be moved."""
from vc import *
from contracts.common import mksegment
EO = 'capnpy.segment.endof'
END, CH, CCH = ufn('END', INT, INT, INT), ufn('CHAIN', INT, INT, INT, INT), ufn('CCHAIN', INT, INT, INT, INT, INT, INT)
def word(ex, s, seg, pos): return s.get(seg, 'buf').store.dec(ex, s, 'q', pos)
def rup8(x): return ((zi(x) + 7) / 8) * 8

def chain_base(s, off, e0): s.pc.append(CH(zi(off), zi(e0), 0) == zi(e0))
def chain_step(ex, s, seg, off, e0, k):
    "CHAIN(off, e0, k): end after the first k pointers at off, children from e0 on; -1: not gap-free"
    off, e0, k = zi(off), zi(e0), zi(k)
    pos = simp(off + 8 * k)
    w = word(ex, s, seg, pos)
    c = CH(off, e0, k)
    s.pc.append(CH(off, e0, k + 1) == Z.If(zi(w) == 0, c, Z.If(Z.Or(c == -1, zi(pos) + 8 + 8 * zi(BM.P('offset', w, s)) != c), Z.IntVal(-1), END(zi(w), zi(pos)))))
def cchain_base(s, S, cnt, d, q):
    S, cnt, d, q = map(zi, (S, cnt, d, q))
    s.pc.append(CCH(S, cnt, d, q, 0) == S + 8 + 8 * (d + q) * cnt)
def cchain_step(s, S, cnt, d, q, k):
    S, cnt, d, q, k = map(zi, (S, cnt, d, q, k))
    c = CCH(S, cnt, d, q, k)
    s.pc.append(CCH(S, cnt, d, q, k + 1) == Z.If(c == -1, Z.IntVal(-1), CH(S + 8 + 8 * (d + q) * k + 8 * d, c, q)))
def end_def(ex, s, seg, p, pos):
    "the definition of END at (p, pos)"
    f = {k: zi(BM.P(k, p, s)) for k in ('kind', 'offset', 'dsz', 'psz', 'ltag', 'lcnt')}
    S = zi(pos) + 8 + 8 * f['offset']
    tag = word(ex, s, seg, simp(S))
    g = {k: zi(BM.P(k, tag, s)) for k in ('offset', 'dsz', 'psz')}
    n = f['lcnt']
    prim = Z.IntVal(0)
    for t_, b in ((2, 1), (3, 2), (4, 4), (5, 8)): prim = Z.If(f['ltag'] == t_, Z.IntVal(b), prim)
    struct_ = CH(S + 8 * f['dsz'], S + 8 * f['dsz'] + 8 * f['psz'], f['psz'])
    comp = Z.If(Z.Or(g['offset'] < 0, g['offset'] * (g['dsz'] + g['psz']) != n), Z.IntVal(-1),
                Z.If(g['psz'] == 0, S + 8 + 8 * (g['dsz'] + g['psz']) * g['offset'], CCH(S, g['offset'], g['dsz'], g['psz'], g['offset'])))
    lst = Z.If(f['ltag'] == 7, comp, Z.If(f['ltag'] == 6, CH(S, S + 8 * n, n), Z.If(f['ltag'] == 1, rup8(S + (n + 7) / 8), rup8(S + prim * n))))
    s.pc.append(END(zi(p), zi(pos)) == Z.If(f['kind'] == 0, struct_, Z.If(f['kind'] == 1, lst, Z.IntVal(-1))))
    chain_base(s, S + 8 * f['dsz'], S + 8 * f['dsz'] + 8 * f['psz'])
    chain_base(s, S, S + 8 * n)
    cchain_base(s, S, g['offset'], g['dsz'], g['psz'])
    if ex.unroll_bound: unfold(ex, s, seg, S, f, g)
    return f, S, g
def unfold(ex, s, seg, S, f, g):
    "the first steps of the chains, written out (used when loops are followed without invariants)"
    K = range(ex.unroll_bound + 1)
    cnt, d, q, n = g['offset'], g['dsz'], g['psz'], f['lcnt']
    for k in K:
        chain_step(ex, s, seg, S + 8 * f['dsz'], S + 8 * f['dsz'] + 8 * f['psz'], k)
        chain_step(ex, s, seg, S, S + 8 * n, k)
        cchain_step(s, S, cnt, d, q, k)
        off, c = S + 8 + 8 * (d + q) * k + 8 * d, CCH(S, cnt, d, q, k)
        chain_base(s, off, c)
        for j in K: chain_step(ex, s, seg, off, c, j)
BIG, PBIG = 1 << 61, 1 << 60

@contract(EO + ':endof')
class Endof(Contract):
    def apply(self, ex, st, env):
        p, pos = env['p'], env['offset']
        ex.ob('endof/pre/aligned', st, And(zi(pos) % 8 == 0, zi(pos) >= -PBIG, zi(pos) <= PBIG))
        r = fresh('endof')
        st.pc.append(Or(r == -1, r == END(zi(p), zi(pos))))
        st.pc.append(And(r >= -BIG, r <= BIG))
        # lemma/inside: a compact object ends on a word boundary at or after its start
        S = zi(pos) + 8 + 8 * zi(BM.P('offset', p, st))
        st.pc.append(Implies(r != -1, And(r % 8 == 0, r >= S, Implies(zi(BM.P('kind', p, st)) == 0, r >= S + 8 * (zi(BM.P('dsz', p, st)) + zi(BM.P('psz', p, st)))))))
        st.ghost = dict(st.ghost, endof=st.ghost.get('endof', ()) + ((p, pos, r),))
        yield st, r
        yield st.fork(), Exc('IndexError')
        yield st.fork(), Exc('AssertionError')

@loop(EO + ':_endof_ptrs')
class PtrsLoop(LoopSpec):
    def inv(self, ex, st0, s, k):
        seg, off, e0 = st0.env['seg'], st0.env['offset'], st0.env['current_end']
        chain_base(s, off, e0)
        chain_step(ex, s, seg, off, e0, k if isint(k) and conc(k) is not None else zi(k))
        if conc(k) is None: chain_step(ex, s, seg, off, e0, zi(k) - 1)
        c = CH(zi(off), zi(e0), zi(k))
        e = zi(s.env['current_end'])
        yield 'index', zi(k) <= Z.If(zi(st0.env['ptrs_size']) > 0, zi(st0.env['ptrs_size']), 0)
        yield 'end-so-far', And(Or(e == -1, e == c), Implies(zi(e0) == -1, e == -1))
        yield 'range', And(e >= -BIG, e <= BIG)
@loop(EO + ':_endof_list_composite')
class CompositeLoop(LoopSpec):
    def inv(self, ex, st0, s, k):
        S = simp(zi(st0.env['offset']) - 8)
        cnt, d, q = st0.env['count'], st0.env['data_size'], st0.env['ptrs_size']
        cchain_base(s, S, cnt, d, q)
        cchain_step(s, S, cnt, d, q, k)
        if conc(k) is None: cchain_step(s, S, cnt, d, q, zi(k) - 1)
        e = zi(s.env['end'])
        yield 'index', zi(k) <= Z.If(zi(cnt) > 0, zi(cnt), 0)
        yield 'end-so-far', Or(e == -1, e == CCH(zi(S), zi(cnt), zi(d), zi(q), zi(k)))
        yield 'range', And(e >= -BIG, e <= BIG)

@task(EO + ':endof', ['C06', 'C07', 'C19'], weight=5)
def endof(t):
    st = t.st()
    seg, b = mksegment(t, st, cls='Segment')
    st.pc.append(b.len < 1 << 60)
    p, pos = fresh('p'), fresh('pos')
    st.pc.append(And(inss(p), pos >= -PBIG, pos <= PBIG, pos % 8 == 0))
    end_def(t.ex, st, seg, p, pos)
    def ret(s, r):
        yield 'end', Or(zi(r) == -1, zi(r) == END(p, pos))
        yield 'range', And(zi(r) >= -BIG, zi(r) <= BIG)
    t.expect(t.run(st, [seg, p, pos]), ret=ret, maybe=[(True, ('IndexError', 'AssertionError'))])

# ------------------------------------------------------------------ lemmas over the contract
INSIDE = Z.Function('INSIDE', INT, INT, INT, INT, BOOL)     # INSIDE(p, pos, lo, hi): all of the object lies in [lo, hi), no far pointer in it
def lemma_setup(t):
    st = t.st()
    seg, b = mksegment(t, st, cls='Segment')
    return st, seg, b
def child(ex, s, seg, off, e0, i):
    "chain element i: (slot, word, start of the child, end before, end after)"
    pos = zi(off) + 8 * zi(i)
    w = word(ex, s, seg, simp(pos))
    chain_step(ex, s, seg, off, e0, i)
    return pos, w, pos + 8 + 8 * zi(BM.P('offset', w, s)), CH(zi(off), zi(e0), zi(i)), CH(zi(off), zi(e0), zi(i) + 1)
def ih(s, w, pos, start):
    "induction hypothesis: the lemma for a child (END is a finite recursion)"
    e = END(zi(w), pos)
    s.pc.append(Implies(e != -1, And(e >= start, e % 8 == 0, INSIDE(zi(w), pos, start, e))))
def mono(s, w, pos, lo, hi, lo2, hi2): s.pc.append(Implies(And(INSIDE(zi(w), pos, lo, hi), lo2 <= lo, hi <= hi2), INSIDE(zi(w), pos, lo2, hi2)))

@task(EO + ':lemma/chain', ['C06'], modes=('py',))
def lemma_chain(t):
    "along a chain the ends do not decrease, -1 is absorbing, and every child lies between the end before it and the end after it"
    st, seg, b = lemma_setup(t)
    off, e0, k = fresh('off'), fresh('e0'), fresh('k')
    st.pc.append(And(off % 8 == 0, e0 % 8 == 0, k >= 0))
    pos, w, start, c, c2 = child(t.ex, st, seg, off, e0, k)
    ih(st, w, pos, start)
    chain_base(st, off, e0)
    t.ex.ob('base/at-start', st, CH(off, e0, 0) == e0)
    s = st.fork(c2 != -1)
    t.ex.ob('step/defined', s, c != -1)
    s.pc.append(And(c >= e0, c % 8 == 0))           # induction hypothesis on k
    t.ex.ob('step/monotone', s, And(c2 >= c, c2 >= e0, c2 % 8 == 0))
    s2 = s.fork(zi(w) != 0)
    t.ex.ob('step/child-starts-at-end', s2, start == c)
    t.ex.ob('step/child-inside', s2, INSIDE(zi(w), pos, c, c2))
    t.normal = 1
def chain_facts(t, s, seg, off, e0, n, i):
    "what lemma/chain gives for element i of a chain of n whose final end is not -1"
    pos, w, start, c, c2 = child(t.ex, s, seg, off, e0, i)
    e = CH(zi(off), zi(e0), zi(n))
    s.pc.append(Implies(And(e != -1, zi(i) >= 0, zi(i) < zi(n)), And(c >= zi(e0), c2 >= c, e >= c2, Implies(zi(w) != 0, INSIDE(zi(w), pos, c, c2)))))
    s.pc.append(Implies(And(e != -1, zi(n) >= 0), And(e >= zi(e0), Implies(And(zi(off) % 8 == 0, zi(e0) % 8 == 0), e % 8 == 0))))
    return pos, w, c, c2
@task(EO + ':lemma/inside', ['C06', 'C07'], modes=('py',), variants=('struct', 'list-ptr', 'list-composite', 'list-flat', 'other'))
def lemma_inside(t):
    "END(p, pos) = e != -1 implies INSIDE(p, pos, start, e): body and pointer slots in [start, e), every child again INSIDE that range, kinds struct or list only"
    st, seg, b = lemma_setup(t)
    p, pos = fresh('p'), fresh('pos')
    st.pc.append(And(inss(p), pos % 8 == 0))
    f, S, g = end_def(t.ex, st, seg, p, pos)
    e = END(p, pos)
    st.pc.append(e != -1)
    i = fresh('i')
    n = f['lcnt']
    v = t.variant
    if v == 'struct':
        st.pc.append(f['kind'] == 0)
        off, e0, q = S + 8 * f['dsz'], S + 8 * f['dsz'] + 8 * f['psz'], f['psz']
        cp, w, c, c2 = chain_facts(t, st, seg, off, e0, q, i)
        mono(st, w, cp, c, c2, S, e)
        t.ex.ob('end', st, And(e >= S, e % 8 == 0))
        t.ex.ob('body', st, And(S >= S, S + 8 * (f['dsz'] + f['psz']) <= e))
        t.ex.ob('children', st.fork(i >= 0, i < q, zi(w) != 0), INSIDE(zi(w), cp, S, e))
    elif v == 'list-ptr':
        st.pc.append(And(f['kind'] == 1, f['ltag'] == 6))
        cp, w, c, c2 = chain_facts(t, st, seg, S, S + 8 * n, n, i)
        mono(st, w, cp, c, c2, S, e)
        t.ex.ob('end', st, And(e >= S, e % 8 == 0))
        t.ex.ob('body', st, S + 8 * n <= e)
        t.ex.ob('children', st.fork(i >= 0, i < n, zi(w) != 0), INSIDE(zi(w), cp, S, e))
    elif v == 'list-flat':
        st.pc.append(And(f['kind'] == 1, f['ltag'] < 6))
        bytes_ = Z.If(f['ltag'] == 1, (n + 7) / 8, Z.If(f['ltag'] == 2, n, Z.If(f['ltag'] == 3, 2 * n, Z.If(f['ltag'] == 4, 4 * n, Z.If(f['ltag'] == 5, 8 * n, 0)))))
        t.ex.ob('end', st, And(e >= S, e % 8 == 0))
        t.ex.ob('body', st, And(S + bytes_ <= e, e < S + bytes_ + 8))
    elif v == 'other':
        t.ex.ob('kinds', st, Or(f['kind'] == 0, f['kind'] == 1))
    else:
        st.pc.append(And(f['kind'] == 1, f['ltag'] == 7))
        cnt, d, q = g['offset'], g['dsz'], g['psz']
        t.ex.ob('fills-the-list', st, And(cnt >= 0, cnt * (d + q) == n))
        k = fresh('k')
        # the chain of chains: ends do not decrease (induction on k)
        def item(k): return S + 8 + 8 * (d + q) * k + 8 * d
        cchain_step(st, S, cnt, d, q, k)
        C0, C, C2 = CCH(S, cnt, d, q, 0), CCH(S, cnt, d, q, k), CCH(S, cnt, d, q, k + 1)
        s = st.fork(k >= 0, C2 != -1, q > 0)
        t.ex.ob('items/defined', s, C != -1)
        cp, w, c, c2 = chain_facts(t, s, seg, item(k), C, q, i)
        s.pc.append(And(C >= C0, C % 8 == 0))
        s.pc.append(item(k) % 8 == 0)
        t.ex.ob('items/monotone', s, And(C2 >= C, C2 >= C0, C2 % 8 == 0))
        s = st.fork(q > 0, i >= 0, i < q, k >= 0, k < cnt)
        E_ = CCH(S, cnt, d, q, cnt)
        s.pc.append(And(C >= C0, C2 >= C, E_ >= C2, C != -1, C2 != -1))     # from the induction above
        cp, w, c, c2 = chain_facts(t, s, seg, item(k), C, q, i)
        mono(s, w, cp, c, c2, S, e)
        t.ex.ob('body', s, C0 <= e)
        t.ex.ob('children', s.fork(zi(w) != 0), INSIDE(zi(w), cp, S, e))
        s = st.fork(q == 0)
        t.ex.ob('body-without-pointers', s, And(S + 8 + 8 * (d + q) * cnt <= e, e >= S))
    t.normal = 1
@task(EO + ':lemma/move', ['C06', 'C07'], modes=('py',))
def lemma_move(t):
    """a block [lo, hi) placed elsewhere: the pairs (p, pos) / (p, pos - lo) with INSIDE(p, pos, lo, hi) are closed under taking children and agree in
    everything observable, so (by coinduction) the bare range denotes an equal object"""
    st, seg, b = lemma_setup(t)
    lo, hi, pos, p, x = fresh('lo'), fresh('hi'), fresh('pos'), fresh('p'), fresh('x')
    A = b.store
    st.pc.append(And(0 <= lo, lo <= hi, hi <= b.len))
    B_ = Store(hi - lo, None, ((0, hi - lo, ('copy', A, lo)),))
    t.ex.ob('bytes', st.fork(lo <= x, x < hi), B_.at(x - lo) == A.at(x))
    s = st.fork(lo <= x, x + 8 <= hi, x % 8 == 0)
    wa, wb = A.dec(t.ex, s, 'q', x), B_.dec(t.ex, s, 'q', simp(x - lo))
    t.ex.ob('pointers', s, zi(wa) == zi(wb))
    t.ex.ob('targets', s, x + 8 + 8 * zi(BM.P('offset', wa, s)) - lo == (x - lo) + 8 + 8 * zi(BM.P('offset', wb, s)))
    t.normal = 1
