"""C17: the native hashes. The specification is the interpreter's own algorithm: hash(int) = sign * (|v| mod 2**61-1), -1 becoming -2;
hash(bytes) is an uninterpreted function of the byte string; hash(tuple) is CPython's xxHash-based combination (3.8+)."""
from vc import *
import bvexec as B, cconst
H = 'capnpy._hash'
M61 = (1 << 61) - 1
HASHB = ufn('hash_bytes', OV, INT)
def spec_int(v): return Z.If(v >= 0, v % M61, Z.If((-v) % M61 == 1, Z.IntVal(-2), -((-v) % M61)))
def consts(t):
    BM.VALUES[H] = dict(cconst.values(t.w.root, '_hash.h', ('HASH_MASK', 'MINLONG', 'PY_MAJOR_VERSION')))
    BM.CALLS['c.strhash_f'] = strhash_f
class Hashed(object):
    "hash of the bytes of a store from lo, n of them"
    def __init__(self, store, lo, n): self.store, self.lo, self.n = store, lo, n
def hash_bytes(ex, s, b, lo, n):
    "the term hash(b[lo:lo+n]): one term per byte string; equal strings give equal terms by the axiom added here"
    h = fresh('hash')
    s.pc.append(And(h >= SS[0], h <= SS[1]))
    for (st2, lo2, n2, h2) in s.ghost.get('hashes', ()):
        j = fresh('j')
        if st2 is b: s.pc.append(Z.Implies(Z.And(zi(n) == zi(n2), Z.Or(zi(lo) == zi(lo2), zi(n) == 0)), h == h2))
    s.ghost['hashes'] = s.ghost.get('hashes', ()) + ((b, lo, n, h),)
    s.pc.append(Z.Implies(zi(n) == 0, h == 0))
    return h
def strhash_f(ex, st, args, kw):
    "assumed: _Py_HashBytes(p, n) is hash(bytes(p[0:n])) for n >= 0"
    p, n = args
    b = BM.region(ex, st, p, n, 'read')
    ex.trusted.add('_Py_HashBytes')
    yield st, hash_bytes(ex, st, b, p.off, n)

@task(H + ':inthash', ['C17', 'C16'], modes=('pyx',))
def inthash(t):
    consts(t)
    st = t.st()
    v = fresh('v')
    st.pc.append(inss(v))
    t.expect(t.run(st, [v]), ret=lambda s, r: [('hash', zi(r) == spec_int(v))])
@task(H + ':longhash', ['C17', 'C16'], modes=('pyx',))
def longhash(t):
    consts(t)
    st = t.st()
    v = fresh('v')
    st.pc.append(And(v >= 0, v < 1 << 64))
    t.expect(t.run(st, [v]), ret=lambda s, r: [('hash', zi(r) == spec_int(v))])
@task(H + ':strhash', ['C17', 'C16'], modes=('pyx',))
def strhash(t):
    consts(t)
    st = t.st()
    n, start, size = fresh('len'), fresh('start'), fresh('size')
    st.pc.append(And(n >= 0, n <= SS[1], inss(start), inss(size)))
    a = Seq(n, Store(n, 'a'))
    def ret(s, r):
        # a[start:start+size] for start, size >= 0
        lo = Ite(start > n, n, start)
        ln = Ite(n - lo < size, n - lo, size)
        yield 'hash-of-slice', Implies(And(start >= 0, size >= 0), zi(r) == hash_bytes(t.ex, s, a.store, lo, ln))
    t.expect(t.run(st, [a, start, size]), ret=ret)
@task(H + ':aliases', ['C17', 'C16'], modes=('py',))
def aliases(t):
    "the pure versions are the interpreter's hash itself, strhash that of the slice"
    m = t.w.module(H)
    for n in ('inthash', 'longhash', '__tuplehash_for_tests'):
        k = m.names.get(n)
        if not (k and k[0] == 'expr' and k[1].op == 'name' and k[1].a[0] == 'hash' and 'hash' not in m.names): raise Unsupported('%s is not hash' % n)
        t.ex.ob('ensures/%s' % n, t.st(), True)
    t.normal = 1

# ---- the tuple hash: CPython 3.8+'s tuplehash as the specification (Objects/tupleobject.c)
P1, P2, P5 = 11400714785074694791, 14029467366897019727, 2870177450012600261
def w64(n): return Z.BitVecVal(n, 64)
ACC = Z.Function('ACC', Z.BitVecSort(64), Z.BitVecSort(64))      # spec accumulator after i items
LANE = Z.Function('item_hash', Z.BitVecSort(64), Z.BitVecSort(64))
def step(acc, lane):
    acc = acc + lane * w64(P2)
    return Z.RotateLeft(acc, 31) * w64(P1)
def final(acc, n):
    acc = acc + (n ^ (w64(P5) ^ w64(3527539)))
    return Z.If(acc == w64(2 ** 64 - 1), w64(1546275796), acc)

@task(H + ':_cpython_tuplehash', ['C17', 'C16'], modes=('pyx',))
def tuplehash(t):
    src = open(os.path.join(t.w.root, 'capnpy', '_hash_cpython.c')).read()
    fs = B.c_functions('#include <Python.h>\n' + src, ('-I/usr/include/python3.12',))
    ev = B.CEval(fs)
    name = '_cpython_tuplehash'
    body = ev.body(name)['inner']
    (ha, _), (ln, lty) = ev.params(name)
    n = Z.BitVec('len', 64)
    st = t.st()
    st.pc.append(Z.And(n >= 0, n < 1 << 40))
    inb = []
    def item(i, pc):
        inb.append((pc, Z.And(i.t >= 0, i.t < n)))
        return B.CV(LANE(i.t), True)
    env = {ha: item, ln: B.CV(n, True)}
    loops = [k for k, s in enumerate(body) if s['kind'] in ('ForStmt', 'WhileStmt', 'DoStmt')]
    if len(loops) != 1: raise Unsupported('one loop expected')
    out = []
    states = [(Z.BoolVal(True), env)]
    for s in body[:loops[0]]: states = [y for c, e in states for y in ev.stmt(s, e, c, out)]
    if len(states) != 1 or out: raise Unsupported('branches before the loop')
    e0 = states[0][1]
    L = body[loops[0]]
    if L['kind'] != 'ForStmt': raise Unsupported('for loop expected')
    init, _, cond, inc, bd = L['inner']
    if init: e0 = ev.stmt(init, e0, Z.BoolVal(True), out)[0][1]
    # loop invariant: i in [0, len], acc = ACC(i); the items hashed so far are not -1 (hash values never are)
    carried = [k for k in e0 if k not in (ha, ln)]
    idx = [k for k in carried if e0[k].signed and B.Z.simplify(e0[k].t == 0) is not None and Z.is_true(Z.simplify(e0[k].t == 0))]
    accs = [k for k in carried if k not in idx]
    if len(idx) != 1 or len(accs) != 1: raise Unsupported('loop variables')
    i_, a_ = idx[0], accs[0]
    t.ex.ob('loop/init', st, e0[a_].t == w64(P5))
    i = Z.BitVec('i', 64)
    h = dict(e0)
    h[i_], h[a_] = B.CV(i, True), B.CV(ACC(i), False)
    inv = Z.And(i >= 0, i <= n)
    c = ev.truth(ev.ev(cond, h, inv))
    st2 = st.fork(inv, c, LANE(i) != w64(2 ** 64 - 1), ACC(i + 1) == step(ACC(i), LANE(i)))
    out2 = []
    ends = ev.stmt(bd, h, Z.BoolVal(True), out2)
    for pc, v in out2: t.ex.ob('loop/no-early-exit', st2, Z.Not(pc))
    for pc, e in ends:
        e = dict(e)
        ev.ev(inc, e, pc)
        t.ex.ob('loop/preserved-index', st2, Z.Implies(pc, Z.And(e[i_].t == i + 1, e[i_].t <= n)))
        t.ex.ob('loop/preserved-accumulator', st2, Z.Implies(pc, e[a_].t == step(ACC(i), LANE(i))))
    for pc, g in inb: t.ex.ob('loop/item-in-bounds', st2, Z.Implies(pc, g))
    for nm, pc, g in ev.side: t.ex.ob_c('wellformed/' + nm, st2, Z.Implies(pc, g))
    ev.side = []
    st3 = st.fork(inv, Z.Not(c))
    t.ex.ob('loop/exit', st3, i == n)
    st3.pc.append(i == n)
    out3 = []
    fin = [(Z.BoolVal(True), h)]
    for s in body[loops[0] + 1:]: fin = [y for c2, e in fin for y in ev.stmt(s, e, c2, out3)]
    if fin: raise Unsupported('no return')
    for pc, v in out3: t.ex.ob('ensures/tuple-hash', st3, Z.Implies(pc, v.t == final(ACC(n), n)))
    t.normal = 1
@task(H + ':tuplehash', ['C17', 'C16'], modes=('pyx',))
def tuplehash_entry(t):
    "tuplehash(hashes, n) is _cpython_tuplehash(hashes, n)"
    st = t.st()
    seen = []
    res = fresh('r')
    def stub(ex, s, args, kw):
        seen.append(tuple(args))
        s.pc.append(inss(res))
        yield s, res
    BM.CALLS['c._cpython_tuplehash'] = stub
    n = fresh('n')
    st.pc.append(inss(n))
    p = Ptr(Seq(8 * n, Store(8 * n, 'hashes')), 0)
    t.expect(t.run(st, [p, n]), ret=lambda s, r: [('delegates', And(zi(r) == res, len(seen) == 1 and seen[0][0] is p and seen[0][1] is n))])
