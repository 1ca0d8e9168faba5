"""shared contracts: segments, the builder"""
from vc import *
LIM = 1 << 32            # messages under construction are assumed smaller than this (30-bit word offsets)
BLD = 'capnpy.segment.builder:SegmentBuilder'

def mksegment(t, st, cls='BaseSegment', name='buf', **kw):
    n = fresh('len_' + name)
    st.pc.append(And(n >= 0, n <= SS[1] - 64))
    b = Seq(n, Store(n, name))
    a = dict(buf=b, **kw)
    if t.pyx: a['cbuf'] = Ptr(b, 0)
    return st.new(cls, **a), b
def offset_of(t, st, name='off'):
    o = fresh(name)
    if t.pyx: st.pc.append(inss(o))
    return o

# ------------------------------------------------------------------ the builder
def mkbuilder(t, st, aligned=False):
    "an arbitrary builder satisfying its invariant; returns (ref, end)"
    e = fresh('end')
    st.pc.append(And(e >= 0, e < LIM))
    if aligned: st.pc.append(e % 8 == 0)
    if t.pyx:
        n = fresh('cap')
        st.pc.append(And(n >= e, n < 1 << 40))
        ba = BM.new_bytearray(st, Store(n, None, ((0, e, ('copy', Store(e, 'dst'), 0)),)))
        b = st.new('SegmentBuilder', buf=ba, cbuf=Ptr(st.get(ba, 'sid'), 0), length=n, end=e)
    else:
        ba = BM.new_bytearray(st, Store(e, 'dst'))
        b = st.new('SegmentBuilder', buf=ba)
    return b, e
def bsid(st, b): return st.get(st.get(b, 'buf'), 'sid')
def bstore(st, b): return st.stores[bsid(st, b)]
def bend(st, b): return st.get(b, 'end') if 'end' in st.heap[b.id] else bstore(st, b).len

def binv(t, s, b):
    "the class invariant"
    if t.pyx:
        h = s.heap[b.id]
        st = bstore(s, b)
        ok = isinstance(h['cbuf'], Ptr) and h['cbuf'].base == bsid(s, b)
        yield 'inv/buffer-pointer', And(ok, zi(h['cbuf'].off) == 0) if ok else False
        yield 'inv/capacity', And(zi(h['length']) == zi(st.len), zi(h['end']) >= 0, zi(h['end']) <= zi(h['length']))
        j = fresh('z')
        yield 'inv/zero-tail', Implies(And(j >= zi(h['end']), j < zi(st.len)), st.at(j) == 0)
def same_until(s, b, old, hi, lo=0, name='old-bytes'):
    yield name, same_bytes(s, bstore(s, b), old, lo, hi)
def zero_in(s, b, lo, hi):
    j = fresh('z')
    return Implies(And(j >= zi(lo), j < zi(hi)), bstore(s, b).at(j) == 0)

def grow(ex, st, b, n, writes=()):
    """effect of an allocation of n bytes: the end moves, everything before is unchanged except the given writes
    (lo, hi, content); the buffer may have moved"""
    old, e = bstore(st, b), bend(st, b)
    e2 = simp(zi(e) + zi(n))
    st.pc.append(zb(And(e2 < LIM)) if not isinstance(e2, int) else Z.BoolVal(e2 < LIM))
    sid = bsid(st, b)
    if 'end' in st.heap[b.id]:
        cap = fresh('cap')
        st.pc.append(And(cap >= zi(e2), cap < 1 << 40))
        ns = Store(cap, None, ((0, e, ('copy', old, 0)),))
        # keep earlier layers readable: same layers over a longer zero-tailed store
        ns = Store(cap, old.base, ((e, cap, ('zero',)),) + old.ents)
        nid = BM.new_sid(st, ns)
        st.stores[sid] = Store(old.len, old.base, old.ents, live=False)
        ba = st.get(b, 'buf')
        st.heap[ba.id] = dict(st.heap[ba.id], sid=nid)
        st.heap[b.id] = dict(st.heap[b.id], cbuf=Ptr(nid, 0), length=cap, end=e2)
        st.facts = [f.move(nid) if f.sid == sid else f for f in st.facts]
        sid = nid
    else:
        st.stores[sid] = Store(e2, old.base, ((e, e2, ('zero',)),) + old.ents)
    for lo, hi, c in writes:
        st.stores[sid] = st.stores[sid].write(lo, hi, c)
        ex.touch(st, sid, lo, hi)
    return e

@contract(BLD + '.allocate')
class Allocate(Contract):
    def apply(self, ex, st, env):
        n = env['length']
        ex.ob('allocate/pre/length', st, And(zi(n) >= 0))
        st.pc.append(zb(zi(n) >= 0))
        yield st, grow(ex, st, env['self'], n)
@task(BLD + '.allocate', ['C03', 'C04', 'C05'])
def allocate(t):
    st = t.st()
    b, e = mkbuilder(t, st)
    n = fresh('n')
    st.pc.append(And(n >= 0, zi(e) + n < LIM))
    old = bstore(st, b)
    def ret(s, v):
        yield 'result', zi(v) == zi(e)
        yield 'end', zi(bend(s, b)) == zi(e) + n
        for x in same_until(s, b, old, e): yield x
        yield 'zeroed', zero_in(s, b, e, zi(e) + n)
        for x in binv(t, s, b): yield x
    t.expect(t.run(st, [b, n]), ret=ret)

@task(BLD + '.__init__', ['C03'], modes=('py',), name='SegmentBuilder()')
@task(BLD + '.__cinit__', ['C03'], modes=('pyx',), name='SegmentBuilder()')
def init(t):
    st = t.st()
    ln = fresh('length')
    st.pc.append(And(ln >= 0, ln < LIM))
    c = t.w.module('capnpy.segment.builder').classes['SegmentBuilder']
    outs = list(BM.construct(t.ex, ClsV('SegmentBuilder', c), st, [ln], {}))
    def ret(s, b):
        yield 'empty', zi(bend(s, b)) == 0
        for x in binv(t, s, b): yield x
    t.expect(outs, ret=ret)
@task(BLD + '.as_string', ['C03'])
def as_string(t):
    st = t.st()
    b, e = mkbuilder(t, st)
    old = bstore(st, b)
    def ret(s, v):
        q = BM.as_seq(t.ex, s, v)
        yield 'length', zi(q.len) == zi(e)
        yield 'bytes', same_bytes(s, q.store, old, 0, e)
    t.expect(t.run(st, [b]), ret=ret)
@task(BLD + '.get_length', ['C03'])
def get_length(t):
    st = t.st()
    b, e = mkbuilder(t, st)
    t.expect(t.run(st, [b]), ret=lambda s, v: [('result', zi(v) == zi(e))])

def unchanged(t, s, b, e, old, lo, hi, want):
    "exactly the bytes [lo, hi) are rewritten as in store want"
    yield 'end', zi(bend(s, b)) == zi(e)
    yield 'bytes', same_bytes(s, bstore(s, b), want, 0, e)
    for x in binv(t, s, b): yield x
def spec_write(t, outs, b, e, i, k, val):
    n = SIZE_OF[k]
    old = Store(e, 'dst')
    if isint(val) and k not in 'fd':
        lo, hi = krange(k)
        over = Or(zi(val) < lo, zi(val) > hi)
    elif k == 'f' and not t.pyx: over = Not(ufn('fits_float', FV, BOOL)(val))
    else: over = False
    want = old.write(i, simp(zi(i) + n), ('enc', k, val))
    t.expect(outs, raises=[(over, ('OverflowError', 'struct.error'))], ret=lambda s, v: unchanged(t, s, b, e, old, i, zi(i) + n, want))
WK = dict(int8='b', uint8='B', int16='h', uint16='H', int32='i', uint32='I', int64='q', uint64='Q', float32='f', float64='d')
def position(t, st, e, n):
    i = fresh('i')
    st.pc.append(And(i >= 0, i + n <= zi(e)))
    return i
for nm in WK:
    @task(BLD + '.write_' + nm, ['C03', 'C12'])
    def write(t, nm=nm):
        st = t.st()
        b, e = mkbuilder(t, st)
        k = WK[nm]
        i = position(t, st, e, SIZE_OF[k])
        val = freshf('val') if k in 'fd' else fresh('val')
        spec_write(t, t.run(st, [b, i, val]), b, e, i, k, val)
@task(BLD + '.write_generic', ['C03', 'C12'], variants=tuple('qQdfiIhHbB'))
def write_generic(t):
    st = t.st()
    b, e = mkbuilder(t, st)
    k = t.variant
    i = position(t, st, e, SIZE_OF[k])
    val = freshf('val') if k in 'fd' else fresh('val')
    spec_write(t, t.run(st, [b, ord(k), i, val]), b, e, i, k, val)
@task(BLD + '.write_bool', ['C03', 'C12'], variants=tuple((k, v) for k in range(8) for v in (False, True)))
def write_bool(t):
    k, v = t.variant
    st = t.st()
    b, e = mkbuilder(t, st)
    i = position(t, st, e, 1)
    old = Store(e, 'dst')
    def ret(s, r):
        new, was = bstore(s, b).at(i), old.at(i)
        for m in range(8):
            yield 'bit%d' % m, (new / (1 << m)) % 2 == (Z.IntVal(1) if (m == k and v) else (was / (1 << m)) % 2)
        j = fresh('j')
        yield 'other-bytes', Implies(And(j >= 0, j < zi(e), j != i), bstore(s, b).at(j) == old.at(j))
        yield 'end', zi(bend(s, b)) == zi(e)
        for x in binv(t, s, b): yield x
    st.pc.append(And(old.at(i) >= 0, old.at(i) <= 255))
    t.expect(t.run(st, [b, i, k, v]), ret=ret)
@task(BLD + '.write_slice', ['C03', 'C04', 'C05'])
def write_slice(t):
    st = t.st()
    b, e = mkbuilder(t, st)
    src, sb = mksegment(t, st, name='src')
    i, start, n = fresh('i'), fresh('start'), fresh('n')
    st.pc.append(And(n >= 0, i >= 0, i + n <= zi(e), start >= 0, start + n <= zi(sb.len)))
    old = Store(e, 'dst')
    want = old.write(i, i + n, ('copy', sb.store, start - i))
    t.expect(t.run(st, [b, i, src, start, n]), ret=lambda s, v: unchanged(t, s, b, e, old, i, i + n, want))
@contract(BLD + '.write_slice')
class WriteSlice(Contract):
    def apply(self, ex, st, env):
        b, src, i, start, n = [env[k] for k in ('self', 'src', 'i', 'start', 'n')]
        q = st.get(src, 'buf')
        pre = And(zi(n) >= 0, zi(i) >= 0, zi(i) + zi(n) <= zi(bend(st, b)), zi(start) >= 0, zi(start) + zi(n) <= zi(q.len))
        ex.ob('write_slice/pre', st, pre, 'the copied range lies inside the source and the destination')
        st.pc.append(zb(pre))
        hi = simp(zi(i) + zi(n))
        st.stores[bsid(st, b)] = bstore(st, b).write(i, hi, ('copy', q.store, simp(zi(start) - zi(i))))
        ex.touch(st, bsid(st, b), i, hi)
        yield st, None

# ---- allocations with a pointer
def alloc_pre(e, pos): return And(zi(e) % 8 == 0, zi(pos) % 8 == 0, zi(pos) >= 0, zi(pos) + 8 <= zi(e))
def alloc_post(t, s, b, e, pos, v, size, fields, old):
    yield 'result', zi(v) == zi(e)
    yield 'end', zi(bend(s, b)) == zi(e) + zi(size)
    w = bstore(s, b).dec(t.ex, s, 'q', pos)
    for k, x in fields: yield 'pointer/' + k, zi(BM.P(k, w, s)) == zi(x)
    yield 'pointer/target', zi(pos) + 8 + 8 * zi(BM.P('offset', w, s)) == zi(e)
    j = fresh('j')
    yield 'old-bytes', Implies(And(j >= 0, j < zi(e), Or(j < zi(pos), j >= zi(pos) + 8)), bstore(s, b).at(j) == old.at(j))
    for x in binv(t, s, b): yield x
def new_word(ex, st, fields, pos, target):
    "a word with the given fields whose target, seen from pos, is target"
    w = fresh('word')
    st.pc.append(And(w >= SS[0], w <= SS[1]))
    for k, x in fields: st.pc.append(zi(BM.P(k, w, st)) == zi(x))
    st.pc.append(zi(pos) + 8 + 8 * zi(BM.P('offset', w, st)) == zi(target))
    return w

@task(BLD + '.alloc_struct', ['C03', 'C04', 'C12'])
def alloc_struct(t):
    st = t.st()
    b, e = mkbuilder(t, st)
    pos, d, p = fresh('pos'), fresh('dsz'), fresh('psz')
    st.pc.append(And(alloc_pre(e, pos), d >= 0, d < 65536, p >= 0, p < 65536, zi(e) + 8 * (d + p) < LIM))
    old = Store(e, 'dst')
    def ret(s, v):
        for x in alloc_post(t, s, b, e, pos, v, 8 * (d + p), [('kind', 0), ('dsz', d), ('psz', p)], old): yield x
        yield 'zeroed', zero_in(s, b, e, zi(e) + 8 * (d + p))
    t.expect(t.run(st, [b, pos, d, p]), ret=ret)
@contract(BLD + '.alloc_struct')
class AllocStruct(Contract):
    def apply(self, ex, st, env):
        b, pos, d, p = [env[k] for k in ('self', 'pos', 'data_size', 'ptrs_size')]
        e = bend(st, b)
        pre = And(alloc_pre(e, pos), zi(d) >= 0, zi(d) < 65536, zi(p) >= 0, zi(p) < 65536)
        ex.ob('alloc_struct/pre', st, pre)
        st.pc.append(zb(pre))
        w = new_word(ex, st, [('kind', 0), ('dsz', d), ('psz', p)], pos, e)
        yield st, grow(ex, st, b, simp(8 * (zi(d) + zi(p))), [(pos, simp(zi(pos) + 8), ('enc', 'q', w))])

def rup(x): return simp(((zi(x) + 7) / 8) * 8)
@task(BLD + '.alloc_list', ['C03', 'C04', 'C12'])
def alloc_list(t):
    st = t.st()
    b, e = mkbuilder(t, st)
    pos, tag, cnt, body = fresh('pos'), fresh('tag'), fresh('cnt'), fresh('body')
    st.pc.append(And(alloc_pre(e, pos), tag >= 0, tag < 8, cnt >= 0, cnt < 1 << 62, body >= 0, zi(e) + body + 8 < LIM))
    old = Store(e, 'dst')
    n = rup(body)
    def ret(s, v):
        for x in alloc_post(t, s, b, e, pos, v, n, [('kind', 1), ('ltag', tag), ('lcnt', cnt)], old): yield x
        yield 'zeroed', zero_in(s, b, e, zi(e) + n)
        yield 'word-sized', And(n % 8 == 0, n >= body, n < body + 8)
    t.expect(t.run(st, [b, pos, tag, cnt, body]), raises=[(cnt > 0x1fffffff, ('ValueError',))], ret=ret)
@contract(BLD + '.alloc_list')
class AllocList(Contract):
    def apply(self, ex, st, env):
        b, pos, tag, cnt, body = [env[k] for k in ('self', 'pos', 'size_tag', 'item_count', 'body_length')]
        e = bend(st, b)
        pre = And(alloc_pre(e, pos), zi(tag) >= 0, zi(tag) < 8, zi(cnt) >= 0, zi(body) >= 0)
        ex.ob('alloc_list/pre', st, pre)
        st.pc.append(zb(pre))
        for s, ok in ex.branch(st, zi(cnt) <= 0x1fffffff):
            if not ok:
                yield s, Exc('ValueError')
                continue
            w = new_word(ex, s, [('kind', 1), ('ltag', tag), ('lcnt', cnt)], pos, e)
            yield s, grow(ex, s, b, rup(body), [(pos, simp(zi(pos) + 8), ('enc', 'q', w))])

def text_task(t, zero):
    st = t.st()
    b, e = mkbuilder(t, st)
    pos = fresh('pos')
    st.pc.append(alloc_pre(e, pos))
    old = Store(e, 'dst')
    if t.variant == 'None':
        want = old.write(pos, pos + 8, ('zero',))
        t.expect(t.run(st, [b, pos, None]), ret=lambda s, v: [('result', zi(v) == -1)] + list(unchanged(t, s, b, e, old, pos, pos + 8, want)))
        return
    if t.variant == 'number':
        t.normal = 1
        return t.expect(t.run(st, [b, pos, fresh('number')]), raises=[(True, ('TypeError',))])
    n = fresh('n')
    st.pc.append(And(n >= 0, n < 1 << 30, zi(e) + n + 16 < LIM))
    txt = Seq(n, Store(n, 'text'))
    nn = n + zero
    size = rup(nn)
    def ret(s, v):
        for x in alloc_post(t, s, b, e, pos, v, size, [('kind', 1), ('ltag', 2), ('lcnt', nn)], old): yield x
        j = fresh('j')
        yield 'text-bytes', Implies(And(j >= 0, j < n), bstore(s, b).at(zi(e) + j) == txt.store.at(j))
        yield 'rest-zero', Implies(And(j >= n, j < size), bstore(s, b).at(zi(e) + j) == 0)
    t.expect(t.run(st, [b, pos, txt]), raises=[(nn > 0x1fffffff, ('ValueError',))], ret=ret)
@task(BLD + '.alloc_text', ['C03', 'C12'], variants=('None', 'bytes', 'number'))
def alloc_text(t): text_task(t, 1)
@task(BLD + '.alloc_data', ['C03', 'C12'], variants=('None', 'bytes', 'number'))
def alloc_data(t): text_task(t, 0)
@contract(BLD + '.alloc_text')
class AllocText(Contract):
    def apply(self, ex, st, env):
        b, pos, txt, zero = env['self'], env['pos'], env['s'], env['trailing_zero']
        e = bend(st, b)
        pre = alloc_pre(e, pos)
        ex.ob('alloc_text/pre', st, pre)
        st.pc.append(zb(pre))
        if txt is None:
            hi = simp(zi(pos) + 8)
            st.stores[bsid(st, b)] = bstore(st, b).write(pos, hi, ('zero',))
            ex.touch(st, bsid(st, b), pos, hi)
            yield st, -1
            return
        if isint(txt) or isfloat(txt):
            yield st, Exc('TypeError')
            return
        q = BM.as_seq(ex, st, txt)
        if q is None: raise Unsupported('alloc_text of %r' % (txt,))
        nn = simp(zi(q.len) + zi(zero))
        for s, ok in ex.branch(st, zi(nn) <= 0x1fffffff):
            if not ok:
                yield s, Exc('ValueError')
                continue
            w = new_word(ex, s, [('kind', 1), ('ltag', 2), ('lcnt', nn)], pos, e)
            yield s, grow(ex, s, b, rup(nn), [(pos, simp(zi(pos) + 8), ('enc', 'q', w)), (e, simp(zi(e) + zi(q.len)), ('copy', q.store, simp(-zi(e))))])
