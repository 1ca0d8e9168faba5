import oracle as O, ut, struct
from core import case, enum
from capnpy.segment.builder import SegmentBuilder
from capnpy.segment.segment import Segment

def gen(r):
    depth = r.randrange(1, 6)
    return O.rand_obj(r, depth, null=r.choice([0.1, 0.3]), maxn=r.choice([2, 4]))

def prefix(r, b, n):
    m = bytearray()
    for _ in range(n):
        b.allocate(8); m.extend(bytes(8))
        v = r.getrandbits(64)
        b.write_uint64(len(m) - 8, v); m[-8:] = struct.pack('<Q', v)
    return m

def copy_and_check(T, r, segs, tree, npre):
    seg = ut.seg_of(segs)
    b = SegmentBuilder()
    m = prefix(r, b, npre)
    dst = b.allocate(8); m.extend(bytes(8))
    suffix = r.randrange(3)
    for _ in range(suffix):
        b.allocate(8); m.extend(bytes(8))
    p = ut.s64(segs[0], 0)
    b.copy_from_pointer(dst, seg, p, 0)
    out = b.as_string()
    T.ok(out[:dst] == bytes(m[:dst]) and out[dst + 8:len(m)] == bytes(m[dst + 8:]), 'copy changed what was built before')
    D = O.Decoder([out], budget=10**8)
    try:
        got = D.ptr(0, dst)
    except O.Malformed as e:
        T.ok(False, 'the copy is malformed: %s' % e, tree)
    T.eq(got, tree, 'copied object')
    F = O.FlatDecoder(out, None, lo=len(m), budget=10**8, maxdepth=200)
    at = dst + 8 + 8 * O.p_off(ut.w64(out, dst))
    if tree is not None and tree != ('struct', b'', []):
        try:
            F.obj(0, at, ut.w64(out, dst))
        except O.Malformed as e:
            T.ok(False, 'the copy reaches outside freshly allocated space: %s' % e)
        except O.DontCare:
            pass

@case('C04', 3)
def copy_pointer(T):
    r = T.rng
    tree = gen(r)
    kw = ut.opts(r)
    segs = O.encode(tree, r, **kw)
    if ut.has_double_empty(*O.flat(segs)): return
    T.note((tree, kw))
    copy_and_check(T, r, segs, tree, r.choice([0, 1, 2, 3, 60, 61, 62, 63, 64]))
    T.nontrivial(tree, kw)

@case('C04', 1)
def copy_inline(T):
    r = T.rng
    tree = O.rand_struct(r, r.randrange(1, 5))
    kw = ut.opts(r)
    kw['far'] = 0.0 if r.random() < .5 else kw.get('far', 0)
    segs = O.encode(tree, r, **kw)
    w = ut.w64(segs[0], 0)
    if O.p_kind(w) != 0: return
    if ut.has_double_empty(*O.flat(segs)): return
    T.note((tree, kw))
    seg = ut.seg_of(segs)
    b = SegmentBuilder()
    m = prefix(r, b, r.randrange(4))
    n = len(tree[1]) + 8 * len(tree[2])
    dst = b.allocate(n); m.extend(bytes(n))
    m2 = bytearray()
    b.allocate(8); m.extend(bytes(8))
    b.copy_inline_struct(dst, dst + len(tree[1]), seg, O.s64(w), 0)
    out = b.as_string()
    T.ok(out[:dst] == bytes(m[:dst]) and out[dst + n:len(m)] == bytes(m[dst + n:]), 'inline copy changed other data')
    got = O.Decoder([out], budget=10**8).struct(0, dst, len(tree[1]) // 8, len(tree[2]), 0)
    T.eq(got, tree, 'inline copy')
    T.nontrivial(tree, kw)

@case('C04', 1)
def several_copies(T):
    "several copies into one builder never disturb each other"
    r = T.rng
    trees = [gen(r) for _ in range(r.randrange(2, 5))]
    b = SegmentBuilder()
    b.allocate(8 * len(trees))
    done = []
    T.note(trees)
    for i, t in enumerate(trees):
        segs = O.encode(t, r, **ut.opts(r))
        if ut.has_double_empty(*O.flat(segs)): return
        b.copy_from_pointer(8 * i, ut.seg_of(segs), ut.s64(segs[0], 0), 0)
        out = b.as_string()
        for j in range(i + 1):
            T.eq(O.Decoder([out], budget=10**8).ptr(0, 8 * j), trees[j], 'object %d after copy %d' % (j, i))
    T.nontrivial(trees)

@enum('C04')
def every_list_shape(T):
    import random
    def go(tree, seed):
        r = random.Random(seed)
        copy_and_check(T, r, O.encode(tree), tree, r.randrange(70))
    for tag in range(6):
        for n in list(range(20)) + [31, 32, 33, 63, 64, 65, 127, 128, 129, 1000]:
            pay = O.rand_bytes(random.Random(n), O.list_bytes(tag, n))
            t = ('list', 0, n, b'') if tag == 0 else O.nlist(tag, n, pay)
            yield (tag, n), (lambda t=t, n=n: go(t, n))
    r = random.Random(5)
    for ds in range(4):
        for ps in range(4):
            for n in range(5):
                t = ('comp', ds, ps, [(O.rand_bytes(r, 8 * ds), [O.rand_tree(r, 2) for _ in range(ps)]) for _ in range(n)])
                yield (ds, ps, n), (lambda t=t, n=n: go(t, n))
                t = ('struct', O.rand_bytes(r, 8 * ds), [O.rand_tree(r, 2, null=0.5) for _ in range(ps)])
                yield (ds, ps, n), (lambda t=t, n=n: go(t, n))
