import oracle as O, ut, struct
from core import case, enum
from capnpy.segment.builder import SegmentBuilder
from capnpy.segment.segment import Segment, MultiSegment

def corrupt_word(r, w, nwords):
    k = r.randrange(12)
    off = O.p_off(w)
    if k == 0: return w ^ (1 << r.randrange(64))
    if k == 1: return r.getrandbits(64)
    if k in (2, 3):
        no = r.choice([-1, -2, -nwords, -nwords - 1, nwords, nwords - 1, nwords + 1, off + 1, off - 1, off + nwords, off - nwords, 2**29 - 1, -2**29])
        return w & ~(0x3fffffff << 2) | (no & 0x3fffffff) << 2
    if k == 4: return w & ~(0xffff << 32) | r.choice([0, 1, O.p_ds(w) + 1, 0xffff, nwords]) % 65536 << 32
    if k == 5: return w & ~(0xffff << 48) | r.choice([0, 1, O.p_ps(w) + 1, 0xffff, nwords]) % 65536 << 48
    if k in (6, 7): return w & ~(0x1fffffff << 35) | r.choice([0, 1, O.p_cnt(w) + 1, O.p_cnt(w) + 8, max(O.p_cnt(w) - 1, 0), 2**29 - 1, 2**28, nwords * 8, nwords * 64 + 1]) % 2**29 << 35
    if k == 8: return w & ~(7 << 32) | r.randrange(8) << 32
    if k == 9: return w & ~3 | r.randrange(4)
    if k == 10: return O.mk_list(r.randrange(-3, nwords + 2), r.randrange(8), r.choice([0, 1, 5, 100]))
    return O.mk_struct(r.randrange(-3, nwords + 2), r.randrange(3), r.randrange(3))

def check(T, buf, offs, npre=2):
    # cyclic messages recurse for ever (a nested cycle may hide behind the first irregularity): never run those
    if cyclic(buf, offs) or ut.w64(buf, 0) == 0: return 'skip'
    try:
        exp = O.FlatDecoder(buf, offs).ptr(0, 0)
        verdict = 'ok'
    except O.DontCare as e:
        verdict = 'dontcare'
        if 'depth' in str(e) or 'budget' in str(e) or 'many' in str(e): return 'skip'
        if 'far to far' in str(e): return 'skip'
    except O.Malformed as e:
        verdict = 'bad'
        why = str(e)
    seg = Segment(buf) if offs is None else MultiSegment(buf, offs)
    b = SegmentBuilder()
    b.allocate(8 * npre)
    for i in range(npre): b.write_uint64(8 * i, 0x1122334455667788 + i)
    dst = b.allocate(8); b.allocate(8); b.write_int64(dst + 8, -7)
    raised = None
    try:
        b.copy_from_pointer(dst, seg, ut.s64(buf, 0), 0)
    except (Exception) as e:
        raised = e
    out = b.as_string()
    for i in range(npre):
        T.eq(ut.w64(out, 8 * i), 0x1122334455667788 + i, 'word before the destination changed')
    T.eq(ut.s64(out, dst + 8), -7, 'word after the destination changed')
    T.ok(seg.buf == buf, 'source changed')
    if verdict == 'bad':
        T.ok(raised is not None, 'copying a malformed object did not raise (%s)' % why)
    elif verdict == 'ok':
        if raised is None:
            try:
                got = O.FlatDecoder(out, None, budget=10**7).ptr(0, dst)
            except O.Malformed as e:
                T.ok(False, 'the copy is malformed: %s' % e)
            except O.DontCare:
                return verdict
            T.eq(got, exp, 'copy of an irregular but readable object')
        else:
            T.ok(False, 'copying a well-formed object raised %s: %s' % (type(raised).__name__, raised))
    elif raised is None:
        # whatever was made must not reach outside the builder
        try:
            O.FlatDecoder(out, None, budget=10**7).ptr(0, dst)
        except O.Malformed as e:
            # a far pointer to something that is no object (capability, another far pointer) is left as it was
            T.ok('far pointer' in str(e), 'the copy of an irregular object reaches outside the new message: %s' % e)
        except O.DontCare:
            pass
    return verdict

def cyclic(buf, offs):
    """does following pointers (ignoring bounds errors) nest deeper than 60 or visit too much?"""
    budget = [20000]
    n = len(buf)
    def word(pos): return ut.w64(buf, pos) if 0 <= pos and pos + 8 <= n else None
    def visit(pos, depth):
        w = word(pos)
        budget[0] -= 1
        if depth > 60 or budget[0] < 0: return True
        if not w: return False
        if O.p_kind(w) == 2:
            if offs is None or O.p_seg(w) >= len(offs): return False
            tp = offs[O.p_seg(w)] + 8 * O.p_foff(w)
            w2 = word(tp)
            if w2 is None: return False
            if O.p_two(w):
                t = word(tp + 8)
                if t is None or O.p_seg(w2) >= len(offs): return False
                pos, w = offs[O.p_seg(w2)] + 8 * O.p_foff(w2) - 8, t
            else:
                pos, w = tp, w2
            if O.p_kind(w) == 2: return True    # far pointer to a far pointer: may recurse for ever
        at = pos + 8 + 8 * O.p_off(w)
        if O.p_kind(w) == 0:
            return ptrs(at + 8 * O.p_ds(w), O.p_ps(w), depth)
        if O.p_kind(w) == 1 and O.p_tag(w) == 6:
            return ptrs(at, O.p_cnt(w), depth)
        if O.p_kind(w) == 1 and O.p_tag(w) == 7:
            t = word(at)
            if t is None: return False
            sz = 8 * (O.p_ds(t) + O.p_ps(t))
            if O.p_off(t) > 100000 and sz == 0: return True
            if O.p_ps(t) == 0: return False
            for i in range(O.p_off(t)):
                q = at + 8 + sz * i + 8 * O.p_ds(t)
                if q > n: break
                if ptrs(q, O.p_ps(t), depth): return True
        return False
    def ptrs(at, k, depth):
        for i in range(max(0, -(at // 8)), k):
            if at + 8 * i + 8 > n: break
            if at + 8 * i >= 0 and visit(at + 8 * i, depth + 1): return True
        return False
    return visit(0, 0)

@case('C05', 4)
def corrupted(T):
    r = T.rng
    tree = O.rand_obj(r, r.randrange(1, 4), null=0.15)
    kw = ut.opts(r)
    segs = O.encode(tree, r, **kw)
    buf, offs = O.flat(segs)
    if len(segs) == 1: offs = None
    buf = bytearray(buf)
    pw = O.all_pointer_words(bytes(buf))
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        pos = r.choice(pw) if r.random() < .85 else 8 * r.randrange(len(buf) // 8)
        struct.pack_into('<Q', buf, pos, corrupt_word(r, ut.w64(buf, pos), len(buf) // 8))
    if r.random() < .2:
        buf = buf[:max(8, len(buf) - 8 * r.randrange(1, 3))]
    T.note((bytes(buf), offs))
    v = check(T, bytes(buf), offs)
    if v != 'skip': T.nontrivial(bytes(buf), offs)

@case('C05', 2)
def composites(T):
    "tag and list counts that disagree"
    r = T.rng
    ds, ps = r.randrange(3), r.randrange(3)
    words = r.randrange(0, 7)
    count = r.choice([-1, -2, 0, 1, 2, 3, 4, 7, 100, -2**29, 2**29 - 1, 2**28, r.randrange(-10, 10)])
    extra = r.randrange(0, 4)
    body = [r.choice([0, 0, O.mk_struct(r.randrange(-4, 4), r.randrange(2), 0), O.mk_list(r.randrange(-4, 4), 2, r.randrange(20)), r.getrandbits(64) & ~3 | 1]) for _ in range(words + extra)]
    nested = r.random() < .4
    buf = struct.pack('<QQ', O.mk_list(0, 7, words), O.mk_struct(count, ds, ps)) + b''.join(struct.pack('<Q', x) for x in body)
    if nested: buf = struct.pack('<Q', O.mk_struct(0, 0, 1)) + buf
    T.note((buf,))
    T.note((nested, words, count, ds, ps))
    v = check(T, buf, None, r.choice([0, 1, 62, 63]))
    if v != 'skip': T.nontrivial(buf)

@case('C05', 1)
def bodies(T):
    "one list or struct whose body does or does not fit, at either side of the buffer"
    r = T.rng
    n = r.randrange(1, 6)
    buf = bytearray(r.getrandbits(8) & 0xfc for _ in range(8 * n))
    off = r.randrange(-n - 2, n + 2)
    if r.random() < .5:
        w = O.mk_list(off, r.randrange(7), r.choice([0, 1, 2, 7, 8, 9, 63, 64, 65, 8 * n, 8 * n - 8, 8 * n - 7, r.randrange(0, 600)]))
    else:
        w = O.mk_struct(off, r.randrange(n + 1), r.randrange(3))
    pos = 8 * r.randrange(n) if r.random() < .3 else 0
    if pos: struct.pack_into('<Q', buf, 0, O.mk_struct(pos // 8 - 1, 0, 1))
    struct.pack_into('<Q', buf, pos, w)
    T.note((bytes(buf),))
    v = check(T, bytes(buf), None)
    if v != 'skip': T.nontrivial(bytes(buf))

@enum('C05')
def boundary_lists(T):
    for tag in range(1, 7):
        per = {1: 64, 2: 8, 3: 4, 4: 2, 5: 1, 6: 1}[tag]
        for n in (1, 2, 3):
            for d in (-1, 0, 1):
                buf = struct.pack('<Q', O.mk_list(0, tag, n * per + d)) + bytes(8 * n)
                yield (tag, n, d), (lambda buf=buf: check(T, buf, None))
                for back in range(1, 5):
                    buf = struct.pack('<Q', O.mk_struct(n, 0, 1)) + bytes(8 * n) + struct.pack('<Q', O.mk_list(-(n + back), tag, (n * per + d)))
                    yield (tag, n, d, back), (lambda buf=buf: check(T, buf, None))
    for ds in range(4):
        for ps in range(4):
            for words in range(8):
                for count in range(-2, 6):
                    buf = struct.pack('<QQ', O.mk_list(0, 7, words), O.mk_struct(count, ds, ps)) + bytes(8 * words)
                    yield (ds, ps, words, count), (lambda buf=buf: check(T, buf, None))
                    yield (ds, ps, words, count), (lambda buf=buf: check(T, buf + bytes(80), None))
