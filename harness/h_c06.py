import oracle as O, ut, struct
from core import case, enum
from capnpy.struct_ import Struct
from h_c05 import corrupt_word, cyclic
from h_c07 import sub_structs

def check_end(T, buf, offs, st, strict):
    """st: a capnpy Struct inside buf.  An end it reports must bound a movable block."""
    at, ds, ps = st._data_offset, st._data_size, st._ptrs_size
    try:
        end = st._get_end()
    except Exception as e:
        return 'raise'
    if end == -1:
        return 'no'
    if end > len(buf):
        return 'outside'     # dump_message refuses it
    T.ok(end >= at + 8 * (ds + ps), 'end before the end of the struct itself', at, end)
    try:
        exp = O.FlatDecoder(buf, offs, budget=10**6).struct(0, at, ds, ps, 0)
    except (O.Malformed, O.DontCare):
        exp = None
    block = buf[at:end]
    try:
        got = O.FlatDecoder(block, None, budget=10**6).struct(0, 0, ds, ps, 0)
    except O.Malformed as e:
        T.ok(exp is None and not strict, 'the block reported compact does not contain the object: %s' % e, at, end)
        T.ok('far pointer' not in str(e), 'an object reported compact has a far pointer', at, end)
        # malformed source: the block must fail in the same way as the source, i.e. nothing outside was needed
        try:
            O.FlatDecoder(buf, offs, budget=10**6).struct(0, at, ds, ps, 0)
        except O.Malformed:
            return 'bad'
        except O.DontCare:
            return 'bad'
        T.ok(False, 'block cannot be decoded', str(e))
    except O.DontCare:
        return 'dc'
    if exp is not None:
        T.eq(got, exp, 'the moved block denotes another object')
    elif exp is None:
        pass
    return 'yes'

def walk(T, buf, offs, seg, strict):
    res = []
    for st, _ in sub_structs(seg, buf, offs):
        res.append(check_end(T, buf, offs, st, strict))
    return res

@case('C06', 3)
def layouts(T):
    r = T.rng
    tree = O.rand_struct(r, r.randrange(1, 5))
    kw = ut.opts(r)
    segs = O.encode(tree, r, **kw)
    buf, offs = O.flat(segs)
    if len(segs) == 1: offs = None
    if ut.has_double_empty(buf, offs): return
    T.note((buf, offs))
    seg = ut.seg_of(segs)
    res = walk(T, buf, offs, seg, True)
    T.ok('raise' not in res, 'asking for the end of a valid object raised')
    if not kw and not has_empty(tree):
        T.eq(res[0], 'yes', 'canonical layout not recognised as compact')
    T.nontrivial(tree, kw)

def has_empty(t):
    if t is None or t[0] == 'list': return False
    if t[0] == 'ptrlist': return any(has_empty(x) or x == ('struct', b'', []) for x in t[1])
    if t[0] == 'struct': return any(has_empty(x) or x == ('struct', b'', []) for x in t[2])
    return any(has_empty(x) or x == ('struct', b'', []) for d, p in t[3] for x in p)

@case('C06', 3)
def nudged(T):
    "near-compact messages: one or more words changed"
    r = T.rng
    tree = O.rand_struct(r, r.randrange(1, 4), null=0.1)
    segs = O.encode(tree, r)
    buf = bytearray(segs[0])
    pw = O.all_pointer_words(bytes(buf))
    if r.random() < .3: buf += O.rand_bytes(r, 8 * r.randrange(1, 4))
    for _ in range(r.choice([1, 1, 2])):
        pos = r.choice(pw)
        w = ut.w64(buf, pos)
        k = r.randrange(5)
        if k == 0: w = corrupt_word(r, w, len(buf) // 8)
        elif k == 1: w = w & ~(0x3fffffff << 2) | ((O.p_off(w) + r.choice([-2, -1, 1, 2])) & 0x3fffffff) << 2
        elif k == 2: w = w & ~(0x1fffffff << 35) | ((O.p_cnt(w) + r.choice([-8, -1, 1, 8])) & 0x1fffffff) << 35
        elif k == 3: w = w & ~(0xffff << 32) | ((O.p_ds(w) + r.choice([-1, 1])) & 0xffff) << 32
        else: w = w & ~(0xffff << 48) | ((O.p_ps(w) + r.choice([-1, 1])) & 0xffff) << 48
        struct.pack_into('<Q', buf, pos, w)
    buf = bytes(buf)
    T.note((buf, None))
    if cyclic(buf, None): return
    seg = ut.seg_of([buf])
    walk(T, buf, None, seg, False)
    T.nontrivial(buf)

@case('C06', 1)
def composite_tags(T):
    r = T.rng
    ds, ps = r.randrange(3), r.randrange(3)
    words = r.randrange(0, 7)
    count = r.choice([-1, -2, 0, 1, 2, 3, 4, r.randrange(-10, 10)])
    body = [0 for _ in range(words)]
    nxt = r.choice([[], [O.mk_list(0, 2, 5)], [0], [0, 0]])
    buf = struct.pack('<QQQ', O.mk_struct(0, 0, 1), O.mk_list(0, 7, words), O.mk_struct(count, ds, ps))
    buf += b''.join(struct.pack('<Q', x) for x in body)
    buf += O.rand_bytes(r, 8 * r.randrange(12))
    T.note((buf, None))
    if cyclic(buf, None): return
    st = Struct.from_buffer(buf, 8, 0, 1)
    end = None
    v = check_end(T, buf, None, st, False)
    if v in ('yes', 'outside', 'dc', 'bad'):
        end = st._get_end()
        T.eq(end, 24 + 8 * words, 'end of a list whose element count %d*(%d+%d) differs from its %d words' % (count, ds, ps, words))
        T.eq(count * (ds + ps), words, 'a composite list that does not fill its words is reported compact')
    elif count >= 0 and count * (ds + ps) == words and len(buf) >= 24 + 8 * words:
        T.ok(v == 'yes', 'an exact composite list is not compact: %s' % v)
    T.nontrivial(ds, ps, words, count)

@enum('C06')
def list_shapes(T):
    def go(t, n):
        buf = O.encode(('struct', b'', [t, O.data(b'abc')]))[0]
        st = Struct.from_buffer(buf, 8, 0, 2)
        T.eq(st._get_end(), len(buf), 'end of a struct with a list and a blob')
        st = Struct.from_buffer(buf + b'junkjunk', 8, 0, 2)
        T.eq(st._get_end(), len(buf), 'end of a struct with a list and a blob')
    for tag in range(6):
        for n in list(range(20)) + [31, 32, 33, 63, 64, 65, 127, 128, 129, 1000]:
            t = ('list', 0, n, b'') if tag == 0 else O.nlist(tag, n, bytes(O.list_bytes(tag, n)))
            yield (tag, n), (lambda t=t, n=n: go(t, n))
    for ds in range(4):
        for ps in range(4):
            for n in range(5):
                t = ('comp', ds, ps, [(bytes(8 * ds), [O.data(b'12345678xyz') for _ in range(ps)]) for _ in range(n)])
                yield (ds, ps, n), (lambda t=t, n=n: go(t, n))
