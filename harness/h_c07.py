import oracle as O, ut, struct, io
from core import case, enum
from capnpy.struct_ import Struct
from capnpy import message
from capnpy.segment.segment import Segment, MultiSegment

def sub_structs(seg, buf, offs, limit=40):
    """(Struct, tree) for every struct reachable from the root, list items included; navigated with the oracle only"""
    out = []
    F = O.FlatDecoder(buf, offs, budget=10**6)
    def visit(pos, depth):
        if len(out) >= limit or depth > 30: return
        try:
            w0 = F.word(0, pos)
            if w0 == 0: return
            _, base, w = F.resolve(0, pos)
        except (O.Malformed, O.DontCare):
            return
        if w == 0: return
        at = base + 8 * O.p_off(w)
        if O.p_kind(w) == 0:
            st(at, O.p_ds(w), O.p_ps(w), depth)
        elif O.p_kind(w) == 1 and O.p_tag(w) == 6:
            for i in range(min(O.p_cnt(w), 20)): visit(at + 8 * i, depth + 1)
        elif O.p_kind(w) == 1 and O.p_tag(w) == 7:
            try: t = F.word(0, at)
            except (O.Malformed, O.DontCare): return
            if O.p_kind(t) != 0: return
            for i in range(min(O.p_off(t), 10)):
                st(at + 8 + 8 * i * (O.p_ds(t) + O.p_ps(t)), O.p_ds(t), O.p_ps(t), depth)
    def st(at, ds, ps, depth):
        if at < 0 or at + 8 * (ds + ps) > len(buf): return
        try: tree = O.FlatDecoder(buf, offs, budget=10**6).struct(0, at, ds, ps, 0)
        except (O.Malformed, O.DontCare): tree = None
        out.append((Struct.from_buffer(seg, at, ds, ps), tree))
        for j in range(ps): visit(at + 8 * ds + 8 * j, depth + 1)
    visit(0, 0)
    return out

class W(object):
    def __init__(self): self.d = []
    def write(self, s): self.d.append(s)

def check_dump(T, b, tree, what):
    T.ok(type(b) is bytes, what + ' is not bytes')
    T.ok(len(b) % 8 == 0 and len(b) >= 16, what + ': length is not a multiple of 8', len(b))
    nseg, words = struct.unpack_from('<II', b, 0)
    T.eq((nseg, words), (0, len(b) // 8 - 1), what + ': header')
    try:
        got = O.Decoder([b[8:]], budget=10**8).ptr(0, 0)
    except O.Malformed as e:
        T.ok(False, '%s: malformed message: %s' % (what, e))
    T.eq(got, tree, what)
    m = message.loads(b, Struct)
    if m is None: T.ok(False, what + ': the loader finds no root')
    T.eq(read_back(m), tree, what + ' as read by the loader')

def read_back(m):
    buf = m._seg.buf
    return O.FlatDecoder(buf, getattr(m._seg, 'segment_offsets', None), budget=10**8, maxdepth=300).struct(0, m._data_offset, m._data_size, m._ptrs_size, 0)

def one(T, st, tree):
    src = st._seg.buf
    check_dump(T, message.dumps(st), tree, 'dumps()')
    check_dump(T, message.dumps(st, False), tree, 'dumps(fastpath=False)')
    check_dump(T, st.dumps(), tree, 'the dumps method')
    f = W()
    message.dump(st, f)
    check_dump(T, b''.join(f.d), tree, 'dump()')
    c = st.compact()
    T.ok(type(c) is type(st), 'compact() changed the class')
    T.eq(read_back(c), tree, 'compact()')
    cb = c._seg.buf
    T.eq((c._data_size, c._ptrs_size), (st._data_size, st._ptrs_size), 'compact() sizes')
    T.ok(getattr(c._seg, 'segment_offsets', None) is None, 'compact() is not self-contained')
    T.ok(c._data_offset == 8, 'compact() offset')
    T.eq(O.Decoder([cb], budget=10**8).ptr(0, 0), tree, 'compact() root pointer')
    check_dump(T, message.dumps(c), tree, 'dumps() of compact()')
    T.ok(st._seg.buf == src, 'the source changed')

@case('C07', 3)
def roundtrip(T):
    r = T.rng
    tree = O.rand_struct(r, r.randrange(1, 6), null=r.choice([.1, .3]))
    kw = ut.opts(r)
    segs = O.encode(tree, r, **kw)
    buf, offs = O.flat(segs)
    if len(segs) == 1: offs = None
    if ut.has_double_empty(buf, offs): return
    T.note((tree, kw))
    seg = ut.seg_of(segs)
    for st, t in sub_structs(seg, buf, offs, 8):
        T.ok(t is not None, 'harness: undecodable')
        T.note(('struct at', st._data_offset, t))
        one(T, st, t)
    T.nontrivial(tree, kw)

@case('C07', 1)
def chained(T):
    "dump, load, dump again, through every combination"
    r = T.rng
    tree = O.rand_struct(r, r.randrange(1, 4))
    segs = O.encode(tree, r, **ut.opts(r))
    if ut.has_double_empty(*O.flat(segs)): return
    T.note((tree,))
    m = message.loads(O.frame(segs), Struct)
    if m is None: return
    for i in range(4):
        k = r.randrange(4)
        if k == 0: m = message.loads(m.dumps(), Struct)
        elif k == 1: m = message.loads(message.dumps(m, False), Struct)
        elif k == 2: m = m.compact()
        else: m = message.load(io.BytesIO(m.dumps()), Struct)
        T.ok(m is not None, 'nothing loaded', k)
        T.eq(read_back(m), tree, 'after step %d' % k)
    T.nontrivial(tree)

@enum('C07')
def sizes(T):
    import random
    for ds in range(5):
        for ps in range(4):
            for extra in (0, 8, 16):
                def go(ds=ds, ps=ps, extra=extra):
                    r = random.Random(ds * 10 + ps)
                    tree = ('struct', O.rand_bytes(r, 8 * ds), [O.rand_tree(r, 2) for _ in range(ps)])
                    buf = O.encode(tree)[0]
                    st = Struct.from_buffer(buf + bytes(extra), 8, ds, ps)
                    one(T, st, tree)
                yield (ds, ps, extra), go
