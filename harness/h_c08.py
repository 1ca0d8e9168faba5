import oracle as O, ut, struct, io
from core import case, enum
from capnpy import message
from capnpy.struct_ import Struct
from capnpy.buffered import StringBuffer, BufferedStream
from capnpy.segment.segment import MultiSegment
from h_c07 import read_back

class Chunks(BufferedStream):
    def __init__(self, data, cuts):
        BufferedStream.__init__(self)
        self.d, self.cuts, self.p, self.k = data, cuts, 0, 0
    def _readchunk(self):
        n = self.cuts[self.k % len(self.cuts)]; self.k += 1
        r = self.d[self.p:self.p + n]; self.p += len(r)
        return r

class Raw(object):
    "a file that is not a FileLike"
    def __init__(self, data): self.d, self.p = data, 0
    def read(self, n=-1):
        if n < 0: n = len(self.d)
        r = self.d[self.p:self.p + n]; self.p += len(r)
        return r
    def readline(self): raise NotImplementedError

def random_message(r):
    tree = O.rand_struct(r, r.randrange(0, 4))
    for _ in range(5):
        kw = ut.opts(r)
        segs = O.encode(tree, r, **kw)
        if not ut.has_double_empty(*O.flat(segs)): break
    else:
        segs = O.encode(tree)
    segs = [bytes(s) for s in segs]
    k = r.random()
    if k < .3:                       # extra segments nobody points to, empty ones included
        for _ in range(r.randrange(1, 6)):
            segs.append(O.rand_bytes(r, 8 * r.choice([0, 0, 1, 2, 5])))
    if k > .9:                       # unused bytes at the end of the segments
        segs[-1] += O.rand_bytes(r, 8 * r.randrange(3))
    return tree, segs

def source(r, data):
    k = r.randrange(4)
    if k == 0: return StringBuffer(data), lambda f: f.tell()
    if k == 1: return io.BytesIO(data), lambda f: f.tell()
    if k == 2: return Raw(data), lambda f: f.p
    cuts = [r.choice([1, 2, 3, 4, 5, 7, 8, 9, 16, 1000]) for _ in range(r.randrange(1, 6))]
    return Chunks(data, cuts), lambda f: f.p - (len(f.buf) - f.i)

def check_obj(T, m, tree, segs):
    T.ok(m is not None, 'no root')
    T.eq(read_back(m), tree, 'loaded object')
    T.ok(m._seg.buf == b''.join(segs), 'the segments are not the bytes of the message')
    if len(segs) > 1:
        T.ok(type(m._seg) is MultiSegment, 'not a multi-segment message')
        T.eq(tuple(m._seg.segment_offsets), tuple(O.flat(segs)[1]), 'segment offsets', [len(s) for s in segs])
    else:
        T.ok(getattr(m._seg, 'segment_offsets', None) is None, 'single-segment message loaded as several')

@case('C08', 3)
def sequences(T):
    r = T.rng
    msgs = [random_message(r) for _ in range(r.randrange(1, 5))]
    data = b''.join(O.frame(s) for t, s in msgs)
    T.note((data, [[len(x) for x in s] for t, s in msgs]))
    f, tell = source(r, data)
    if r.random() < .3:
        got = list(message.load_all(f, Struct))
        T.eq(len(got), len(msgs), 'number of messages from load_all')
        for m, (t, s) in zip(got, msgs): check_obj(T, m, t, s)
    else:
        pos = 0
        for t, s in msgs:
            m = message.load(f, Struct)
            check_obj(T, m, t, s)
            pos += len(O.frame(s))
            T.eq(tell(f), pos, 'stream position after a message')
    T.eq(tell(f), len(data), 'stream position at the end')
    for _ in range(2):
        T.raises(EOFError, lambda: message.load(f, Struct), 'load at a clean end')
    T.eq(list(message.load_all(f, Struct)), [], 'load_all at a clean end')
    T.nontrivial(data)

@case('C08', 2)
def truncated(T):
    r = T.rng
    tree, segs = random_message(r)
    data = O.frame(segs)
    T.note((data, [len(s) for s in segs]))
    if sum(len(s) for s in segs) == 0: return
    cuts = range(len(data)) if len(data) < 60 else sorted(set(r.randrange(len(data)) for _ in range(20)) | {0, 1, 3, 4, 7, 8})
    for n in cuts:
        d = data[:n]
        exc = EOFError if n == 0 else ValueError
        f, tell = source(r, d)
        T.raises(exc, lambda: message.load(f, Struct), 'load of the first %d of %d bytes' % (n, len(data)))
        T.raises(exc, lambda: message.loads(d, Struct), 'loads of the first %d of %d bytes' % (n, len(data)))
        # a whole message first: load_all must not hide the truncation
        if n:
            f, tell = source(r, data + d)
            it = message.load_all(f, Struct)
            check_obj(T, next(it), tree, segs)
            T.raises(ValueError, lambda: next(it), 'load_all of a truncated second message (%d of %d bytes)' % (n, len(data)))
    T.nontrivial(data)

@case('C08', 1)
def trailing(T):
    r = T.rng
    tree, segs = random_message(r)
    data = O.frame(segs)
    check_obj(T, message.loads(data, Struct), tree, segs)
    for n in (1, 2, 7, 8, 9, r.randrange(1, 50)):
        extra = O.rand_bytes(r, n)
        T.note((data, extra))
        e = T.raises(ValueError, lambda: message.loads(data + extra, Struct), 'loads with %d trailing bytes' % n)
        f = StringBuffer(data + extra)
        check_obj(T, message.load(f, Struct), tree, segs)
        T.eq(f.tell(), len(data), 'position after the message')
    T.nontrivial(data)

@case('C08', 1)
def declared_sizes(T):
    "headers that declare more than the stream has"
    r = T.rng
    big = [1, 2, 2**28, 2**28 - 1, 2**28 + 1, 2**29, 2**31 - 1, 2**31, 2**32 - 1, r.getrandbits(32), 3 << 28]
    n = r.choice([1, 1, 2, 3, 4, 5])
    have = r.choice([0, 8, 16, 24])
    sizes = [r.choice(big + [0, 0, 1]) for _ in range(n)]
    head = struct.pack('<I', n - 1) + b''.join(struct.pack('<I', x) for x in sizes)
    head += bytes(-len(head) % 8)
    body = bytes(have)
    data = head + body
    T.note((data,))
    if sum(sizes) * 8 <= have: return
    T.raises((ValueError, OverflowError, MemoryError) if sum(sizes) > 2**60 else ValueError, lambda: message.loads(data, Struct), 'loads of a message shorter than it declares')
    f, tell = source(r, data)
    T.raises(ValueError, lambda: message.load(f, Struct), 'load of a message shorter than it declares')
    T.nontrivial(data)

@case('C08', 1)
def segment_counts(T):
    "count fields larger than the header that follows"
    r = T.rng
    n = r.choice([1, 2, 3, 6, 7, 100, 2**16, 2**31 - 1, 2**31, 2**32 - 2, 2**32 - 1])
    k = r.randrange(0, min(n, 8) + 1)
    data = struct.pack('<I', n) + struct.pack('<%dI' % k, *[r.choice([0, 1]) for _ in range(k)])
    T.note((data,))
    T.raises(ValueError, lambda: message.loads(data, Struct), 'loads with %d segments declared and %d sizes present' % (n + 1, k))
    T.nontrivial(data)

@enum('C08')
def many_segments(T):
    def go(n, big):
        segs = [O.encode(('struct', b'abcdefgh', [None]))[0]] + [bytes([i % 256]) * (8 * (i % big)) for i in range(n - 1)]
        data = O.frame(segs)
        check_obj(T, message.loads(data, Struct), ('struct', b'abcdefgh', [None]), segs)
        f = io.BytesIO(data + data)
        check_obj(T, message.load(f, Struct), ('struct', b'abcdefgh', [None]), segs)
        check_obj(T, message.load(f, Struct), ('struct', b'abcdefgh', [None]), segs)
        for cut in (4, 7, 8, 4 + 4 * n - 1, len(data) - 1, len(data) - 8 * len(segs[-1]) // 8):
            if 0 < cut < len(data):
                T.raises(ValueError, lambda: message.loads(data[:cut], Struct), 'truncated at %d' % cut)
    for n in list(range(1, 12)) + [31, 32, 33, 200, 1000]:
        for big in (1, 2, 4):
            yield (n, big), (lambda n=n, big=big: go(n, big))
