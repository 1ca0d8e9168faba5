"""Independent model of the Cap'n Proto encoding (written from the encoding spec; imports nothing of capnpy).

Trees:  None | ('struct', data, [ptr...]) | ('list', tag, count, payload) | ('ptrlist', [ptr...])
        | ('comp', ds, ps, [(data, [ptr...])...])          (data: bytes, a multiple of 8 long)
Runs on Python 3.9+ (CPython and PyPy)."""
import struct as _s

class Malformed(Exception):
    pass

ELBITS = {0: 0, 1: 1, 2: 8, 3: 16, 4: 32, 5: 64}

def sext(x, bits):
    x &= (1 << bits) - 1
    return x - (1 << bits) if x >> (bits - 1) else x

def s64(x):
    return sext(x, 64)

def mk_struct(off, ds, ps):
    return (0 | (off & 0x3fffffff) << 2 | (ds & 0xffff) << 32 | (ps & 0xffff) << 48)

def mk_list(off, tag, count):
    return (1 | (off & 0x3fffffff) << 2 | (tag & 7) << 32 | (count & 0x1fffffff) << 35)

def mk_far(two, off, seg):
    return (2 | (two & 1) << 2 | (off & 0x1fffffff) << 3 | (seg & 0xffffffff) << 32)

def p_kind(p): return p & 3
def p_off(p): return sext(p >> 2, 30)
def p_ds(p): return (p >> 32) & 0xffff
def p_ps(p): return (p >> 48) & 0xffff
def p_tag(p): return (p >> 32) & 7
def p_cnt(p): return (p >> 35) & 0x1fffffff
def p_two(p): return (p >> 2) & 1
def p_foff(p): return (p >> 3) & 0x1fffffff
def p_seg(p): return (p >> 32) & 0xffffffff

def text(b):
    return ('list', 2, len(b) + 1, b + b'\0')

def data(b):
    return ('list', 2, len(b), b)

def list_bytes(tag, count):
    return (ELBITS[tag] * count + 7) // 8

def nlist(tag, count, payload):
    n = list_bytes(tag, count)
    assert len(payload) == n
    if tag == 1 and count % 8:
        payload = payload[:-1] + bytes([payload[-1] & ((1 << count % 8) - 1)])
    return ('list', tag, count, payload)

# ------------------------------------------------------------------ encoding
class Encoder:
    """Lays a tree out in one or more segments in any legal arrangement."""
    def __init__(self, rng=None, nseg=1, far=0.0, double=0.0, gap=0.0, backward=0.0, empty_fwd=0.0):
        self.rng, self.nseg = rng, nseg
        self.segs = [bytearray() for _ in range(nseg)]
        self.far, self.double, self.gap, self.backward = far, double, gap, backward
        self.empty_fwd = empty_fwd

    def chance(self, p):
        return p > 0 and self.rng.random() < p

    def alloc(self, seg, nbytes):
        b = self.segs[seg]
        if self.chance(self.gap):
            b.extend(bytes(self.rng.randrange(256) for _ in range(8 * self.rng.randrange(1, 3))))
        pos = len(b)
        b.extend(b'\0' * ((nbytes + 7) // 8 * 8))
        return pos

    def pick(self, cur):
        if self.nseg > 1 and self.chance(self.far):
            return self.rng.randrange(self.nseg)
        return cur

    def put64(self, seg, pos, w):
        self.segs[seg][pos:pos + 8] = _s.pack('<Q', w & (1 << 64) - 1)

    def body(self, cur, t):
        """Place object t (not None); return (seg, pos, pointer word without offset)."""
        seg = self.pick(cur)
        k = t[0]
        if k == 'struct':
            d, ptrs = t[1], t[2]
            assert len(d) % 8 == 0
            pre = self.prepare(seg, ptrs)
            pos = self.alloc(seg, len(d) + 8 * len(ptrs))
            self.segs[seg][pos:pos + len(d)] = d
            self.finish(seg, pos + len(d), ptrs, pre)
            return seg, pos, mk_struct(0, len(d) // 8, len(ptrs))
        if k == 'list':
            pos = self.alloc(seg, len(t[3]))
            self.segs[seg][pos:pos + len(t[3])] = t[3]
            return seg, pos, mk_list(0, t[1], t[2])
        if k == 'ptrlist':
            pre = self.prepare(seg, t[1])
            pos = self.alloc(seg, 8 * len(t[1]))
            self.finish(seg, pos, t[1], pre)
            return seg, pos, mk_list(0, 6, len(t[1]))
        if k == 'comp':
            ds, ps, items = t[1:4]
            words = (ds + ps) * len(items)
            allp = [p for it in items for p in it[1]]
            pre = self.prepare(seg, allp)
            pos = self.alloc(seg, 8 * (words + 1))
            self.put64(seg, pos, mk_struct(len(items), ds, ps))
            at, n = pos + 8, 0
            for d, ptrs in items:
                assert len(d) == 8 * ds and len(ptrs) == ps
                self.segs[seg][at:at + len(d)] = d
                self.finish(seg, at + len(d), ptrs, pre[n:n + ps])
                n += ps
                at += 8 * (ds + ps)
            return seg, pos, mk_list(0, 7, words)
        raise AssertionError(k)

    def prepare(self, seg, ptrs):
        # children placed before their parent give negative offsets
        return [self.body(seg, p) if p is not None and self.chance(self.backward) else None for p in ptrs]

    def finish(self, seg, pos, ptrs, pre):
        for i, p in enumerate(ptrs):
            if p is None:
                continue
            loc = pre[i] or self.body(seg, p)
            self.link(seg, pos + 8 * i, loc)

    def link(self, seg, pos, loc):
        tseg, tpos, w = loc
        far = tseg != seg or (self.nseg > 1 and self.chance(self.far * 0.3))
        if not far:
            off = (tpos - pos - 8) // 8
            if w & ~3 == 0 and (w & 3) == 0 and off == 0:
                off = -1                       # empty struct: a zero word would be a null pointer
            elif (w & 3) == 0 and w == 0 and not self.chance(self.empty_fwd):
                off = -1
            self.put64(seg, pos, w | (off & 0x3fffffff) << 2)
        elif self.chance(self.double):
            pseg = self.rng.randrange(self.nseg)
            pad = self.alloc(pseg, 16)
            self.put64(pseg, pad, mk_far(0, tpos // 8, tseg))
            self.put64(pseg, pad + 8, w)
            self.put64(seg, pos, mk_far(1, pad // 8, pseg))
        else:
            pad = self.alloc(tseg, 8)
            off = (tpos - pad - 8) // 8
            if w == 0 and off == 0:
                off = -1
            self.put64(tseg, pad, w | (off & 0x3fffffff) << 2)
            self.put64(seg, pos, mk_far(0, pad // 8, tseg))

    def message(self, root):
        self.segs[0][0:0] = b''
        pos = len(self.segs[0])
        assert pos == 0
        self.segs[0].extend(b'\0' * 8)
        if root is not None:
            self.link(0, 0, self.body(0, root))
        return [bytes(x) for x in self.segs]

def frame(segs):
    h = _s.pack('<I', len(segs) - 1) + b''.join(_s.pack('<I', len(x) // 8) for x in segs)
    if len(h) % 8:
        h += b'\0\0\0\0'
    return h + b''.join(segs)

def encode(root, rng=None, **kw):
    return Encoder(rng, **kw).message(root)

def flat(segs):
    """(buffer, segment offsets) as a reader of the concatenated message sees them"""
    offs, o = [], 0
    for x in segs:
        offs.append(o)
        o += len(x)
    return b''.join(segs), tuple(offs)

# ------------------------------------------------------------------ decoding
class Decoder:
    def __init__(self, segs, maxdepth=200, budget=2000000):
        self.segs, self.maxdepth, self.budget = segs, maxdepth, budget

    def word(self, seg, pos):
        if pos < 0 or pos % 8 or pos + 8 > len(self.segs[seg]):
            raise Malformed('word at %d:%d' % (seg, pos))
        return _s.unpack_from('<Q', self.segs[seg], pos)[0]

    def rng(self, seg, pos, n):
        if pos < 0 or pos + n > len(self.segs[seg]):
            raise Malformed('range %d:%d+%d' % (seg, pos, n))
        self.budget -= n
        if self.budget < 0:
            raise Malformed('budget')
        return bytes(self.segs[seg][pos:pos + n])

    def resolve(self, seg, pos):
        """-> (seg, position the offset is relative to (after the pointer), word) with far pointers followed"""
        w = self.word(seg, pos)
        if p_kind(w) != 2:
            return seg, pos + 8, w
        ts, tp = p_seg(w), p_foff(w) * 8
        if ts >= len(self.segs):
            raise Malformed('segment')
        w2 = self.word(ts, tp)
        if not p_two(w):
            if p_kind(w2) == 2:
                raise Malformed('far to far')
            return ts, tp + 8, w2
        tag = self.word(ts, tp + 8)
        if p_kind(w2) != 2 or p_two(w2) or p_kind(tag) == 2 or p_off(tag) != 0:
            raise Malformed('double far')
        cs = p_seg(w2)
        if cs >= len(self.segs):
            raise Malformed('segment')
        return cs, p_foff(w2) * 8, tag        # content starts right there

    def ptr(self, seg, pos, depth=0):
        if depth > self.maxdepth:
            raise Malformed('depth')
        if self.word(seg, pos) == 0:
            return None
        s, base, w = self.resolve(seg, pos)
        if w == 0 and p_kind(self.word(seg, pos)) != 2:
            return None
        if w == 0 and not p_two(self.word(seg, pos)):
            return None                       # single landing pad holding a null pointer
        return self.obj(s, base + 8 * p_off(w), w, depth)

    def obj(self, s, at, w, depth=0):
        k = p_kind(w)
        if k == 0:
            return self.struct(s, at, p_ds(w), p_ps(w), depth)
        if k == 3:
            raise Malformed('capability')
        tag, n = p_tag(w), p_cnt(w)
        if tag == 7:
            t = self.word(s, at)
            ds, ps, cnt = p_ds(t), p_ps(t), p_off(t)
            if p_kind(t) != 0 or cnt < 0 or (ds + ps) * cnt > n:
                raise Malformed('tag')
            self.rng(s, at, 8 + 8 * n)
            if cnt > 1000000:
                raise Malformed('budget')
            items, q = [], at + 8
            for _ in range(cnt):
                x = self.struct(s, q, ds, ps, depth)
                items.append((x[1], x[2]))
                q += 8 * (ds + ps)
            return ('comp', ds, ps, items)
        if tag == 6:
            self.rng(s, at, 8 * n)
            return ('ptrlist', [self.ptr(s, at + 8 * i, depth + 1) for i in range(n)])
        return nlist(tag, n, self.rng(s, at, list_bytes(tag, n)))

    def struct(self, s, at, ds, ps, depth):
        d = self.rng(s, at, 8 * ds)
        self.rng(s, at + 8 * ds, 8 * ps)
        return ('struct', d, [self.ptr(s, at + 8 * ds + 8 * i, depth + 1) for i in range(ps)])

def decode(segs, seg=0, pos=0, **kw):
    return Decoder(segs, **kw).ptr(seg, pos)

def unframe(b):
    """-> (segments, bytes consumed); raises Malformed"""
    if len(b) < 4:
        raise Malformed('short')
    n = _s.unpack_from('<I', b, 0)[0] + 1
    hl = (4 + 4 * n + 7) // 8 * 8
    if len(b) < hl:
        raise Malformed('header')
    sizes = _s.unpack_from('<%dI' % n, b, 4)
    segs, o = [], hl
    for z in sizes:
        if len(b) < o + 8 * z:
            raise Malformed('body')
        segs.append(b[o:o + 8 * z])
        o += 8 * z
    return segs, o

def loads(b, **kw):
    segs, n = unframe(b)
    if n != len(b):
        raise Malformed('trailing')
    return decode(segs, **kw)

# ------------------------------------------------------------------ random trees
def rand_bytes(rng, n):
    m = rng.randrange(4)
    if m == 0:
        return bytes(n)
    if m == 1:
        return b'\xff' * n
    return bytes(rng.randrange(256) for _ in range(n))

def rand_tree(rng, depth=4, null=0.3, maxn=4):
    if depth <= 0 or rng.random() < null:
        return None
    return rand_obj(rng, depth, null, maxn)

def rand_obj(rng, depth=4, null=0.3, maxn=4):
    k = rng.random()
    sub = lambda: rand_tree(rng, depth - 1, null, maxn)
    if k < 0.4:
        return rand_struct(rng, depth, null, maxn)
    if k < 0.65:
        tag = rng.randrange(6)
        n = rng.choice([0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 63, 64, 65])
        if tag == 0:
            return ('list', 0, n, b'')
        return nlist(tag, n, rand_bytes(rng, list_bytes(tag, n)))
    if k < 0.8:
        return ('ptrlist', [sub() for _ in range(rng.randrange(maxn + 1))])
    ds, ps = rng.randrange(3), rng.randrange(3)
    n = rng.randrange(maxn + 1)
    return ('comp', ds, ps, [(rand_bytes(rng, 8 * ds), [sub() for _ in range(ps)]) for _ in range(n)])

def rand_struct(rng, depth=4, null=0.3, maxn=4):
    ds, ps = rng.randrange(4), rng.randrange(maxn)
    return ('struct', rand_bytes(rng, 8 * ds), [rand_tree(rng, depth - 1, null, maxn) for _ in range(ps)])

# ------------------------------------------------------------------ a tree seen as struct fields
def get_bits(d, off, n):
    """n bits at bit offset off of data section d; absent bits are zero"""
    r = 0
    for i in range(n):
        b = off + i
        if b // 8 < len(d) and d[b // 8] >> (b % 8) & 1:
            r |= 1 << i
    return r

def get_ptr(ptrs, i):
    return ptrs[i] if i < len(ptrs) else None

def as_text(t):
    return None if t is None else t[3][:-1]

def as_data(t):
    return None if t is None else t[3]

# ------------------------------------------------------------------ lenient reading of possibly malformed messages
class DontCare(Exception):
    """the message is irregular in a way the checked property says nothing about"""

class FlatDecoder(Decoder):
    """Reads a message the way its concatenated segments lie in memory: a pointer is out of bounds when it leaves the
    whole message.  Malformed = out of bounds or too many elements; DontCare = other irregularities, zero-sized objects
    at wild positions, and nesting beyond maxdepth (cycles)."""
    def __init__(self, buf, offsets=None, maxdepth=40, budget=200000, lo=0, hi=None):
        Decoder.__init__(self, [buf], maxdepth, budget)
        self.offsets, self.lo, self.hi = offsets, lo, len(buf) if hi is None else hi
        self.extent = 0
    def word(self, seg, pos):
        if pos < self.lo or pos + 8 > self.hi:
            raise Malformed('word at %d' % pos)
        self.extent = max(self.extent, pos + 8)
        return _s.unpack_from('<Q', self.segs[0], pos)[0]
    def rng(self, seg, pos, n):
        if n == 0:
            if pos < self.lo or pos > self.hi:
                raise DontCare('zero-sized object outside')
            return b''
        if pos < self.lo or pos + n > self.hi:
            raise Malformed('range %d+%d' % (pos, n))
        self.extent = max(self.extent, pos + n)
        self.budget -= n
        if self.budget < 0:
            raise DontCare('budget')
        return bytes(self.segs[0][pos:pos + n])
    def resolve(self, seg, pos):
        w = self.word(0, pos)
        if p_kind(w) != 2:
            return 0, pos + 8, w
        if self.offsets is None:
            raise Malformed('far pointer in a single-segment message')
        if p_seg(w) >= len(self.offsets):
            raise Malformed('segment')
        tp = self.offsets[p_seg(w)] + p_foff(w) * 8
        w2 = self.word(0, tp)
        if not p_two(w):
            if p_kind(w2) == 2:
                raise DontCare('far to far')
            return 0, tp + 8, w2
        tag = self.word(0, tp + 8)
        if p_kind(w2) != 2 or p_two(w2) or p_kind(tag) == 2 or p_off(tag) != 0:
            raise DontCare('double far')
        if p_seg(w2) >= len(self.offsets):
            raise Malformed('segment')
        return 0, self.offsets[p_seg(w2)] + p_foff(w2) * 8, tag
    def ptr(self, seg, pos, depth=0):
        if depth > self.maxdepth:
            raise DontCare('depth')
        w = self.word(0, pos)
        if w == 0:
            return None
        s, base, w2 = self.resolve(0, pos)
        if w2 == 0 and p_kind(w) == 2:
            raise DontCare('far pointer to a null word')
        return self.obj(0, base + 8 * p_off(w2), w2, depth)
    def obj(self, s, at, w, depth=0):
        if p_kind(w) == 3:
            raise DontCare('capability')
        if p_kind(w) == 1 and p_tag(w) == 7:
            if at < self.lo or at + 8 + 8 * p_cnt(w) > self.hi:
                raise Malformed('composite body')
            t = self.word(s, at)
            if p_kind(t) != 0:
                raise DontCare('tag kind')
            if p_off(t) < 0 or (p_ds(t) + p_ps(t)) * p_off(t) > p_cnt(w):
                raise Malformed('composite claims more elements than its allocation holds')
            if p_off(t) > 100000:
                raise DontCare('many empty elements')
        if p_kind(w) == 1 and p_tag(w) == 6 and p_cnt(w) and (at < self.lo or at + 8 * p_cnt(w) > self.hi):
            raise Malformed('pointer list body')
        if p_kind(w) == 1 and p_tag(w) == 0:
            self.rng(0, at, 0)
            return ('list', 0, p_cnt(w), b'')
        return Decoder.obj(self, s, at, w, depth)

def norm(t):
    """trees compared structurally: padding bits of bit lists cleared, as nlist does"""
    return t

def all_pointer_words(buf, root=0):
    """positions of words reachable as pointers (best effort), for targeted corruption"""
    out, todo, seen = [], [root], set()
    while todo:
        pos = todo.pop()
        if pos in seen or pos < 0 or pos + 8 > len(buf):
            continue
        seen.add(pos)
        w = _s.unpack_from('<Q', buf, pos)[0]
        out.append(pos)
        if w == 0 or p_kind(w) > 1:
            continue
        at = pos + 8 + 8 * p_off(w)
        if p_kind(w) == 0:
            todo += [at + 8 * p_ds(w) + 8 * i for i in range(min(p_ps(w), 50))]
        elif p_tag(w) == 6:
            todo += [at + 8 * i for i in range(min(p_cnt(w), 50))]
        elif p_tag(w) == 7 and 0 <= at <= len(buf) - 8:
            out.append(at)
            t = _s.unpack_from('<Q', buf, at)[0]
            for i in range(min(max(p_off(t), 0), 50)):
                todo += [at + 8 + 8 * (p_ds(t) + p_ps(t)) * i + 8 * p_ds(t) + 8 * j for j in range(min(p_ps(t), 50))]
    return out
