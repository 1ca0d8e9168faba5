import oracle as O
import struct
from core import case, enum
from capnpy.segment.builder import SegmentBuilder
from capnpy import ptr

FMT = dict(int8='b', uint8='B', int16='h', uint16='H', int32='i', uint32='I', int64='q', uint64='Q', float32='f', float64='d')
LIM = dict(b=(-128, 127), B=(0, 255), h=(-2**15, 2**15 - 1), H=(0, 2**16 - 1), i=(-2**31, 2**31 - 1), I=(0, 2**32 - 1),
           q=(-2**63, 2**63 - 1), Q=(0, 2**64 - 1))
def rand_val(r, f):
    if f in 'fd':
        v = r.choice([0.0, -0.0, 1.5, float('inf'), 1e-30, r.uniform(-1e30, 1e30)])
        return struct.unpack('<' + f, struct.pack('<' + f, v))[0]
    lo, hi = LIM[f]
    return r.choice([lo, hi, 0, 1, -1 if lo < 0 else 3, r.randint(lo, hi)])

def w64(m, pos): return struct.unpack_from('<Q', bytes(m), pos)[0]

def steps(T, r, n, big):
    b = SegmentBuilder()
    m = bytearray()                     # the expected content
    ptrs = []                           # free pointer words
    def check(what):
        T.eq(b.get_length(), len(m), what + ': length')
        T.ok(b.as_string() == bytes(m), what + ': content', b.as_string()[:200], bytes(m)[:200])
    b.allocate(0); check('allocate(0)')
    def grow(k):
        m.extend(bytes(k))
    def sizes():
        return r.choice([0, 1, 2, 3, r.randrange(1, 12), r.choice([60, 100, 500, 3000]) if big and r.random() < .15 else 1])
    log = []
    for _ in range(n):
        k = r.randrange(10)
        if k == 0 or not ptrs:
            words = sizes()
            log.append(('allocate', words)); T.notes = [repr(log)[-500:]]
            T.eq(b.allocate(8 * words), len(m), 'allocate result')
            p0 = len(m); grow(8 * words)
            ptrs += [p0 + 8 * i for i in range(words)]
        elif k == 1:
            pos = ptrs.pop(r.randrange(len(ptrs)))
            ds, ps = sizes(), sizes()
            log.append(('alloc_struct', pos, ds, ps)); T.notes = [repr(log)[-500:]]
            e = len(m)
            T.eq(b.alloc_struct(pos, ds, ps), e, 'alloc_struct result')
            m[pos:pos + 8] = struct.pack('<Q', O.mk_struct((e - pos - 8) // 8, ds, ps)); grow(8 * (ds + ps))
            ptrs += [e + 8 * i for i in range(ds + ps)]
        elif k in (2, 3):
            pos = ptrs.pop(r.randrange(len(ptrs)))
            tag = r.choice([0, 1, 2, 3, 4, 5, 6, 7])
            cnt = r.choice([0, 1, 2, 3, 7, 8, 9, 63, 64, 65])
            ln = O.list_bytes(tag, cnt) if tag < 6 else 8 * cnt + (8 if tag == 7 else 0)
            log.append(('alloc_list', pos, tag, cnt, ln)); T.notes = [repr(log)[-500:]]
            e = len(m)
            T.eq(b.alloc_list(pos, tag, cnt, ln), e, 'alloc_list result')
            m[pos:pos + 8] = struct.pack('<Q', O.mk_list((e - pos - 8) // 8, tag, cnt)); grow((ln + 7) // 8 * 8)
        elif k in (4, 5):
            pos = ptrs.pop(r.randrange(len(ptrs)))
            s = None if r.random() < .1 else bytes(r.getrandbits(8) for _ in range(r.choice([0, 1, 7, 8, 9, 15, 16, 17, 600 if big else 3])))
            text = k == 4
            log.append(('text' if text else 'data', pos, s)); T.notes = [repr(log)[-500:]]
            res = (b.alloc_text if text else b.alloc_data)(pos, s)
            e = len(m)
            if s is None:
                T.eq(res, -1, 'alloc_text(None)')
                m[pos:pos + 8] = bytes(8)
            else:
                T.eq(res, e, 'alloc_text result')
                cnt = len(s) + (1 if text else 0)
                m[pos:pos + 8] = struct.pack('<Q', O.mk_list((e - pos - 8) // 8, 2, cnt))
                grow((cnt + 7) // 8 * 8)
                m[e:e + len(s)] = s
        elif k in (6, 7):
            name = r.choice(sorted(FMT)); f = FMT[name]; sz = struct.calcsize(f)
            pos = r.choice(ptrs); at = pos + sz * r.randrange(8 // sz)
            v = rand_val(r, f)
            log.append((name, at, v)); T.notes = [repr(log)[-500:]]
            if r.random() < .5: getattr(b, 'write_' + name)(at, v)
            else: b.write_generic(ord(f), at, v)
            m[at:at + sz] = struct.pack('<' + f, v)
        elif k == 8:
            pos = r.choice(ptrs) + r.randrange(8); bit = r.randrange(8); v = r.choice([True, False])
            log.append(('bool', pos, bit, v)); T.notes = [repr(log)[-500:]]
            b.write_bool(pos, bit, v)
            m[pos] |= int(v) << bit          # documented use: the bit was zero before
        else:
            from capnpy.segment.segment import Segment
            src = bytes(r.getrandbits(8) for _ in range(40)); st = r.randrange(40); ln = r.randrange(0, min(8, 40 - st) + 1)
            pos = r.choice(ptrs)
            log.append(('slice', pos, st, ln)); T.notes = [repr(log)[-500:]]
            b.write_slice(pos, Segment(src), st, ln)
            m[pos:pos + ln] = src[st:st + ln]
        if r.random() < .3 or len(m) < 600: check(str(log[-1]))
    check('end')
    return log

@case('C03', 2)
def small(T):
    log = steps(T, T.rng, T.rng.randrange(1, 40), False)
    T.nontrivial(log)

@case('C03', 2)
def growing(T):
    log = steps(T, T.rng, T.rng.randrange(5, 120), True)
    T.nontrivial(log)

@case('C03', 1)
def repeated_growth(T):
    "very many small allocations: every growth step of the buffer, with marks that must survive"
    r = T.rng
    b = SegmentBuilder()
    m = bytearray()
    step = r.choice([8, 16, 24, 504, 512, 520, 1024])
    for i in range(r.randrange(20, 300)):
        pos = b.allocate(step)
        T.eq(pos, len(m), 'allocate'); m.extend(bytes(step))
        at = pos + step - 8
        b.write_uint64(at, (i * 0x9e3779b97f4a7c15) & 2**64 - 1)
        m[at:at + 8] = struct.pack('<Q', (i * 0x9e3779b97f4a7c15) & 2**64 - 1)
    T.ok(b.as_string() == bytes(m), 'content after growth, step %d' % step)
    T.nontrivial(step, len(m))

@enum('C03')
def sizes_around_growth(T):
    def go(a, c):
        b = SegmentBuilder()
        T.eq(b.allocate(a), 0, 'first')
        if a >= 8: b.write_int64(a - 8, -1)
        T.eq(b.allocate(c), a, 'second')
        T.eq(b.get_length(), a + c, 'length')
        e = bytearray(a + c)
        if a >= 8: e[a - 8:a] = b'\xff' * 8
        T.ok(b.as_string() == bytes(e), 'allocations %d + %d: second not zeroed or first changed' % (a, c))
        if c >= 8:
            b.write_int64(a + c - 8, -2)
            e[a + c - 8:] = struct.pack('<q', -2)
            T.ok(b.as_string() == bytes(e), 'allocations %d + %d after write' % (a, c))
    for a in (0, 8, 496, 504, 512, 520, 1272, 1280, 1288, 2048, 4096):
        for c in (0, 8, 16, 504, 512, 520, 760, 768, 776, 2000, 4096, 100000):
            yield (a, c), (lambda a=a, c=c: go(a, c))

@enum('C03')
def negative_first_alloc(T):
    def go(ds, ps):
        b = SegmentBuilder(); b.allocate(8)
        T.eq(b.alloc_struct(0, ds, ps), 8, 'alloc_struct')
        w = w64(b.as_string(), 0)
        T.eq(w, O.mk_struct(0, ds, ps), 'struct pointer', ds, ps)
    for ds in (0, 1, 255, 256, 32767, 32768, 65535):
        for ps in (0, 1, 255, 32767, 32768, 65535):
            yield (ds, ps), (lambda ds=ds, ps=ps: go(ds, ps))
    def lst(tag, n):
        b = SegmentBuilder(); b.allocate(16)
        T.eq(b.alloc_list(8, tag, n, 0), 16, 'alloc_list')
        T.eq(w64(b.as_string(), 8), O.mk_list(0, tag, n), 'list pointer', tag, n)
    for tag in range(8):
        for n in (0, 1, 2**16, 2**28 - 1, 2**28, 2**29 - 1):
            yield (tag, n), (lambda tag=tag, n=n: lst(tag, n))
    def backward(pos):
        b = SegmentBuilder(); b.allocate(pos + 8)
        T.eq(b.alloc_struct(pos, 1, 1), pos + 8, 'alloc_struct')
    yield 'b', (lambda: backward(64))
