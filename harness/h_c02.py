import oracle as O
import struct
from core import case, enum, Fail
from capnpy import packing
from capnpy.segment import base
from capnpy.segment.segment import Segment
try:
    from capnpy.segment.base import BaseSegmentForTests as Seg
except ImportError:
    Seg = base.BaseSegment

FMT = 'bBhHiIqQfd'
SIZE = dict((f, struct.calcsize('<' + f)) for f in FMT)
METH = dict(b='read_int8', B='read_uint8', h='read_int16', H='read_uint16', i='read_int32', I='read_uint32', q='read_int64',
            Q='read_uint64', d='read_double', f='read_float')
def same(f, got, exp):
    if f in 'fd':
        return struct.pack('<d', got) == struct.pack('<d', exp) or (got != got and exp != exp)
    return got == exp and int(got) == exp

def expected(buf, f, off):
    n = SIZE[f]
    if off < 0 or off + n > len(buf): return None
    return struct.unpack('<' + f, bytes(buf[off:off + n]))[0]

def check_read(T, buf, off, f):
    e = expected(buf, f, off)
    s = Seg(bytes(buf))
    ways = [('read_primitive', lambda: s.read_primitive(off, ord(f))), (METH[f], lambda: getattr(s, METH[f])(off))]
    if f == 'Q': ways.append(('read_uint64_magic', lambda: s.read_uint64_magic(off)))
    if abs(off) < 2**31:
        ways.append(('unpack_primitive', lambda: packing.unpack_primitive(ord(f), bytes(buf), off)))
        ways.append(('unpack_primitive(bytearray)', lambda: packing.unpack_primitive(ord(f), bytearray(buf), off)))
        if f in 'qhI':
            n = {'q': 'unpack_int64', 'h': 'unpack_int16', 'I': 'unpack_uint32'}[f]
            ways.append((n, lambda: getattr(packing, n)(bytes(buf), off)))
    if f == 'I': ways.append(('base.unpack_uint32', lambda: base.unpack_uint32(bytes(buf), off)))
    if f == 'q': ways.append(('Segment.read_ptr', lambda: Segment(bytes(buf)).read_ptr(off)))
    for name, fn in ways:
        if e is None:
            T.raises(IndexError, fn, name, len(buf), off, f)
        else:
            got = fn()
            T.ok(same(f, got, e), '%s: got %r expected %r' % (name, got, e), bytes(buf), off, f)

def rand_off(r, n, size):
    return r.choice([0, n - size, n - size + 1, n, n - 1, -1, -size, -8, r.randrange(-10, n + 10), 2**31 - 1, 2**31 - size, 2**62,
                     2**63 - 1, 2**63 - size, -2**31, -2**63, r.randrange(0, n + 1)])

def special(r, f, n):
    k = r.randrange(4)
    if k == 0: return bytes(r.getrandbits(8) for _ in range(n))
    if k == 1: return b'\xff' * n
    if k == 2: return bytes(r.choice([0, 0x7f, 0x80, 0xff, 1]) for _ in range(n))
    b = bytearray(n)
    if n: b[r.randrange(n)] = r.choice([0x80, 1, 0x7f, 0xf0])
    return bytes(b)

@case('C02', 3)
def reads(T):
    r = T.rng
    n = r.choice([0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 24, 64])
    f = r.choice(FMT)
    buf = special(r, f, n)
    off = rand_off(r, n, SIZE[f])
    T.note((buf, off, f))
    check_read(T, buf, off, f)
    T.nontrivial(buf, off, f)

LIM = dict(b=(-128, 127), B=(0, 255), h=(-2**15, 2**15 - 1), H=(0, 2**16 - 1), i=(-2**31, 2**31 - 1), I=(0, 2**32 - 1),
           q=(-2**63, 2**63 - 1), Q=(0, 2**64 - 1))
FLOATS = [0.0, -0.0, 1.5, float('inf'), float('-inf'), float('nan'), 1e-310, 3.4e38, 1.1]
def rand_val(r, f):
    if f == 'd': return r.choice(FLOATS + [r.uniform(-1e300, 1e300)])
    if f == 'f': return struct.unpack('<f', struct.pack('<f', r.choice(FLOATS + [r.uniform(-1e30, 1e30)])))[0]
    lo, hi = LIM[f]
    return r.choice([lo, hi, 0, 1, lo + 1, hi - 1, r.randint(lo, hi)])

def check_write(T, buf, off, f, v):
    n = SIZE[f]
    if not -2**31 <= off < 2**31: return
    oob = off < 0 or off + n > len(buf)
    exp = bytearray(buf)
    if not oob: exp[off:off + n] = struct.pack('<' + f, v)
    ways = [('pack_into', lambda b: packing.pack_into(ord(f), b, off, v))]
    if f == 'q': ways.append(('pack_int64_into', lambda b: packing.pack_int64_into(b, off, v)))
    for name, fn in ways:
        b = bytearray(buf)
        if oob:
            T.raises(IndexError, lambda: fn(b), name, len(buf), off, f)
            T.eq(bytes(b), bytes(buf), name + ' changed the buffer although it raised', off, f)
        else:
            fn(b)
            T.eq(bytes(b), bytes(exp), name, buf, off, f, v)

@case('C02', 2)
def writes(T):
    r = T.rng
    n = r.choice([1, 2, 4, 7, 8, 9, 16, 17, 32])
    f = r.choice(FMT)
    buf = special(r, f, n)
    size = SIZE[f]
    off = r.choice([0, n - size, n - size + 1, n, -1, -size, r.randrange(-10, n + 10), 2**31 - 1, 2**31 - size])
    v = rand_val(r, f)
    T.note((buf, off, f, v))
    check_write(T, buf, off, f, v)
    if f == 'q': T.eq(packing.pack_int64(v), struct.pack('<q', v), 'pack_int64', v)
    sz, p = r.randrange(2**31), r.randint(-2**63, 2**63 - 1)
    if T.mode == 'cpy':
        T.eq(packing.pack_message_header(1, sz, p), struct.pack('<IIq', 0, sz, p), 'pack_message_header', sz, p)
    else:
        T.eq(packing.pack_message_header(1, sz, p & 2**63 - 1), struct.pack('<IIq', 0, sz, p & 2**63 - 1), 'pack_message_header', sz, p)
    T.nontrivial(buf, off, f, repr(v))

@case('C02', 1)
def writes_range(T):
    "a value the kind cannot hold never ends up stored truncated"
    r = T.rng
    f = r.choice('bBhHiIqQ')
    lo, hi = LIM[f]
    v = r.choice([lo - 1, hi + 1, lo - 1 - r.getrandbits(20), hi + 1 + r.getrandbits(20), 2**64, -2**64, 2**70])
    b = bytearray(16)
    T.note((f, v))
    T.raises(Exception, lambda: packing.pack_into(ord(f), b, 4, v), 'pack_into out of range', f, v)
    T.eq(bytes(b), bytes(16), 'buffer after failing pack_into')
    T.nontrivial(f, v)

@enum('C02')
def all_small(T):
    buf = bytes(bytearray((i * 37 + 11) & 255 for i in range(20)))
    for n in (0, 1, 3, 8, 12, 20):
        for f in FMT:
            for off in range(-10, n + 3):
                yield (n, f, off), (lambda n=n, f=f, off=off: (check_read(T, buf[:n], off, f), check_write(T, buf[:n], off, f, 1)))

@enum('C02')
def unknown_formats(T):
    s = Seg(bytes(16))
    for c in range(128):
        if chr(c) in FMT or chr(c) in 'xcbBhHiIqQdfepsPnNlL?': continue
        yield c, (lambda c=c: T.raises(Exception, lambda: s.read_primitive(0, c), 'unknown format'))
