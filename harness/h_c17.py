import oracle as O, struct, sys
from core import case, enum
from capnpy import _hash

M61 = 2**61 - 1
def edge64(r):
    k = r.randrange(4)
    if k == 0: return r.randrange(2**64)
    base = r.choice([0, 2**31, 2**32, 2**60, M61, 2**61, 2 * M61, 2**62, 3 * M61, 2**63, 4 * M61, 5 * M61, 6 * M61, 7 * M61, 8 * M61, 2**64 - 1])
    return (base + r.randrange(-3, 4)) % 2**64

@enum('C17')
def edges(T):
    for base in (0, 2**31, 2**32, 2**60, M61, 2**61, 2 * M61, 2**62, 3 * M61, 2**63, 4 * M61, 5 * M61, 6 * M61, 7 * M61, 8 * M61, 2**64 - 1):
        for d in range(-9, 10):
            v = (base + d) % 2**64
            s = v - 2**64 if v >= 2**63 else v
            def f(v=v, s=s):
                T.eq(_hash.longhash(v), hash(v), 'longhash', v)
                T.eq(_hash.inthash(s), hash(s), 'inthash', s)
            yield ('%d' % v, f)

@case('C17')
def ints(T):
    for _ in range(50):
        v = edge64(T.rng)
        s = v - 2**64 if v >= 2**63 else v
        T.eq(_hash.longhash(v), hash(v), 'longhash', v)
        T.eq(_hash.inthash(s), hash(s), 'inthash', s)
    T.nontrivial(v)

@case('C17')
def strings(T):
    n = T.rng.choice([0, 1, 2, 7, 8, 9, 16, 17, 100, 5000])
    b = O.rand_bytes(T.rng, n)
    for _ in range(10):
        start = T.rng.choice([0, 0, 1, n - 1, n, n + 1, T.rng.randrange(0, n + 3), 2**40])
        if start < 0: start = 0
        size = T.rng.choice([0, 1, n, n - start if n > start else 0, n + 1, n - 1 if n else 0, T.rng.randrange(0, n + 3), 2**31, 2**62])
        e = b[start:start + size]
        T.eq(_hash.strhash(b, start, size), hash(e), 'strhash', n, start, size)
    T.nontrivial(b, start, size)

@case('C17', modes=('cpy',))
def strings_negative(T):
    "no range makes it read outside (run under the address sanitizer too)"
    n = T.rng.choice([0, 1, 8, 100])
    b = O.rand_bytes(T.rng, n)
    for _ in range(10):
        start = T.rng.choice([-1, -n, -2**40, -8, -2**62, 0, 3, n])
        size = T.rng.choice([-1, 0, 5, -2**62, 2**62, 2**63 - 1, -n, n + 8])
        h = _hash.strhash(b, start, size)
        if start >= 0 and size >= 0: T.eq(h, hash(b[start:start + size]), 'strhash', n, start, size)
    T.nontrivial(b, start, size)

@case('C17')
def tuples(T):
    n = T.rng.choice([0, 1, 2, 3, 4, 8, 20])
    hs = []
    for _ in range(n):
        v = edge64(T.rng)
        hs.append(v - 2**64 if v >= 2**63 else v)
    if hasattr(sys, 'pypy_version_info'):
        t = tuple(hs)
        T.eq(_hash.__dict__['__tuplehash_for_tests'](t), hash(t), 'tuplehash')
    else:
        class H(object):
            def __init__(self, h): self.h = h
            def __hash__(self): return self.h
        # the item hashes are what hash() returns, so never -1
        items = [H(h) for h in hs]
        T.eq(_hash.__dict__['__tuplehash_for_tests']([hash(x) for x in items]), hash(tuple(items)), 'tuplehash', hs)
    T.nontrivial(tuple(hs))
