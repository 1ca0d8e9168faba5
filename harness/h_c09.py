import oracle as O
from core import case, enum
from capnpy.buffered import StringBuffer, BufferedStream, BufferedSocket
from h_c08 import Chunks

class Ref(object):
    def __init__(self, d): self.d, self.p = d, 0
    def read(self, n=-1):
        if n == -1: n = len(self.d)
        r = self.d[self.p:self.p + n]; self.p += len(r)
        return r
    def readline(self):
        j = self.d.find(b'\n', self.p)
        return self.read(j + 1 - self.p if j >= 0 else -1)
    def tell(self): return self.p

class Sock(object):
    def __init__(self, data, r): self.d, self.r, self.p, self.sent = data, r, 0, []
    def recv(self, n):
        k = min(self.r.randrange(1, n + 1), len(self.d) - self.p)
        if self.r.random() < .5: k = min(k, self.r.randrange(1, 5))
        r = self.d[self.p:self.p + k]; self.p += k
        return r
    def sendall(self, d): self.sent.append(d)
    def close(self): pass

def blob(r):
    n = r.choice([0, 1, 2, 5, 8, 17, 40, 200])
    alpha = r.choice([b'\n', b'ab\n', b'abcdefghijklmnop\n', b'abc', b'\n\n\nx'])
    return bytes(bytearray(r.choice(bytearray(alpha)) for _ in range(n)))

def ops(r, n):
    for _ in range(r.randrange(1, 14)):
        k = r.randrange(10)
        if k < 6: yield ('read', r.choice([0, 1, 2, 3, 4, 7, 8, 16, n, n + 1, r.randrange(n + 2), 10**6, 2**31 - 1, 2**31, 2**32, 2**63 - 1 if r.random() < .2 else 5]))
        elif k < 9: yield ('readline',)
        else: yield ('readall', r.randrange(2))

def drive(T, f, ref, seq, tell=None):
    for op in seq:
        if op[0] == 'read': got, exp = f.read(op[1]), ref.read(op[1])
        elif op[0] == 'readline': got, exp = f.readline(), ref.readline()
        else: got, exp = (f.read() if op[1] else f.read(-1)), ref.read()
        T.ok(type(got) is bytes, 'result of %s is not bytes' % (op,), got)
        T.eq(got, exp, 'result of %s' % (op,))
        if tell: T.eq(tell(f), ref.tell(), 'position after %s' % (op,))

@case('C09', 2)
def chunked(T):
    r = T.rng
    d = blob(r)
    cuts = [r.choice([1, 1, 2, 3, 4, 8, 50]) for _ in range(r.randrange(1, 8))]
    seq = list(ops(r, len(d)))
    T.note((d, cuts, seq))
    drive(T, Chunks(d, cuts), Ref(d), seq, lambda f: f.p - (len(f.buf) - f.i))
    T.nontrivial(d, cuts, seq)

@case('C09', 2)
def string(T):
    r = T.rng
    d = blob(r)
    seq = list(ops(r, len(d)))
    T.note((d, seq))
    drive(T, StringBuffer(d), Ref(d), seq, lambda f: f.tell())
    T.nontrivial(d, seq)

@case('C09', 1)
def socket(T):
    r = T.rng
    d = blob(r)
    seq = list(ops(r, len(d)))
    T.note((d, seq))
    s = Sock(d, r)
    f = BufferedSocket(s, bufsize=r.choice([1, 2, 8, 8192]))
    drive(T, f, Ref(d), seq)
    parts = [blob(r) for _ in range(r.randrange(4))]
    for p in parts:
        f.write(p)
        if r.random() < .3: f.flush()
    f.flush()
    T.eq(b''.join(s.sent), b''.join(parts), 'bytes sent by write() and flush()')
    T.nontrivial(d, seq)

@enum('C09')
def small(T):
    "every sequence of 3 operations over every short text and chunking"
    import itertools
    OPS = [('read', 0), ('read', 1), ('read', 2), ('read', 3), ('read', 9), ('readline',), ('readall', 0)]
    texts = [bytes(bytearray(t)) for n in range(5) for t in itertools.product(b'a\n', repeat=n)]
    def go(d):
        for seq in itertools.product(OPS, repeat=3):
            for cuts in ([1], [2], [3], [1, 2], [100]):
                T.notes = ['%r %r %r' % (d, cuts, seq)]
                drive(T, Chunks(d, cuts), Ref(d), seq, lambda f: f.p - (len(f.buf) - f.i))
            drive(T, StringBuffer(d), Ref(d), seq, lambda f: f.tell())
    for d in texts:
        yield d, (lambda d=d: go(d))
