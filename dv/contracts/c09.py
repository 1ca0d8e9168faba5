"""C09: buffered streams. The source is a byte string SRC delivered in chunks of unknown sizes; q bytes of it have been delivered to the buffer and D of those
have been returned. Class invariant: buf[i:] == SRC[D:q]. read(n) returns SRC[D:min(D+n, N)], read() SRC[D:N], readline() SRC[D:D'] with the first newline
at D'-1 or D' == N; the invariant holds again with D advanced by the length of the result."""
from vc import *
BF = 'capnpy.buffered'
BS = BF + ':BufferedStream'

def mkstream(t, st, cls='BufferedStream'):
    N, D, q, i = fresh('N'), fresh('D'), fresh('q'), fresh('i')
    st.pc.append(And(0 <= D, D <= q, q <= N, N < 1 << 60, i >= 0, i < 1 << 60))
    src = Seq(N, Store(N, 'SRC'))
    n = simp(i + q - D)
    buf = Seq(n, Store(n, 'junk', ((i, n, ('copy', src.store, simp(D - i))),)))
    st.ghost = dict(st.ghost, D=D, src=src)
    return st.new(cls, **{'buf': buf, 'i': i, '$src': src, '$q': q}), src, D
def stream_in(s):
    for i, h in s.heap.items():
        if '$q' in h: return i, h
def next_chunk(ex, st, o):
    "the next chunk of the source: at least one byte unless it has ended"
    i, h = stream_in(st) if o is None else (o.id, st.heap[o.id])
    q, src = h['$q'], h['$src']
    for s, more in ex.branch(st, zi(q) < zi(src.len)):
        if not more: yield s, b''
        else:
            q2 = fresh('q')
            s.pc.append(And(q2 > zi(q), q2 <= zi(src.len)))
            s.heap[i] = dict(s.heap[i], **{'$q': q2})
            n = simp(q2 - zi(q))
            yield s, Seq(n, Store(n, None, ((0, n, ('copy', src.store, q)),)))
@contract(BS + '._readchunk')
class ReadChunk(Contract):
    def apply(self, ex, st, env): return next_chunk(ex, st, env['self'])

class Collect(LoopSpec):
    "the list of parts holds SRC[D:q]"
    nonl = False
    def lists(self, s): return [v for v in s.env.values() if isinstance(v, Ref) and v.cls == 'list']
    def inv(self, ex, st0, s, k):
        i, h = stream_in(s)
        D, q, src = s.ghost['D'], h['$q'], h['$src']
        for n, r in enumerate(self.lists(s)):
            c = s.get(r, 'L').cat
            j = fresh('j')
            yield 'collected', And(c is not None and zi(c.len) == zi(q) - D, Implies(And(j >= 0, j < zi(c.len)), c.store.at(j) == src.store.at(D + j)) if c is not None else False)
        yield 'position', And(zi(q) <= zi(src.len), D <= zi(q))
        if self.nonl:
            x = fresh('x')
            yield 'no-newline-so-far', Implies(And(BM.nn_at(s, 'SRC', x), D <= x, x < zi(q)), src.store.at(x) != 10)
    def cands(self, ex, st0, s, k):
        i, h = stream_in(s)
        for n, v in s.env.items():
            if isint(v) and n in st0.env and isint(st0.env[n]): yield 'counts(%s)' % n, zi(v) == zi(h['$q']) - zi(s.ghost['D'])
    def havoc(self, ex, st0, h, k):
        i, hp = stream_in(h)
        D, src, q = h.ghost['D'], hp['$src'], fresh('q')
        h.pc.append(And(q >= zi(hp['$q']), q <= zi(src.len)))
        h.heap[i] = dict(hp, **{'$q': q})
        out = [('heap', i, '$q')]
        for r in self.lists(h):
            n = fresh('n')
            h.pc.append(n >= 1)
            m = simp(q - D)
            def item(s, i): raise Unsupported('element of a list')
            h.heap[r.id] = {'L': Lst(n, item, Seq(m, Store(m, None, ((0, m, ('copy', src.store, D)),))), None)}
            out.append(('heap', r.id, 'L'))
        if self.nonl: BM.no_newline(h, 'SRC', D, q)
        return out
class CollectLine(Collect): nonl = True
for _f, _c in (('_fillbuf', Collect), ('_readall', Collect), ('read', Collect), ('readline', CollectLine)):
    for _k in (0, 1): loop(BS + '.' + _f, _k)(_c)

def post(t, s, o, src, D, r, want):
    "r == SRC[D:want] and the invariant holds with D' = want"
    q = BM.as_seq(t.ex, s, r)
    if q is None:
        yield 'bytes', False
        return
    yield 'length', zi(q.len) == zi(want) - D
    j = fresh('j')
    yield 'bytes', Implies(And(j >= 0, j < zi(want) - D), q.store.at(j) == src.store.at(D + j))
    for x in sinv(t, s, o, src, want): yield x
def sinv(t, s, o, src, D):
    h = s.heap[o.id]
    b = BM.as_seq(t.ex, s, h['buf'])
    yield 'inv/index', And(zi(h['i']) >= 0, zi(h['i']) <= zi(b.len), zi(b.len) - zi(h['i']) == zi(h['$q']) - zi(D))
    k = fresh('k')
    yield 'inv/rest', Implies(And(k >= zi(h['i']), k < zi(b.len)), b.store.at(k) == src.store.at(zi(D) + k - zi(h['i'])))
    yield 'inv/position', And(zi(D) <= zi(h['$q']), zi(h['$q']) <= zi(src.len))

@task(BS + '.__init__', ['C09'], name='BufferedStream()')
def init(t):
    st = t.st()
    N = fresh('N')
    st.pc.append(N >= 0)
    src = Seq(N, Store(N, 'SRC'))
    o = st.new('BufferedStream', **{'buf': None, 'i': 0, '$src': src, '$q': 0})
    t.expect(t.run(st, [o]), ret=lambda s, v: sinv(t, s, o, src, 0))
@task(BS + '.read', ['C09'], variants=('n', 'all', 'default'))
def read(t):
    st = t.st()
    o, src, D = mkstream(t, st)
    if t.variant == 'n':
        n = fresh('n')
        st.pc.append(And(n >= 0, n <= SS[1]))
        want = simp(Z.If(D + n <= src.len, D + n, src.len))
    else: n, want = -1, src.len
    t.expect(t.run(st, [o] + ([] if t.variant == 'default' else [n])), ret=lambda s, v: post(t, s, o, src, D, v, want))
@task(BS + '.readline', ['C09'])
def readline(t):
    st = t.st()
    o, src, D = mkstream(t, st)
    t.expect(t.run(st, [o]), ret=lambda s, v: line_post(t, s, o, src, D, v))
def line_post(t, s, o, src, D, v, inv=True):
    q = BM.as_seq(t.ex, s, v)
    if q is None:
        yield 'bytes', False
        return
    E_ = simp(D + zi(q.len))
    if inv:
        for x in post(t, s, o, src, D, v, E_): yield x
    else:
        j = fresh('j')
        yield 'bytes', Implies(And(j >= 0, j < zi(q.len)), q.store.at(j) == src.store.at(D + j))
    x = fresh('x')
    yield 'no-newline-before-its-end', Implies(And(BM.nn_at(s, 'SRC', x), D <= x, x < zi(E_) - 1), src.store.at(x) != 10)
    yield 'ends-in-newline-or-at-end-of-source', Or(zi(E_) == src.len, And(zi(E_) > D, src.store.at(zi(E_) - 1) == 10))
    # a last line without a newline: no newline in its last byte is implied by the above (it would be the newline it ends in)
    yield 'within', And(zi(E_) <= src.len, zi(E_) >= D)

# ---- sockets
def _recv(ex, st, args, kw):
    ex.trusted.add('socket.recv')
    n = args[1]
    for s, v in next_chunk(ex, st, None):
        if isinstance(v, Seq): s.pc.append(Or(zi(v.len) <= zi(n), zi(n) <= 0))
        yield s, v
BM.OATTR['socket', 'recv'] = lambda ex, s, o: iter([(s, Builtin('socket.recv', o))])
BM.CALLS['socket.recv'] = _recv
@task(BF + ':BufferedSocket._readchunk', ['C09'])
def sock_chunk(t):
    st = t.st()
    o, src, D = mkstream(t, st, 'BufferedSocket')
    n = fresh('bufsize')
    st.pc.append(And(n > 0, n < 1 << 31))
    st.heap[o.id].update(sock=Opq(fresho('sock'), 'socket'), bufsize=n)
    q0 = st.heap[o.id]['$q']
    def ret(s, v):
        r, q = BM.as_seq(t.ex, s, v), s.heap[o.id]['$q']
        if r is None:
            yield 'bytes', False
            return
        yield 'next-bytes', zi(r.len) == zi(q) - q0
        j = fresh('j')
        yield 'bytes', Implies(And(j >= 0, j < zi(r.len)), r.store.at(j) == src.store.at(q0 + j))
        yield 'empty-only-at-end', Implies(zi(r.len) == 0, q0 == src.len)
        yield 'buffer-untouched', s.heap[o.id]['buf'] is st_buf and s.heap[o.id]['i'] is st_i
    st_buf, st_i = st.heap[o.id]['buf'], st.heap[o.id]['i']
    t.expect(t.run(st, [o]), ret=ret)

# ---- in-memory
SB = BF + ':StringBuffer'
def mkstring(t, st):
    N, D = fresh('N'), fresh('D')
    st.pc.append(And(0 <= D, D <= N, N < 1 << 60))
    src = Seq(N, Store(N, 'SRC'))
    return st.new('StringBuffer', s=src, i=D), src, D
def string_post(t, s, o, src, D, v, want):
    q = BM.as_seq(t.ex, s, v)
    if q is None:
        yield 'bytes', False
        return
    yield 'length', zi(q.len) == zi(want) - D
    j = fresh('j')
    yield 'bytes', Implies(And(j >= 0, j < zi(q.len)), q.store.at(j) == src.store.at(D + j))
    yield 'position', zi(s.get(o, 'i')) == zi(want)
    yield 'source', s.get(o, 's') is src
@task(SB + '.__init__', ['C09', 'C08'])
def sb_init(t):
    st = t.st()
    n = fresh('N')
    st.pc.append(n >= 0)
    src = Seq(n, Store(n, 'SRC'))
    o = st.new('StringBuffer', s=None, i=0)
    t.expect(t.run(st, [o, src]), ret=lambda s, v: [('position', zi(s.get(o, 'i')) == 0), ('source', s.get(o, 's') is src)])
@task(SB + '.read', ['C09', 'C08'], variants=('n', 'all', 'default'))
def sb_read(t):
    st = t.st()
    o, src, D = mkstring(t, st)
    if t.variant == 'n':
        n = fresh('n')
        st.pc.append(And(n >= 0, n <= SS[1]))
        want = simp(Z.If(D + n <= src.len, D + n, src.len))
    else: n, want = -1, src.len
    t.expect(t.run(st, [o] + ([] if t.variant == 'default' else [n])), ret=lambda s, v: string_post(t, s, o, src, D, v, want))
@task(SB + '.readline', ['C09'])
def sb_readline(t):
    st = t.st()
    o, src, D = mkstring(t, st)
    def ret(s, v):
        for x in line_post(t, s, o, src, D, v, False): yield x
        yield 'position', zi(s.get(o, 'i')) == D + zi(BM.as_seq(t.ex, s, v).len)
    t.expect(t.run(st, [o]), ret=ret)
@task(SB + '.tell', ['C09', 'C08'])
def sb_tell(t):
    st = t.st()
    o, src, D = mkstring(t, st)
    t.expect(t.run(st, [o]), ret=lambda s, v: [('result', zi(v) == D)])
