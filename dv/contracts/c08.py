"""C08: loading. The stream is a byte string F of length N with a position; read(n) returns F[pos:pos+min(n, N-pos)] and moves the position by that much
(the contract of every stream: discharged for BufferedStream, BufferedSocket and StringBuffer by C09, assumed for other file objects).
With n = u32(F, p0) + 1 segments, PS(k) = sum of the first k segment sizes in words and H = 4 + 4n rounded up to a multiple of 8, a message takes H + 8 PS(n) bytes.
_load_message moves the position by exactly that much and its segment is F[p0+H : p0+H+8PS(n)] with segment_offsets[i] = 8 PS(i); EOFError exactly when nothing is
left; ValueError exactly when a part of the message is missing."""
from vc import *
MS = 'capnpy.message'
PS = ufn('PS', INT, INT)

class Stream(object): pass
def mkfile(t, st):
    N, p0 = fresh('N'), fresh('p0')
    st.pc.append(And(0 <= p0, p0 <= N, N < 1 << 60))
    F = Seq(N, Store(N, 'F'))
    f = st.new('FileLike' if t.pyx else 'file', **{'$F': F, '$pos': p0})
    st.ghost = dict(st.ghost, file=f, F=F, p0=p0)
    return f, F, p0
def file_read(ex, st, f, n):
    F, pos = st.get(f, '$F'), st.get(f, '$pos')
    if ex.cmode:
        for s, v in ex.frompy(CT('int', 64, True), n, st):
            if isinstance(v, Exc): yield s, v
            else:
                for y in file_read2(ex, s, f, v): yield y
    else:
        for y in file_read2(ex, st, f, n): yield y
def file_read2(ex, st, f, n):
    F, pos = st.get(f, '$F'), st.get(f, '$pos')
    if conc(n) == -1: n = zi(F.len) - zi(pos)
    else:
        ex.ob('read/pre/size', st, zi(n) >= 0)
        st.pc.append(zb(zi(n) >= 0))
    for s, all_ in ex.branch(st, zi(n) <= zi(F.len) - zi(pos)):
        m = n if all_ else simp(zi(F.len) - zi(pos))
        s.heap[f.id] = dict(s.heap[f.id], **{'$pos': simp(zi(pos) + zi(m))})
        yield s, Seq(m, Store(m, None, ((0, m, ('copy', F.store, pos)),)))
from ir import CT
@contract('capnpy.filelike:FileLike.read')
class FileRead(Contract):
    def apply(self, ex, st, env): return file_read(ex, st, env['self'], env.get('size', -1))
BM.ATTR['file', 'read'] = lambda ex, s, o: iter([(s, Builtin('file.read', o))])
BM.CALLS['file.read'] = lambda ex, st, args, kw: file_read(ex, st, args[0], args[1] if len(args) > 1 else -1)

def u32(ex, s, F, off): return F.store.dec(ex, s, 'I', simp(off))
def size_at(ex, s, i): return u32(ex, s, s.ghost['F'], zi(s.ghost['p0']) + 4 + 4 * zi(i))
def ps_base(s): s.pc.append(PS(0) == 0)
def ps_step(ex, s, i): s.pc.append(PS(zi(i) + 1) == PS(zi(i)) + zi(size_at(ex, s, i)))
def ps_mono(s, i, j): s.pc.append(Implies(And(0 <= zi(i), zi(i) <= zi(j)), And(PS(zi(i)) >= 0, PS(zi(i)) <= PS(zi(j)), PS(zi(j)) - PS(zi(i)) <= (zi(j) - zi(i)) * ((1 << 32) - 1))))   # lemma/prefix-sums

class Sizes(LoopSpec):
    """the loops over the segments, whatever their order: every list of sizes holds the first k sizes, every list of offsets the first k+1 prefix sums (in bytes);
    which of the two a list is shows when the loop starts (empty: sizes; [0]: offsets)"""
    def classify(self, ex, st0):
        out = {}
        for nm, v in st0.env.items():
            if isinstance(v, Ref) and v.cls == 'list':
                L = st0.get(v, 'L')
                if conc(L.n) == 0: out[nm] = 'sizes'
                elif conc(L.n) == 1: out[nm] = 'offsets'
        return out
    def changing(self, ex, st0, s):
        "only lists that the loop appends to"
        return self.classify(ex, st0)
    def inv(self, ex, st0, s, k):
        ps_base(s)
        if conc(k) is None:
            ps_step(ex, s, zi(k) - 1); ps_step(ex, s, k)
            n = zi(u32(ex, s, s.ghost['F'], zi(s.ghost['p0']))) + 1
            ps_mono(s, k, n); ps_mono(s, zi(k) + 1, n)
        F = s.ghost['F']
        for nm, c in self.classify(ex, st0).items():
            L = s.get(s.env[nm], 'L')
            i = fresh('i')
            s2 = s.fork(i >= 0, i < zi(L.n))
            if c == 'sizes':
                yield 'sizes/length', zi(L.n) == zi(k)
                yield 'sizes/sum', zi(L.sum) == PS(zi(k)) if L.sum is not None else False
                if conc(L.n) != 0: yield 'sizes/items', Implies(And(*s2.pc[len(s.pc):]), zi(L.item(s2, i)) == zi(size_at(ex, s2, i)))
            else:
                yield 'offsets/length', zi(L.n) == zi(k) + 1
                yield 'offsets/items', Implies(And(*s2.pc[len(s.pc):]), zi(L.item(s2, i)) == 8 * PS(i))
        # the stream: a loop that reads has read k sizes
        pos0, pos = st0.get(st0.ghost['file'], '$pos'), s.get(s.ghost['file'], '$pos')
        yield 'position', Or(zi(pos) == zi(pos0), zi(pos) == zi(pos0) + 4 * zi(k)) if conc(k) is None else zi(pos) == zi(pos0) + 0
    def cands(self, ex, st0, s, k):
        for n, v in s.env.items():
            if isint(v) and n in st0.env and isint(st0.env[n]):
                yield 'prefix-sum(%s)' % n, zi(v) == 8 * PS(zi(k))
                yield 'prefix-words(%s)' % n, zi(v) == PS(zi(k))
        pos0, pos = st0.get(st0.ghost['file'], '$pos'), s.get(s.ghost['file'], '$pos')
        yield 'position-fixed', zi(pos) == zi(pos0)
        yield 'position-moves', zi(pos) == zi(pos0) + 4 * zi(k)
        yield 'position-within', zi(pos) <= zi(s.ghost['F'].len)
    def havoc(self, ex, st0, h, k):
        ps_mono(h, 0, k)
        f = h.ghost['file']
        out = [('heap', f.id, '$pos')]
        h.heap[f.id] = dict(h.heap[f.id], **{'$pos': fresh('pos')})
        for nm, c in self.classify(ex, st0).items():
            r = h.env[nm]
            if c == 'sizes': L = Lst(k, lambda s, i: size_at(ex, s, i), None, PS(zi(k)))
            else: L = Lst(simp(zi(k) + 1), lambda s, i: simp(8 * PS(zi(i))), None, None)
            h.heap[r.id] = {'L': L}
            out.append(('heap', r.id, 'L'))
        return out
for _k in (0, 1, 2): loop(MS + ':_load_buffer_multiple_segments', _k)(Sizes)

@task(MS + ':lemma/prefix-sums', ['C08'], modes=('py',))
def lemma_ps(t):
    st = t.st()
    f, F, p0 = mkfile(t, st)
    i, j = fresh('i'), fresh('j')
    M = (1 << 32) - 1
    ps_base(st)
    t.ex.ob('base', st.fork(i == j), And(PS(i) <= PS(j), PS(j) - PS(i) <= (j - i) * M))
    t.ex.ob('base/zero', st, PS(0) >= 0)
    s = st.fork(0 <= i, i <= j, PS(i) >= 0, PS(i) <= PS(j), PS(j) - PS(i) <= (j - i) * M)
    ps_step(t.ex, s, j)
    t.ex.ob('step', s, And(PS(i) <= PS(j + 1), PS(j + 1) - PS(i) <= (j + 1 - i) * M))
    t.normal = 1

def message_shape(ex, st):
    "(number of segments, header length, total length); recorded facts"
    F, p0 = st.ghost['F'], st.ghost['p0']
    n = simp(zi(u32(ex, st, F, zi(p0))) + 1)
    H = simp(((4 + 4 * zi(n) + 7) / 8) * 8)
    ps_base(st); ps_step(ex, st, 0); ps_mono(st, 0, n)
    for k in range(ex.unroll_bound + 1 if ex.unroll_bound else 0):
        ps_step(ex, st, k); ps_mono(st, k, n)
    return n, H, simp(zi(H) + 8 * PS(zi(n)))
def prefix(s, i, n):
    ps_mono(s, i, n); ps_mono(s, 0, i)
    return simp(8 * PS(zi(i)))

@task(MS + ':_load_message', ['C08', 'C07'], weight=5)
def load_message(t):
    st = t.st()
    f, F, p0 = mkfile(t, st)
    avail = zi(F.len) - p0
    n, H, total = message_shape(t.ex, st)
    words = PS(zi(n))
    def ret(s, v):
        h = s.heap[v.id] if isinstance(v, Ref) else {}
        seg = h.get('_seg')
        if not isinstance(seg, Ref):
            yield 'result', False
            return
        yield 'position', zi(s.get(f, '$pos')) == p0 + total
        b = BM.as_seq(t.ex, s, s.get(seg, 'buf'))
        j = fresh('j')
        yield 'body/length', zi(b.len) == 8 * words
        yield 'body/bytes', Implies(And(j >= 0, j < zi(b.len)), b.store.at(j) == F.store.at(p0 + zi(H) + j))
        yield 'root', And(zi(h['_data_offset']) == 0, zi(h['_data_size']) == 0, zi(h['_ptrs_size']) == 1, zi(h['_ptrs_offset']) == 0)
        so = s.heap[seg.id].get('segment_offsets')
        if so is None:
            yield 'single-segment', n == 1
            yield 'segment-class', seg.cls == 'Segment'
        else:
            yield 'segment-class', seg.cls == 'MultiSegment'
            if isinstance(so, SymTup):
                i = fresh('i')
                s2 = s.fork(i >= 0, i < zi(so.n))
                yield 'segment_offsets/length', zi(so.n) == zi(n)
                it = so.item(s2, i)
                yield 'segment_offsets/items', Implies(And(*s2.pc[len(s.pc):]), zi(it) == 8 * PS(i))
            elif isinstance(so, Tup):
                yield 'segment_offsets/length', len(so.xs) == zi(n)
                for i, x in enumerate(so.xs): yield 'segment_offsets/items', zi(x) == 8 * PS(i)
            else: raise Unsupported('segment_offsets %r' % (so,))
        if t.pyx: yield 'segment-buffer', isinstance(s.get(seg, 'cbuf'), Ptr) and s.get(seg, 'cbuf').base is s.get(seg, 'buf') and conc(s.get(seg, 'cbuf').off) == 0
    trunc = And(avail > 0, Or(avail < 4, avail < total))
    missing = And(avail > 0, Or(avail < 4, avail < 4 + 4 * zi(n), And(words > 0, avail < total)))
    t.expect(t.run(st, [f]), raises=[(avail == 0, ('EOFError',)), (missing, ('ValueError', 'OverflowError'))], ret=ret,
             maybe=[(And(avail >= 4, words == 0), ('AssertionError', 'ValueError'))])

@contract(MS + ':_load_message')
class LoadMessage(Contract):
    def apply(self, ex, st, env):
        f = env['f']
        st.ghost = dict(st.ghost, F=st.get(f, '$F'), p0=st.get(f, '$pos'), file=f)
        F, p0 = st.ghost['F'], st.ghost['p0']
        avail = simp(zi(F.len) - zi(p0))
        for s, empty in ex.branch(st, zi(avail) == 0):
            if empty:
                yield s, Exc('EOFError')
                continue
            n, H, total = message_shape(ex, s)
            s2 = s.fork(Or(zi(avail) < 4, zi(avail) < zi(total), PS(zi(n)) == 0))
            if ex.feasible(s2):
                p = fresh('pos')
                s2.pc.append(And(p >= 0, p <= zi(F.len)))
                s2.heap[f.id] = dict(s2.heap[f.id], **{'$pos': p})
                yield s2, Exc('ValueError')
                yield s2.fork(PS(zi(n)) == 0), Exc('AssertionError')
            s3 = s.fork(zi(avail) >= zi(total), zi(avail) >= 4, PS(zi(n)) > 0)
            if ex.feasible(s3):
                s3.heap[f.id] = dict(s3.heap[f.id], **{'$pos': simp(zi(p0) + zi(total))})
                ln = simp(8 * PS(zi(n)))
                b = Seq(ln, Store(ln, None, ((0, ln, ('copy', F.store, simp(zi(p0) + zi(H)))),)))
                seg = s3.new('MultiSegment', buf=b, segment_offsets=SymTup(n, lambda s, i: prefix(s, i, n)))
                if ex.cmode: s3.heap[seg.id]['cbuf'] = Ptr(b, 0)
                yield s3, s3.new('Struct', _seg=seg, _data_offset=0, _ptrs_offset=0, _data_size=0, _ptrs_size=1)
def _root(ex, st, msg, off, cls):
    yield st, st.new('Struct', _root=True)
    yield st.fork(), None
    yield st.fork(), Exc('AssertionError')
    yield st.fork(), Exc('IndexError')
    yield st.fork(), Exc('ValueError')
class ReadRoot(object): pass

@task(MS + ':load', ['C08'])
def load(t):
    "load moves the stream exactly as _load_message does, whatever reading the root pointer then does"
    st = t.st()
    f, F, p0 = mkfile(t, st)
    avail = zi(F.len) - p0
    n, H, total = message_shape(t.ex, st)
    ok = And(avail >= 4, avail >= total, PS(zi(n)) > 0)
    outs = t.run(st, [f, ClsV('Struct', t.w.find_class('Struct'))])
    t.expect(outs, raises=[(avail == 0, ('EOFError',))], maybe=[(Not(ok), ('ValueError', 'AssertionError')), (ok, ('AssertionError', 'IndexError', 'ValueError'))],
             ret=lambda s, v: [('position', zi(s.get(f, '$pos')) == p0 + total), ('complete', ok)])
@contract(MS + ':load')
class Load(Contract):
    def apply(self, ex, st, env):
        f = env['f']
        src = st.get(f, 's')
        ex.ob('load/pre/start', st, zi(st.get(f, 'i')) == 0)
        E_ = ufn('MSGLEN', INT)() if False else Z.Int('MSGLEN')
        st.pc.append(And(E_ >= 0, E_ <= zi(src.len)))
        st.heap[f.id] = dict(st.heap[f.id], i=E_)
        r = Opq(fresho('msg'), 'Struct')
        yield st, r
        for c in ('EOFError', 'ValueError', 'AssertionError', 'IndexError'): yield st.fork(), Exc(c)
@task(MS + ':loads', ['C08'])
def loads(t):
    st = t.st()
    N = fresh('N')
    st.pc.append(And(N >= 0, N < 1 << 60))
    src = Seq(N, Store(N, 'F'))
    E_ = Z.Int('MSGLEN')
    t.expect(t.run(st, [src, ClsV('Struct', t.w.find_class('Struct'))]), maybe=[(True, ('EOFError', 'AssertionError', 'IndexError', 'ValueError'))],
             ret=lambda s, v: [('all-bytes-consumed', E_ == N), ('result', isinstance(v, Opq) and v.cls == 'Struct')])

# ---- load_all: a generator. Ghost state: how many messages were loaded and how many were handed out
@loop(MS + ':load_all')
class LoadAll(LoopSpec):
    def inv(self, ex, st0, st, k):
        yield 'loaded', zi(st.ghost['loads']) == zi(k)
        yield 'all-handed-out', zi(st.ghost['yields']) == zi(st.ghost['loads'])
    def havoc(self, ex, st0, st, k):
        st.ghost = dict(st.ghost, loads=fresh('loads'), yields=fresh('yields'))
        return set()
MSG = ufn('MESSAGE', INT, OV)
@task(MS + ':load_all', ['C08'])
def load_all(t):
    "hands out the result of each load() of the same stream, one after the other, until load() raises; it ends exactly when that is EOFError"
    st = t.st()
    f, pt = Opq(fresho('file')), ClsV('Struct', t.w.find_class('Struct'))
    st.ghost = dict(st.ghost, loads=0, yields=0, end=None)
    class Load1(Contract):
        key = MS + ':load'
        def apply(self, ex, s, env):
            ex.ob('load/same-stream', s, env['f'] is f)
            ex.ob('load/payload-type', s, env['payload_type'] is pt)
            for c in (None, 'EOFError', 'ValueError', 'AssertionError', 'IndexError'):
                s2 = s.fork()
                if c is None:
                    n = zi(s.ghost['loads'])
                    s2.ghost = dict(s2.ghost, loads=simp(n + 1))
                    yield s2, Opq(MSG(n), 'Struct')
                else:
                    s2.ghost = dict(s2.ghost, end=c)
                    yield s2, Exc(c)
    def handed_out(ex, s, v):
        n = zi(s.ghost['yields'])
        ex.ob('yield/the-message-just-loaded', s, v.t == MSG(n) if isinstance(v, Opq) else False)
        s.ghost = dict(s.ghost, yields=simp(n + 1))
        yield s, None
    t.ex.local[MS + ':load'] = Load1()
    t.ex.local['yield'] = handed_out
    outs = t.run(st, [f, pt])
    for s, v in outs:
        e = s.ghost['end']
        if isinstance(v, Exc): t.ex.ob('error/is-the-one-of-load', s, e == v.cls and e != 'EOFError')
        else:
            t.normal += 1
            t.ex.ob('end/at-a-clean-end-only', s, e == 'EOFError')
            t.ex.ob('end/every-message-handed-out', s, zi(s.ghost['yields']) == zi(s.ghost['loads']))
