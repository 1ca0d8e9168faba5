"""C07: dumps / compact. Fast path: the message is the header, the root pointer (struct, offset 0, same sizes) and exactly the bytes [data offset, END) of the block
that endof reported (C06 lemmas: that block moved elsewhere denotes an equal object). Slow path: header, and a root slot that is a deep copy (DEQ, C04)."""
from vc import *
from contracts.common import mkbuilder, bsid, bstore, bend, binv, LIM
from contracts.c10 import mkmsg, mkstruct, word, F, ST, V2
from contracts.c04 import copied, Deq, COPYEXC
from contracts.c06 import END
def obj(t, st):
    r, seg, b, o, d, P, q = mkstruct(t, st, t.variant.split(',')[0] == 'multi')
    st.pc.append(And(o >= 0, o % 8 == 0, o < LIM, b.len < LIM))     # messages that are dumped are smaller than 4 GiB
    return r, seg, b, o, d, q
# where the contract of copy_pointer was used: what was copied (recorded by the contract)
def root_copied(t, s, seg, o, d, q, slot, fields=True):
    "some builder holds at the slot a copy of a struct pointer that designates (o, d, q)"
    fs = [f for f in s.facts if type(f) is Deq and f.src == seg.id]
    return Or(*[And(f.guard, zi(f.d) == slot, F(s, f.p, 'kind') == 0, F(s, f.p, 'dsz') == d, F(s, f.p, 'psz') == q, zi(f.a) + 8 + 8 * F(s, f.p, 'offset') == o) for f in fs]), fs
def content(t, s, q, fs):
    "the bytes are those of the builder of the fact"
    out = []
    for f in fs:
        b = s.stores[f.sid]
        x = fresh('x')
        out.append(Implies(And(x >= 8, x < zi(q.len)), q.store.at(x) == b.at(x)))
    return Or(*out)
def slow_goals(t, s, v, seg, o, d, q):
    x = BM.as_seq(t.ex, s, v)
    if x is None:
        yield 'bytes', False
        return
    g, fs = root_copied(t, s, seg, o, d, q, 8)
    yield 'root-copied', g
    yield 'content', content(t, s, x, fs)
    for y in header(t, s, x): yield y
def header(t, s, x):
    L = zi(x.len)
    yield 'length', And(L % 8 == 0, L >= 16)
    # byte by byte: u32 count-1 = 0, u32 size in words
    size = (L - 8) / 8
    yield 'segment-count', And(*[x.store.at(i) == 0 for i in range(4)])
    yield 'segment-size', zi(x.store.dec(t.ex, s, 'I', 4)) == size
@task('capnpy.message:dumps', ['C07'], variants=('single,slow', 'multi,slow', 'single,fast', 'multi,fast'), weight=4)
def dumps(t):
    st = t.st()
    r, seg, b, o, d, q = obj(t, st)
    fast = t.variant.endswith('fast')
    def ret(s, v):
        if any(isinstance(f, Deq) for f in s.facts):
            for y in slow_goals(t, s, v, seg, o, d, q): yield y
            return
        yield 'only-when-asked', fast
        x = BM.as_seq(t.ex, s, v)
        if x is None:
            yield 'bytes', False
            return
        for y in header(t, s, x): yield y
        w = x.store.dec(t.ex, s, 'q', 8)
        yield 'root-pointer', And(F(s, w, 'kind') == 0, F(s, w, 'dsz') == d, F(s, w, 'psz') == q, Implies(d + q > 0, F(s, w, 'offset') == 0), Implies(d + q == 0, F(s, w, 'offset') != 0))
        j = fresh('j')
        e = o + zi(x.len) - 16
        yield 'body', Implies(And(j >= 16, j < zi(x.len)), x.store.at(j) == b.store.at(o + j - 16))
        ends = [(p, pos, r_) for p, pos, r_ in s.ghost.get('endof', ())]
        yield 'end-of-the-object', Or(*[And(F(s, p, 'kind') == 0, F(s, p, 'dsz') == d, F(s, p, 'psz') == q, zi(pos) + 8 + 8 * F(s, p, 'offset') == o, END(zi(p), zi(pos)) == e) for p, pos, r_ in ends])
        yield 'in-message', And(o >= 0, e <= zi(b.len))
    t.expect(t.run(st, [r, fast]), ret=ret, maybe=[(True, COPYEXC)])
@task(ST + '.compact', ['C07'], variants=V2, weight=3)
def compact(t):
    st = t.st()
    r, seg, b, o, d, q = obj(t, st)
    def ret(s, v):
        yield 'class', isinstance(v, Ref) and v.cls == r.cls
        if not isinstance(v, Ref): return
        h = s.heap[v.id]
        yield 'sizes', And(zi(h['_data_size']) == d, zi(h['_ptrs_size']) == q, zi(h['_ptrs_offset']) == zi(h['_data_offset']) + 8 * d)
        x = BM.as_seq(t.ex, s, s.get(h['_seg'], 'buf'))
        g, fs = root_copied(t, s, seg, o, d, q, 0)
        yield 'copied', g
        c = []
        for f in fs:
            bs = s.stores[f.sid]
            j = fresh('j')
            w = bs.dec(t.ex, s, 'q', 0)
            c.append(And(Implies(And(j >= 8, j < zi(x.len)), x.store.at(j) == bs.at(j)), Implies(d + q > 0, 8 + 8 * F(s, w, 'offset') == zi(h['_data_offset']))))
        yield 'content', Or(*c)
        yield 'self-contained', And(zi(h['_data_offset']) + 8 * (d + q) <= zi(x.len))
    t.expect(t.run(st, [r]), ret=ret, maybe=[(True, COPYEXC)])
@task(ST + '._as_pointer', ['C04', 'C07', 'C12'])
def as_pointer(t):
    st = t.st()
    t.variant = 'single'
    r, seg, b, o, d, q = obj(t, st)
    off = fresh('off')
    st.pc.append(And(off >= 0, off < LIM, off % 8 == 0, o - off - 8 >= -LIM + 8))
    t.expect(t.run(st, [r, off]), ret=lambda s, p: [('designates', And(F(s, p, 'kind') == 0, F(s, p, 'dsz') == d, F(s, p, 'psz') == q, off + 8 + 8 * F(s, p, 'offset') == o))])
# ---- dump: writes what dumps returns, once
BM.OATTR['outfile', 'write'] = lambda ex, s, o: iter([(s, G.Builtin('outfile.write', o))])
def _outwrite(ex, st, args, kw):
    st.ghost = dict(st.ghost, written=st.ghost.get('written', ()) + tuple(args[1:]))
    yield st, None
BM.CALLS['outfile.write'] = _outwrite
@task('capnpy.message:dump', ['C07'], variants=('fast', 'slow', 'default'))
def dump(t):
    st = t.st()
    r, seg, b, o, d, P, q = mkstruct(t, st)
    f, res = Opq(fresho('file'), 'outfile'), Opq(fresho('dumped'), 'bytes')
    fast = t.variant != 'slow'
    class Dumps(Contract):
        key = 'capnpy.message:dumps'
        def apply(self, ex, s, env):
            fp = env['fastpath']
            ex.ob('dumps/arguments', s, And(isinstance(env['obj'], Ref) and env['obj'].id == r.id, zb(fp) == fast if not isinstance(fp, bool) else fp == fast))
            yield s.fork(), Exc('IndexError')
            yield s, res
    t.ex.local['capnpy.message:dumps'] = Dumps()
    outs = t.run(st, [r, f] + ([] if t.variant == 'default' else [fast]))
    t.expect(outs, maybe=[(True, COPYEXC)], ret=lambda s, v: [('written-once', s.ghost.get('written', ()) == (res,))])
