"""C15: copy_from_list.  lst is a sequence of n arbitrary elements; i is an arbitrary index: after the call the list has n items, element i is at its own position
and everything that was there before, except the pointer slot, is unchanged."""
from vc import *
from contracts.common import *
from contracts.c04 import Deq, COPYEXC, hole, havoc_builder, binv_, interest, copied, slot_goals
from contracts.c10 import mkmsg, word, F, inside
from contracts.c12 import Slot, LISTEXC, CopyList
CL = dict(py='capnpy.segment._copy_list:copy_from_list', pyx='capnpy.segment.builder:copy_from_list')
def uf(n): return ufn(n, INT, INT)
DO, DS, PS, LEN, START = uf('EL_data_offset'), uf('EL_data_size'), uf('EL_ptrs_size'), uf('EL_len'), uf('EL_start')
NONE_, OKCLS = ufn('EL_none', INT, BOOL), ufn('EL_instance', INT, BOOL)
ELEM, FELEM, OBJ = uf('EL_int'), ufn('EL_float', INT, FV), ufn('EL_obj', INT, OV)

class G15(object): pass
def setup(t, kind):
    t.w.module('capnpy.list')
    st = t.st()
    b, e = mkbuilder(t, st, aligned=True)
    d, n, i = fresh('d'), fresh('n'), fresh('i')
    st.pc.append(And(alloc_pre(e, d), n >= 0, n < 1 << 40, i >= 0, i < n))
    g = G15()
    g.b, g.e, g.d, g.n, g.i, g.old = b, e, d, n, i, bstore(st, b)
    st.ghost['c15'] = g
    return st, g
def prim_items(k):
    def item(s, j): return FELEM(zi(j)) if k in 'fd' else ELEM(zi(j))
    return item
POOL = Store(1 << 60, 'pool')
def text_value(s, j, uni):
    j = zi(j)
    s.pc.append(And(LEN(j) >= 0, LEN(j) < 1 << 28, START(j) >= 0))
    q = Seq(LEN(j), Store(LEN(j), None, ((0, LEN(j), ('copy', POOL, START(j))),)))
    q.index = j
    v = q
    if uni:
        v = Opq(OBJ(j), 'str')
        v.utf8 = q
    return G.Opt(NONE_(j), None, v)
class Old(object): pass

# ------------------------------------------------------------------ the loop that writes the items
class Items(LoopSpec):
    def split(self, ex, st0, h, k):
        i = st0.ghost['c15'].i
        return [k < i, k == i, k > i]
    def havoc(self, ex, st0, h, k):
        g = st0.ghost['c15']
        e = fresh('end')
        h.pc.append(And(e >= 0, e < LIM))
        h.facts = []
        if g.flat: h.pc.append(e == zi(bend(st0, g.b)))
        return havoc_builder(ex, h, g.b, g.e, e, [])
    def inv(self, ex, st0, s, k):
        g = st0.ghost['c15']
        e1, e = zi(bend(st0, g.b)), zi(bend(s, g.b))
        yield 'end', And(e >= e1, e % 8 == 0) if not g.flat else e == e1
        for y in binv_(s, g.b): yield y
        for y in g.inv(ex, st0, s, k): yield y
    def facts(self, ex, st0, h, k):
        g = st0.ghost['c15']
        if g.slot is None: return []
        lo, hi = fresh('lo'), fresh('hi')
        h.pc.append(And(zi(bend(st0, g.b)) <= lo, lo <= hi, hi <= zi(bend(h, g.b))))
        return [g.slot(ex, st0, h, k, lo, hi)]
    def facts_check(self, ex, st0, s, k):
        g = st0.ghost['c15']
        if g.slot is not None:
            for y in g.check(ex, st0, s, k): yield y
for _m in CL: loop(CL[_m], 2, modes=(_m,))(Items)

def head(t, s, g, tag, count, size):
    "the pointer, its target and the frame"
    b, e = g.b, zi(g.e)
    w = bstore(s, b).dec(t.ex, s, 'q', g.d)
    T_ = simp(zi(g.d) + 8 + 8 * F(s, w, 'offset'))
    yield 'pointer', And(F(s, w, 'kind') == 1, F(s, w, 'ltag') == tag, F(s, w, 'lcnt') == zi(count))
    yield 'new-block', And(zi(T_) == e, e + zi(size) <= zi(bend(s, b)), zi(bend(s, b)) % 8 == 0)
    x = fresh('x')
    yield 'frame', Implies(And(x >= 0, x < e, Or(x < g.d, x >= g.d + 8)), bstore(s, b).at(x) == g.old.at(x))
    for y in binv(t, s, b): yield y
TAG = {1: 2, 2: 3, 4: 4, 8: 5}
def cltask(**kw):
    def dec(f):
        for m in CL: task(CL[m], ['C15', 'C12'], modes=(m,), **kw)(f)
        return f
    return dec
@cltask(variants=tuple('prim,' + k for k in 'bBhHiIqQfd') + ('enum,h',), weight=2)
def prims(t):
    cls, k = t.variant.split(',')
    st, g = setup(t, k)
    z = SIZE_OF[k]
    a = dict(item_length=z, size_tag=TAG[z], ifmt=ord(k), t=Opq(fresho('bt'), 'BuiltinType'))
    it = st.new('PrimitiveItemType', **a) if cls == 'prim' else st.new('EnumItemType', enumcls=Opq(fresho('enumcls'), 'EnumClass'), **a)
    val = prim_items(k)(st, g.i)
    pos = simp(zi(g.e) + z * g.i)
    lo, hi = krange(k)
    fits = (And(val >= lo, val <= hi) if k not in 'fd' else Z.BoolVal(True) if k == 'd' or t.pyx else ufn('fits_float', FV, BOOL)(val))
    g.flat, g.slot, g.x = True, None, fresh('x')
    def inv(ex, st0, s, k_):
        yield 'rest-zero', Implies(And(g.x >= zi(g.e) + z * zi(k_), g.x < zi(bend(s, g.b))), bstore(s, g.b).at(g.x) == 0)
        c = zi(k_) > g.i
        if ex.known(s, Not(c)): return
        s2 = s.fork(c)
        yield 'fits', Implies(c, fits)
        yield 'item', Implies(c, eq_val(bstore(s2, g.b).dec(ex, s2, k, pos), val))
    g.inv = inv
    def ret(s, v):
        for y in head(t, s, g, TAG[z], g.n, z * g.n): yield y
        yield 'unacceptable-raises', fits
        yield 'item', eq_val(bstore(s, g.b).dec(t.ex, s, k, pos), val)
        yield 'padding', Implies(And(g.x >= zi(g.e) + z * g.n, g.x < zi(bend(s, g.b))), bstore(s, g.b).at(g.x) == 0)
    t.expect(t.run(st, [g.b, g.d, it, SymTup(g.n, prim_items(k))]), ret=ret, maybe=[(True, ('struct.error', 'OverflowError', 'ValueError'))])
@cltask(variants=('text', 'data', 'utext', 'list'), weight=2)
def pointers(t):
    v = t.variant
    st, g = setup(t, v)
    add = 1 if v != 'data' else 0
    a = dict(item_length=8, size_tag=6)
    if v == 'list':
        inner = Opq(fresho('inner'), 'ItemType')
        it = st.new('ListItemType', inner_item_type=inner, **a)
        def item(s, j):
            o = Opq(OBJ(zi(j)), 'sequence')
            o.index = zi(j)
            return G.Opt(NONE_(zi(j)), None, o)
    else:
        it = st.new('TextUnicodeItemType' if v == 'utext' else 'TextItemType', additional_size=-add, **a)
        def item(s, j): return text_value(s, j, v == 'utext')
    pos = simp(zi(g.e) + 8 * g.i)
    none = NONE_(g.i)
    g.flat, g.x = False, fresh('x')
    def is_item(s, f):
        if f.kind != ('list' if v == 'list' else 'text'): return False
        if v == 'list': return And(f.what[1] is inner, f.what[0].index == g.i) if hasattr(f.what[0], 'index') else False
        return And(f.what[0].index == g.i, f.what[1] == add) if hasattr(f.what[0], 'index') else False
    def stored(s):
        sid = bsid(s, g.b)
        return Or(*[And(zb(f.guard), zi(f.d) == pos, is_item(s, f), zi(f.lo) >= zi(g.e) + 8 * g.n) for f in s.facts if isinstance(f, Slot) and f.sid == sid])
    def inv(ex, st0, s, k_):
        yield 'rest-zero', Implies(And(g.x >= zi(g.e) + 8 * zi(k_), g.x < zi(bend(st0, g.b))), bstore(s, g.b).at(g.x) == 0)
        c = And(zi(k_) > g.i, none)
        s2 = s.fork(c)
        if ex.feasible(s2): yield 'null', Implies(c, zi(bstore(s2, g.b).dec(ex, s2, 'q', pos)) == 0)
    def slot(ex, st0, h, k, lo, hi):
        x = item(h, g.i).value
        if v == 'list': what = (x, inner)
        else: what = (x.utf8 if v == 'utext' else x, add, fresh('w'), lo)
        return Slot(bsid(h, g.b), pos, lo, hi, And(zi(k) > g.i, Not(none)), 'list' if v == 'list' else 'text', what)
    def check(ex, st0, s, k): yield 'item-stored', Implies(And(zi(k) + 1 > g.i, Not(none)), stored(s))
    g.inv, g.slot, g.check = inv, slot, check
    def ret(s, r):
        for y in head(t, s, g, 6, g.n, 8 * g.n): yield y
        yield 'item', Implies(Not(none), stored(s))
        s2 = s.fork(none)
        if t.ex.feasible(s2): yield 'null-item', Implies(none, zi(bstore(s2, g.b).dec(t.ex, s2, 'q', pos)) == 0)
    t.expect(t.run(st, [g.b, g.d, it, SymTup(g.n, item)]), ret=ret, maybe=[(True, LISTEXC if v == 'list' else ('ValueError',) + (('UnicodeEncodeError',) if v == 'utext' else ()))])
@cltask(variants=('void', 'none'))
def void(t):
    v = t.variant
    st, g = setup(t, v)
    it = st.new('VoidItemType', item_length=0, size_tag=0)
    g.flat, g.slot, g.inv = True, None, lambda *a: []
    def ret(s, r):
        if v == 'none':
            yield 'null', zi(bstore(s, g.b).dec(t.ex, s, 'q', g.d)) == 0
            yield 'nothing-allocated', zi(bend(s, g.b)) == zi(g.e)
            x = fresh('x')
            yield 'frame', Implies(And(x >= 0, x < zi(g.e), Or(x < g.d, x >= g.d + 8)), bstore(s, g.b).at(x) == g.old.at(x))
        else:
            for y in head(t, s, g, 0, g.n, 0): yield y
    t.expect(t.run(st, [g.b, g.d, it, None if v == 'none' else SymTup(g.n, lambda s, j: None)]), ret=ret, maybe=[(v == 'void', ('ValueError',))])
BADITEMS = dict(none=lambda s, j: None, text=lambda s, j: b'abc', number=lambda s, j: ELEM(zi(j)))
@cltask(variants=('bad:prim,none', 'bad:prim,text', 'bad:text,number', 'bad:struct,none', 'bad:struct,number', 'bad:list,number', 'bad:top,number'))
def bad(t):
    "elements of another type: nothing is accepted"
    cls, w = t.variant[4:].split(',')
    st, g = setup(t, w)
    st.pc.append(g.i == 0)
    it = dict(prim=lambda: st.new('PrimitiveItemType', item_length=4, size_tag=4, ifmt=ord('i'), t=Opq(fresho('bt'), 'BuiltinType')),
              text=lambda: st.new('TextItemType', item_length=8, size_tag=6, additional_size=-1),
              top=lambda: st.new('TextItemType', item_length=8, size_tag=6, additional_size=-1),
              list=lambda: st.new('ListItemType', item_length=8, size_tag=6, inner_item_type=Opq(fresho('inner'), 'ItemType')),
              struct=lambda: struct_type(t, st))[cls]()
    t.normal = 1
    if cls == 'top': return t.expect(t.run(st, [g.b, g.d, it, ELEM(1)]), raises=[(True, ('TypeError',))])
    g.flat, g.slot, g.nothing = False, None, True
    g.inv = lambda ex, st0, s, k: [('nothing-accepted', zi(k) == 0)]
    t.normal = 1
    t.expect(t.run(st, [g.b, g.d, it, SymTup(g.n, BADITEMS[w])]), maybe=[(True, ('TypeError', 'struct.error', 'AttributeError', 'ValueError') + (LISTEXC if cls == 'list' else ()))], ret=lambda s, r: [('unacceptable-raises', False)])
    t.normal = 1
def struct_type(t, st, **kw):
    t.w.module('capnpy.struct_')
    sd, sp = fresh('static_d'), fresh('static_p')
    st.pc.append(And(sd >= 0, sd < 65536, sp >= 0, sp < 65536))
    return st.new('StructItemType', structcls=ClsV('Struct', t.w.find_class('Struct')), static_data_size=sd, static_ptrs_size=sp, item_length=simp(8 * (sd + sp)), size_tag=7)

# ------------------------------------------------------------------ lists of structs
class Check(LoopSpec):
    "the items are instances of the class, and none is bigger than the size chosen for all of them"
    def unfold(self, ex, st0, s, k): pass
    def inv(self, ex, st0, s, k):
        g = st0.ghost['c15']
        ds, ps = zi(s.env['data_size']), zi(s.env['ptrs_size'])
        j = Z.Int('j!c15')
        if getattr(g, 'nothing', False):
            yield 'nothing-accepted', zi(k) == 0
            return
        yield 'range', And(ds >= g.sd, ps >= g.sp, ds < 65536, ps < 65536)
        body = Implies(And(j >= 0, j < zi(k)), And(OKCLS(j), DS(j) <= ds, PS(j) <= ps))
        yield 'covers', Z.ForAll([j], body, patterns=[DS(j)])
class Structs(LoopSpec):
    def split(self, ex, st0, h, k):
        i = st0.ghost['c15'].i
        return [k < i, k == i, k > i]
    def havoc(self, ex, st0, h, k):
        g = st0.ghost['c15']
        e = fresh('end')
        h.pc.append(And(e >= 0, e < LIM))
        h.facts = []
        return havoc_builder(ex, h, g.b, g.e, e, [])
    def unfold(self, ex, st0, s, k):
        g = st0.ghost['c15']
        g.layout(ex, st0)
        self.hints(g, s, k)
        interest(s, g.sa, g.sdst)
    def hints(self, g, s, k):
        W = g.W
        for u in (zi(k), zi(k) - 1):
            s.pc.append(Implies(u >= g.i + 1, W * u >= W * g.i + W))
            s.pc.append(Implies(g.i >= u + 1, W * g.i >= W * u + W))
            s.pc.append(Implies(And(u >= 0, u < g.n), And(W * u >= 0, W * u + W <= W * g.n)))
        s.pc.append(And(W * g.i >= 0, W * g.i + W <= W * g.n))
    def inv(self, ex, st0, s, k):
        g = st0.ghost['c15']
        g.layout(ex, st0)
        self.hints(g, s, k)
        S_, S0 = bstore(s, g.b), bstore(st0, g.b)
        e1, e = zi(bend(st0, g.b)), zi(bend(s, g.b))
        yield 'end', And(e >= e1, e % 8 == 0)
        for y in binv_(s, g.b): yield y
        yield 'tag', zi(S_.dec(ex, s, 'q', g.e)) == zi(S0.dec(ex, s, 'q', g.e))
        c = zi(k) > g.i
        yield 'data', Implies(And(g.x >= 0, g.x < 8 * g.ds), S_.at(g.dx) == Z.If(And(c, g.x < 8 * DS(g.i)), g.src.at(g.sx), 0))
        for nm, c2 in (('before', zi(k) <= g.i), ('last', zi(k) == g.i + 1), ('earlier', zi(k) > g.i + 1)):
            for nm3, c3 in (('missing', g.j >= PS(g.i)), ('there', And(g.j < PS(g.i), zi(g.w) == 0))):
                cc = And(c2, c3, g.j >= 0, g.j < g.ps)
                if nm == 'before':
                    if nm3 == 'there': continue
                    cc = And(c2, g.j >= 0, g.j < g.ps)
                s2 = s.fork(cc)
                if ex.feasible(s2): yield 'pointer-%s-%s' % (nm, nm3), Implies(cc, zi(S_.dec(ex, s2, 'q', g.sdst)) == 0)
    def facts(self, ex, st0, h, k):
        g = st0.ghost['c15']
        lo, hi = fresh('lo'), fresh('hi')
        h.pc.append(And(zi(bend(st0, g.b)) <= lo, lo <= hi, hi <= zi(bend(h, g.b))))
        interest(h, g.sa, g.sdst)
        return [Deq(bsid(h, g.b), g.w, g.sa, g.sdst, lo, hi, And(zi(k) > g.i, g.j < PS(g.i), g.j < g.ps, zi(g.w) != 0))]
    def facts_check(self, ex, st0, s, k):
        g = st0.ghost['c15']
        yield 'pointer-copied', Implies(And(zi(k) + 1 > g.i, g.j < PS(g.i), g.j < g.ps, zi(g.w) != 0), copied(s, g.b, g.w, g.sa, g.sdst))
for _m in CL:
    loop(CL[_m], 0, modes=(_m,))(Check)
    loop(CL[_m], 1, modes=(_m,))(Structs)
@cltask(variants=('struct',), weight=10)
def structs(t):
    st, g = setup(t, 'struct')
    t.ex.unfolds = True
    st.pc.append(g.n < 1 << 29)       # (more empty structs than the tag can count)
    it = struct_type(t, st)
    g.sd, g.sp = zi(st.get(it, 'static_data_size')), zi(st.get(it, 'static_ptrs_size'))
    segi, bi = mkmsg(t, st, False, 'bufi')
    sego, bo = mkmsg(t, st, False, 'bufo')
    st.pc.append(And(bi.len < LIM, bo.len < LIM))
    def good(s, j, ln):
        s.pc.append(And(DO(j) % 8 == 0, DO(j) >= 0, DS(j) >= 0, DS(j) < 65536, PS(j) >= 0, PS(j) < 65536, DO(j) + 8 * DS(j) + 8 * PS(j) <= zi(ln)))
    def make(s, j, seg, ln):
        r = s.new('Struct', _seg=seg, _data_offset=DO(j), _data_size=DS(j), _ptrs_size=PS(j), _ptrs_offset=simp(DO(j) + 8 * DS(j)))
        s.heap[r.id]['isinst:Struct'] = OKCLS(j)
        good(s, j, ln)
        return r
    ri = make(st, g.i, segi, bi.len)
    def item(s, j):
        j = zi(j)
        return ri if t.ex.known(s, j == g.i) else make(s, j, sego, bo.len)
    g.x, g.j, g.src = fresh('x'), fresh('j'), bi.store
    st.pc.append(And(g.x >= 0, g.j >= 0))
    g.sx = simp(DO(g.i) + g.x)
    g.sa = simp(DO(g.i) + 8 * DS(g.i) + 8 * g.j)
    g.w = word(t.ex, st, segi, g.sa)
    def layout(ex, s0):
        g.ds, g.ps = zi(s0.env['data_size']), zi(s0.env['ptrs_size'])
        g.W = g.ds + g.ps
        g.dx = zi(g.e) + 8 + 8 * (g.W * g.i) + g.x
        g.sdst = zi(g.e) + 8 + 8 * (g.W * g.i) + 8 * g.ds + 8 * g.j
    g.layout = layout
    def ret(s, r):
        b, e = g.b, zi(g.e)
        w = bstore(s, b).dec(t.ex, s, 'q', g.d)
        tag = bstore(s, b).dec(t.ex, s, 'q', e)
        cnt, ds, ps = F(s, tag, 'offset'), F(s, tag, 'dsz'), F(s, tag, 'psz')
        yield 'tag', And(F(s, tag, 'kind') == 0, cnt == g.n)
        yield 'big-enough', And(DS(g.i) <= ds, PS(g.i) <= ps, g.sd <= ds, g.sp <= ps)
        yield 'instance', OKCLS(g.i)
        for y in head(t, s, g, 7, (ds + ps) * g.n, 8 + 8 * ((ds + ps) * g.n)): yield y
        dx = e + 8 + 8 * ((ds + ps) * g.i) + g.x
        yield 'data', Implies(g.x < 8 * ds, bstore(s, b).at(dx) == Z.If(g.x < 8 * DS(g.i), g.src.at(g.sx), 0))
        sd = simp(e + 8 + 8 * ((ds + ps) * g.i) + 8 * ds + 8 * g.j)
        for nm, c in (('missing', And(g.j < ps, g.j >= PS(g.i))), ('null', And(g.j < PS(g.i), zi(g.w) == 0))):
            s2 = s.fork(c)
            if t.ex.feasible(s2): yield 'pointer-' + nm, Implies(c, zi(bstore(s2, b).dec(t.ex, s2, 'q', sd)) == 0)
        yield 'pointer-copied', Implies(And(g.j < PS(g.i), zi(g.w) != 0), copied(s, b, g.w, g.sa, sd))
    t.expect(t.run(st, [g.b, g.d, it, SymTup(g.n, item)]), ret=ret, maybe=[(True, COPYEXC + ('TypeError', 'OverflowError', 'struct.error'))])
