"""C14: lists. The element i of a list is what the encoding stores at position i, read by the list's item type; indexing, length and equality go through it."""
from vc import *
from contracts.c10 import *
LI = 'capnpy.list:'
V3 = ('single', 'multi')

def mklist(t, st, multi, tag, it=None):
    "an arbitrary list object as List._set_list_tag leaves it (discharged with _read_list: list_at)"
    seg, b = mkmsg(t, st, multi)
    o, n = fresh('loff'), fresh('count')
    st.pc.append(And(o >= -(1 << 40), o < 1 << 60, n >= 0, n < 1 << 29))
    a = dict(_seg=seg, _offset=o, _item_type=it, _size_tag=tag, _tag=-1, _item_count=n, _item_length={0: 0, 1: -1, 2: 1, 3: 2, 4: 4, 5: 8, 6: 8}.get(tag, 0), _item_offset=0)
    w = None
    if tag == 7:
        w = word(t.ex, st, seg, o)
        st.pc.append(zb(inside(st, seg, o)))
        st.pc.append(n == F(st, w, 'offset'))
        a.update(_tag=w, _item_length=simp(8 * (F(st, w, 'dsz') + F(st, w, 'psz'))), _item_offset=8)
    l = st.new('List', **a)
    return l, seg, b, o, n, w
def index(st, n):
    i = fresh('i')
    st.pc.append(And(i >= 0, i < n))
    return i
def itemtype(t_, st, cls, **kw):
    return st.new(cls, **kw)
INNER = 'ItemType'
def types(t): return sorted(BM.types_table(t.ex.w.root))
@task(LI + 'VoidItemType.read_item', ['C14', 'C10'])
def void_item(t):
    st = t.st()
    it = itemtype(t, st, 'VoidItemType', item_length=0, size_tag=0)
    l, seg, b, o, n, w = mklist(t, st, False, 0, it)
    i = index(st, n)
    t.expect(t.run(st, [it, l, i]), ret=lambda s, v: [('none', v is None)])
@task(LI + 'BoolItemType.read_item', ['C14', 'C10'])
def bool_item(t):
    st = t.st()
    it = itemtype(t, st, 'BoolItemType', item_length=-1, size_tag=1)
    l, seg, b, o, n, w = mklist(t, st, False, 1, it)
    i = index(st, n)
    pos = simp(o + i / 8)
    byte = zi(b.store.dec(t.ex, st, 'B', pos))
    def ret(s, v):
        yield 'type', isbool(v)
        if isbool(v):
            for m in range(8): yield 'bit%d' % m, Implies(i % 8 == m, zb(v) == ((byte / (1 << m)) % 2 == 1))
    t.expect(t.run(st, [it, l, i]), raises=[(Not(inside(st, seg, pos, 1)), ('IndexError',))], ret=ret)
TAGOF = {1: 2, 2: 3, 4: 4, 8: 5}
def prim(t, cls, k, **kw):
    st = t.st()
    z = SIZE_OF[k]
    it = itemtype(t, st, cls, item_length=z, size_tag=TAGOF[z], ifmt=ord(k), t=Opq(fresho('bt'), 'BuiltinType'), **kw)
    l, seg, b, o, n, w = mklist(t, st, False, TAGOF[z], it)
    i = index(st, n)
    pos = simp(o + i * z)
    return st, it, l, seg, b, i, pos, b.store.dec(t.ex, st, k, pos)
@task(LI + 'PrimitiveItemType.read_item', ['C14', 'C10'], variants=KS)
def prim_item(t):
    k = t.variant
    st, it, l, seg, b, i, pos, v0 = prim(t, 'PrimitiveItemType', k)
    t.expect(t.run(st, [it, l, i]), raises=[(Not(inside(st, seg, pos, SIZE_OF[k])), ('IndexError',))], ret=lambda s, v: [('value', eq_val(v, v0))])
ENUM = ufn('ENUMCLS', INT, OV)
BM.OCALL['EnumClass'] = lambda ex, s, fv, args, kw: iter([(s, Opq(ENUM(zi(args[0])), 'enum'))])
@task(LI + 'EnumItemType.read_item', ['C14', 'C10'])
def enum_item(t):
    st, it, l, seg, b, i, pos, v0 = prim(t, 'EnumItemType', 'h', enumcls=Opq(fresho('enumcls'), 'EnumClass'))
    t.expect(t.run(st, [it, l, i]), raises=[(Not(inside(st, seg, pos, 2)), ('IndexError',))], ret=lambda s, v: [('member', v.t == ENUM(zi(v0)) if isinstance(v, Opq) and v.cls == 'enum' else False)])
@task(LI + 'StructItemType.read_item', ['C14', 'C10'], variants=V3, weight=2)
def struct_item(t):
    st = t.st()
    it = itemtype(t, st, 'StructItemType', structcls=ClsV('Struct', t.w.find_class('Struct')), static_data_size=0, static_ptrs_size=0, item_length=0, size_tag=7)
    l, seg, b, o, n, w = mklist(t, st, t.variant == 'multi', 7, it)
    i = index(st, n)
    d, p = F(st, w, 'dsz'), F(st, w, 'psz')
    D = simp(zi(o) + 8 + i * 8 * (d + p))
    def ret(s, v):
        yield 'class', isinstance(v, Ref) and v.cls == 'Struct'
        if not isinstance(v, Ref): return
        h = s.heap[v.id]
        yield 'segment', h['_seg'].id == seg.id
        yield 'data-offset', zi(h['_data_offset']) == zi(D)
        yield 'data-size', zi(h['_data_size']) == d
        yield 'ptrs-size', zi(h['_ptrs_size']) == p
        yield 'ptrs-offset', zi(h['_ptrs_offset']) == zi(D) + 8 * d
    t.expect(t.run(st, [it, l, i]), raises=[(zi(D) + 8 * (d + p) > zi(b.len), BADFAR)], ret=ret)
def ptr_item(t, st, multi, it):
    l, seg, b, o, n, w = mklist(t, st, multi, 6, it)
    i = index(st, n)
    pos = simp(o + 8 * i)
    w0 = word(t.ex, st, seg, pos)
    far = F(st, w0, 'kind') == 2
    rok, o2, p2 = resolve(t.ex, st, seg, pos)
    ok = And(inside(st, seg, pos), Implies(far, rok))
    o2, p2 = simp(Z.If(far, zi(o2), pos)), simp(Z.If(far, zi(p2), zi(w0)))
    null_fields(st, p2)
    return l, seg, b, i, ok, o2, p2
@task(LI + 'TextItemType.read_item', ['C14', 'C10'], variants=tuple((a, k) for a in V3 for k in ('text', 'data')), weight=2)
def text_item(t):
    st = t.st()
    m, k = t.variant
    add = -1 if k == 'text' else 0
    it = itemtype(t, st, 'TextItemType', item_length=8, size_tag=6, additional_size=add)
    l, seg, b, i, ok, o2, p2 = ptr_item(t, st, m == 'multi', it)
    wf, S, n = str_ok(st, seg, o2, p2, add)
    isbytes = And(F(st, p2, 'kind') == 1, F(st, p2, 'ltag') == 2)
    st.pc.append(zb(Implies(And(ok, zi(p2) != 0, isbytes), wf)))
    def ret(s, v):
        yield 'null', (zi(p2) == 0) == (v is None)
        if v is not None:
            x = BM.as_seq(t.ex, s, v)
            j = fresh('j')
            yield 'length', zi(x.len) == n
            yield 'bytes', Implies(And(j >= 0, j < n), x.store.at(j) == b.store.at(S + j))
    t.expect(t.run(st, [it, l, i]), raises=[(Not(And(ok, Or(zi(p2) == 0, isbytes))), BADFAR)], ret=ret)
@task(LI + 'TextUnicodeItemType.read_item', ['C14', 'C10'], variants=V3, weight=2)
def utext_item(t):
    st = t.st()
    it = itemtype(t, st, 'TextUnicodeItemType', item_length=8, size_tag=6, additional_size=-1)
    l, seg, b, i, ok, o2, p2 = ptr_item(t, st, t.variant == 'multi', it)
    wf, S, n = str_ok(st, seg, o2, p2, -1)
    isbytes = And(F(st, p2, 'kind') == 1, F(st, p2, 'ltag') == 2)
    st.pc.append(zb(Implies(And(ok, zi(p2) != 0, isbytes), wf)))
    bad = Not(And(ok, Or(zi(p2) == 0, isbytes)))
    uok, val = BM.utf8(st, 'buf', S, n)
    t.expect(t.run(st, [it, l, i]), raises=[(bad, BADFAR), (And(Not(bad), zi(p2) != 0, Not(uok)), ('UnicodeDecodeError',))],
             ret=lambda s, v: [('null', (zi(p2) == 0) == (v is None))] + ([('decoded', v.t == val if isinstance(v, Opq) and v.cls == 'str' else False)] if v is not None else []))
@task(LI + 'ListItemType.read_item', ['C14', 'C10'], variants=V3, weight=2)
def list_item(t):
    st = t.st()
    inner = Opq(fresho('inner'), 'ItemType')
    it = itemtype(t, st, 'ListItemType', item_length=8, size_tag=6, inner_item_type=inner)
    l, seg, b, i, ok, o2, p2 = ptr_item(t, st, t.variant == 'multi', it)
    L = zi(o2) + 8 + 8 * F(st, p2, 'offset')
    good = And(ok, Implies(F(st, p2, 'ltag') == 7, inside(st, seg, L)))
    st.pc.append(zb(Implies(ok, Or(zi(p2) == 0, F(st, p2, 'kind') == 1))))
    t.expect(t.run(st, [it, l, i]), raises=[(Not(good), BADFAR)], ret=lambda s, v: list_at(t, s, v, seg, o2, p2, inner))

# ------------------------------------------------------------------ the sequence protocol
ITEM = ufn('ITEM', INT, INT, OV)          # list id, index
@contract(LI + 'List._getitem_fast')
class GetItemFast(Contract):
    def apply(self, ex, st, env):
        l, i = env['self'], env['i']
        n = st.get(l, '_item_count')
        ex.ob('_getitem_fast/pre', st, And(zi(i) >= 0, zi(i) < zi(n)), 'the index is inside the list')
        st.pc.append(zb(And(zi(i) >= 0, zi(i) < zi(n))))
        yield st, Opq(ITEM(Z.IntVal(l.id), zi(i)), 'item')
RDI = ufn('READ_ITEM', INT, INT, OV)
BM.OATTR['ItemType', 'read_item'] = lambda ex, s, o: iter([(s, Builtin('ItemType.read_item', o))])
def _read_item(ex, st, args, kw):
    yield st, Opq(RDI(Z.IntVal(args[1].id), zi(args[2])), 'item')
BM.CALLS['ItemType.read_item'] = _read_item
def anylist(t, st, it=None):
    n = fresh('count')
    st.pc.append(And(n >= 0, n < 1 << 29))
    it = it or Opq(fresho('item_type'), 'ItemType')
    return st.new('List', _seg=None, _offset=fresh('o'), _item_type=it, _size_tag=fresh('tag'), _tag=fresh('w'), _item_count=n, _item_length=fresh('len'), _item_offset=fresh('io')), n
@task(LI + 'List._getitem_fast', ['C14'])
def getitem_fast(t):
    st = t.st()
    l, n = anylist(t, st)
    i = index(st, n)
    t.expect(t.run(st, [l, i]), ret=lambda s, v: [('item', v.t == RDI(Z.IntVal(l.id), i) if isinstance(v, Opq) else False)])
@task(LI + 'List.__len__', ['C14'])
def length(t):
    st = t.st()
    l, n = anylist(t, st)
    t.expect(t.run(st, [l]), ret=lambda s, v: [('count', zi(v) == n)])
@task(LI + 'List.__getitem__', ['C14'], variants=('int', 'slice'))
def getitem(t):
    st = t.st()
    l, n = anylist(t, st)
    if t.variant == 'slice':
        "the elements selected by range(*slice.indices(len)), in that order: Python's definition of slicing"
        def ret(s, v):
            yield 'list', isinstance(v, Ref) and v.cls == 'list'
            (a, z, c, m), = s.ghost['indices']
            L = s.get(v, 'L')
            j = fresh('j')
            s.pc.append(And(j >= 0, j < zi(L.n)))
            yield 'for-its-length', zi(m) == n
            yield 'length', zi(L.n) == ufn('RANGELEN', INT, INT, INT, INT)(a, z, c)
            x = L.item(s, j)
            yield 'element', x.t == ITEM(Z.IntVal(l.id), simp(a + j * c)) if isinstance(x, Opq) and x.cls == 'item' else False
        t.expect(t.run(st, [l, Opq(fresho('slice'), 'slice')]), ret=ret)
        return
    i = fresh('i')
    st.pc.append(inss(i))
    k = Z.If(i < 0, i + n, i)
    t.expect(t.run(st, [l, i]), raises=[(Or(k < 0, k >= n), ('IndexError',))], ret=lambda s, v: [('item', v.t == ITEM(Z.IntVal(l.id), k) if isinstance(v, Opq) and v.cls == 'item' else False)])

# ---- the layout an item type asks for is the one the encoding prescribes for its type
SIZES = dict(int8=1, uint8=1, int16=2, uint16=2, int32=4, uint32=4, int64=8, uint64=8, float32=4, float64=8)
FMTS = dict(int8='b', uint8='B', int16='h', uint16='H', int32='i', uint32='I', int64='q', uint64='Q', float32='f', float64='d')
@task(LI + 'PrimitiveItemType.__init__', ['C14', 'C15'], variants=tuple(sorted(SIZES)))
def prim_init(t):
    st = t.st()
    k = SIZES[t.variant]
    it = st.new('PrimitiveItemType')
    def ret(s, v):
        h = s.heap[it.id]
        yield 'item-length', zi(h['item_length']) == k
        yield 'size-tag', zi(h['size_tag']) == TAGOF[k]
        yield 'format', zi(h['ifmt']) == ord(FMTS[t.variant])
        yield 'type', h['t'].t == BM.types_attr(t.ex, s, t.variant).t
    t.expect(t.run(st, [it, BM.types_attr(t.ex, st, t.variant)]), ret=ret)
for _c, _v in (('VoidItemType', (0, 0)), ('BoolItemType', (-1, 1)), ('TextItemType', (8, 6)), ('ListItemType', (8, 6))):
    @task(LI + _c + '.__init__', ['C14', 'C15'], variants=('text', 'data') if _c == 'TextItemType' else (None,))
    def simple_init(t, c=_c, v=_v):
        st = t.st()
        it = st.new(c)
        inner = Opq(fresho('inner'), 'ItemType')
        args = [BM.types_attr(t.ex, st, t.variant)] if t.variant else [inner] if c == 'ListItemType' else []
        def ret(s, r):
            h = s.heap[it.id]
            yield 'item-length', zi(h['item_length']) == v[0]
            yield 'size-tag', zi(h['size_tag']) == v[1]
            if t.variant: yield 'terminator', zi(h['additional_size']) == (-1 if t.variant == 'text' else 0)
            if c == 'ListItemType': yield 'inner', h['inner_item_type'] is inner
        t.expect(t.run(st, [it] + args), ret=ret)

# ---- equality: exactly when the types and lengths agree and all items are equal
EQI = ufn('EQ', OV, OV, BOOL)
TY = ufn('TYPE_OF_ITEMS', OV, OV)
CANCMP = ufn('CAN_COMPARE', OV, BOOL)
def _m(name, mk):
    BM.OATTR['ItemType', name] = lambda ex, s, o: iter([(s, Builtin('ItemType.' + name, o))])
    BM.CALLS['ItemType.' + name] = lambda ex, st, args, kw: iter([(st, mk(args))])
_m('get_type', lambda a: Opq(TY(a[0].t), 'itemtypeval'))
_m('can_compare', lambda a: CANCMP(a[0].t))
@loop(LI + 'List._equals')
class EqLoop(LoopSpec):
    def inv(self, ex, st0, st, k):
        a, b = st.env['self'], st.env['other']
        j = st.ghost['j']
        yield 'items-so-far', Implies(And(j >= 0, j < k), EQI(ITEM(Z.IntVal(a.id), j), ITEM(Z.IntVal(b.id), j)))
@task(LI + 'List._equals', ['C14'], variants=('list', 'other'))
def equals(t):
    st = t.st()
    a, n = anylist(t, st)
    it = st.get(a, '_item_type').t
    if t.variant == 'other':
        t.expect(t.run(st, [a, 3]), raises=[(Not(CANCMP(it)), ('TypeError',))], ret=lambda s, v: [('different', v is False)])
        return
    b, m = anylist(t, st)
    jt = st.get(b, '_item_type').t
    j = fresh('j')
    st.ghost = dict(st.ghost, j=j)
    A, B = (lambda k: ITEM(Z.IntVal(a.id), k)), (lambda k: ITEM(Z.IntVal(b.id), k))
    same = And(n == m, TY(it) == TY(jt))
    def ret(s, v):
        for s2, eq in t.ex.branch(s, t.ex.truth(v, s)):
            if eq:
                yield 'equal-shape', Implies(zb(t.ex.truth(v, s)), same)
                yield 'equal-items', Implies(And(zb(t.ex.truth(v, s)), j >= 0, j < n), EQI(A(j), B(j)))
            else:
                k = Z.Int('k!w')
                yield 'unequal-witness', Or(zb(t.ex.truth(v, s)), Not(same), Z.Exists([k], And(k >= 0, k < n, Not(EQI(A(k), B(k))))))
    t.expect(t.run(st, [a, b]), raises=[(Not(CANCMP(it)), ('TypeError',))], ret=ret)
