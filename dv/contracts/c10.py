"""C10 / C11: following pointers. RES(seg, off) = (off', p') is the pointer at byte offset off of a message after resolving a far pointer as the Cap'n Proto
encoding says (one-word pad: the pad's position and word; two-word pad: the tag word, positioned so that it designates the content). Every reader of a pointer
field is specified in terms of RES only, so a far pointer reads as the same pointer in place."""
from vc import *
from contracts.common import mksegment
SG, SM = 'capnpy.segment.segment:Segment', 'capnpy.segment.segment:MultiSegment'
ST = 'capnpy.struct_:Struct'
BADFAR = ('IndexError', 'AssertionError', 'ValueError')
SO = ufn('SO', INT, INT)
def mkmsg(t, st, multi, name='buf'):
    seg, b = mksegment(t, st, cls='MultiSegment' if multi else 'Segment', name=name)
    st.pc.append(b.len < 1 << 60)
    if multi:
        n = fresh('nseg')
        st.pc.append(And(n >= 1, n < 1 << 33))
        def item(s, i):
            s.pc.append(And(SO(zi(i)) >= 0, SO(zi(i)) <= zi(b.len)))
            return SO(zi(i))
        st.heap[seg.id]['segment_offsets'] = SymTup(n, item)
    return seg, b
def word(ex, s, seg, pos): return s.get(seg, 'buf').store.dec(ex, s, 'q', simp(pos))
def F(s, w, k): return zi(BM.P(k, w, s))
def inside(s, seg, pos, n=8): return And(zi(pos) >= 0, zi(pos) + n <= zi(s.get(seg, 'buf').len))
def resolve(ex, s, seg, off):
    "(ok, off', p') of the far pointer at off"
    so = s.heap[seg.id].get('segment_offsets')
    w = word(ex, s, seg, zi(off))
    if so is None: return False, zi(off), w
    tgt = F(s, w, 'ftgt')
    A = so.item(s, tgt) + 8 * F(s, w, 'foff')
    w1 = word(ex, s, seg, A)
    tag = word(ex, s, seg, A + 8)
    tgt2 = F(s, w1, 'ftgt')
    B = so.item(s, tgt2) + 8 * F(s, w1, 'foff')
    one = F(s, w, 'fland') == 0
    ok1 = And(tgt < zi(so.n), inside(s, seg, A))
    ok2 = And(tgt < zi(so.n), inside(s, seg, A), inside(s, seg, A + 8), F(s, w1, 'kind') == 2, F(s, w1, 'fland') == 0, F(s, tag, 'offset') == 0, tgt2 < zi(so.n))
    ok = And(inside(s, seg, off), Z.If(one, zb(ok1), zb(ok2)))
    return ok, simp(Z.If(one, A, B - 8)), simp(Z.If(one, zi(w1), zi(tag)))

class FarPtr(Contract):
    def apply(self, ex, st, env):
        seg, off = env['self'], env['offset']
        if st.heap[seg.id].get('segment_offsets') is None:
            yield st, Exc('ValueError')
            return
        ok, o2, p2 = resolve(ex, st, seg, off)
        for s, good in ex.branch(st, ok):
            yield s, (Tup([o2, p2]) if good else Exc('IndexError'))
contract(SM + '.read_far_ptr')(FarPtr)
contract(SG + '.read_far_ptr')(FarPtr)
@task(SM + '.read_far_ptr', ['C10'], weight=3)
def read_far(t):
    st = t.st()
    seg, b = mkmsg(t, st, True)
    off = fresh('off')
    st.pc.append(inss(off))
    w = word(t.ex, st, seg, off)
    st.pc.append(Implies(inside(st, seg, off), F(st, w, 'kind') == 2))
    ok, o2, p2 = resolve(t.ex, st, seg, off)
    def ret(s, v):
        if not isinstance(v, Tup) or len(v.xs) != 2:
            yield 'result', False
            return
        yield 'offset', zi(v.xs[0]) == zi(o2)
        yield 'pointer', zi(v.xs[1]) == zi(p2)
    t.expect(t.run(st, [seg, off]), raises=[(Not(ok), BADFAR)], ret=ret)
@task(SG + '.read_far_ptr', ['C10'])
def read_far_single(t):
    st = t.st()
    seg, b = mkmsg(t, st, False)
    off = fresh('off')
    st.pc.append(inss(off))
    t.expect(t.run(st, [seg, off]), raises=[(True, ('ValueError',))])
    t.normal = 1
@task(SG + '.read_ptr', ['C10', 'C11'], variants=('single', 'multi'))
def read_ptr(t):
    st = t.st()
    seg, b = mkmsg(t, st, t.variant == 'multi')
    off = fresh('off')
    st.pc.append(inss(off))
    w = word(t.ex, st, seg, off)
    t.expect(t.method(st, seg, 'read_ptr', [off]), raises=[(Not(inside(st, seg, off)), ('IndexError',))], ret=lambda s, v: [('word', zi(v) == zi(w))])

# ------------------------------------------------------------------ structs
def mkstruct(t, st, multi=False, cls='Struct'):
    seg, b = mkmsg(t, st, multi)
    o, d, q = fresh('doff'), fresh('dsz'), fresh('psz')
    P = simp(o + 8 * d)
    st.pc.append(And(o >= -(1 << 40), o < 1 << 60, d >= 0, d < 65536, q >= 0, q < 65536, P + 8 * q <= zi(b.len)))
    r = st.new(cls, _seg=seg, _data_offset=o, _ptrs_offset=P, _data_size=d, _ptrs_size=q)
    return r, seg, b, o, d, P, q
def field_pos(st, name='off'):
    off = fresh(name)
    st.pc.append(And(off >= 0, off < 1 << 20, off % 8 == 0))
    return off
def pointer_at(ex, s, seg, P, q, off):
    "(ok, position, word) of pointer field off of a struct with q pointers at P; a missing field is a null pointer"
    pos = simp(zi(P) + zi(off))
    missing = zi(off) >= 8 * zi(q)
    w = simp(Z.If(missing, Z.IntVal(0), zi(word(ex, s, seg, pos))))
    far = And(Not(missing), F(s, word(ex, s, seg, pos), 'kind') == 2)
    rok, o2, p2 = resolve(ex, s, seg, pos)
    readable = Or(missing, inside(s, seg, pos))
    return And(readable, Implies(far, rok)), simp(Z.If(far, zi(o2), pos)), simp(Z.If(far, zi(p2), zi(w)))
ZERO = [('kind', 0), ('offset', 0), ('dsz', 0), ('psz', 0), ('ltag', 0), ('lcnt', 0), ('fland', 0), ('foff', 0), ('ftgt', 0)]
def null_fields(s, p):
    "the fields of a null pointer are zero (they are the bit fields of the word: C01)"
    for k, v in ZERO: s.pc.append(Implies(zi(p) == 0, F(s, p, k) == v))
V2 = ('single', 'multi')

@task(ST + '._read_fast_ptr', ['C10', 'C11'])
def fast_ptr(t):
    st = t.st()
    r, seg, b, o, d, P, q = mkstruct(t, st)
    off = field_pos(st)
    w = word(t.ex, st, seg, P + off)
    t.expect(t.run(st, [r, off]), raises=[(And(off < 8 * q, P + off < 0), ('IndexError',))], ret=lambda s, v: [('word', zi(v) == Z.If(off >= 8 * q, 0, zi(w)))])
def struct_at(t, s, v, seg, o2, p2, cls='Struct'):
    D = zi(o2) + 8 + 8 * F(s, p2, 'offset')
    yield 'class', isinstance(v, Ref) and v.cls == cls
    if not isinstance(v, Ref): return
    h = s.heap[v.id]
    yield 'segment', isinstance(h['_seg'], Ref) and h['_seg'].id == seg.id
    yield 'data-offset', zi(h['_data_offset']) == D
    yield 'data-size', zi(h['_data_size']) == F(s, p2, 'dsz')
    yield 'ptrs-size', zi(h['_ptrs_size']) == F(s, p2, 'psz')
    yield 'ptrs-offset', zi(h['_ptrs_offset']) == D + 8 * F(s, p2, 'dsz')
def clean(v): return v
@task(ST + '._read_struct', ['C10', 'C11'], variants=V2, weight=3)
def read_struct(t):
    st = t.st()
    r, seg, b, o, d, P, q = mkstruct(t, st, t.variant == 'multi')
    off = field_pos(st)
    ok, o2, p2 = pointer_at(t.ex, st, seg, P, q, off)
    null_fields(st, p2)
    D = zi(o2) + 8 + 8 * F(st, p2, 'offset')
    fits = D + 8 * (F(st, p2, 'dsz') + F(st, p2, 'psz')) <= zi(b.len)
    good = And(ok, Or(zi(p2) == 0, And(F(st, p2, 'kind') == 0, fits)))
    def ret(s, v):
        yield 'null', (zi(p2) == 0) == (v is None)
        if v is not None:
            for x in struct_at(t, s, v, seg, o2, p2): yield x
    t.expect(t.run(st, [r, off, ClsV('Struct', t.w.find_class('Struct'))]), raises=[(Not(good), BADFAR)], ret=ret)
def list_at(t, s, v, seg, o2, p2, it=None):
    "a List describing what pointer p2 at o2 designates"
    yield 'class', isinstance(v, Ref) and v.cls == 'List'
    if not isinstance(v, Ref): return
    h = s.heap[v.id]
    L = zi(o2) + 8 + 8 * F(s, p2, 'offset')
    tag, cnt = F(s, p2, 'ltag'), F(s, p2, 'lcnt')
    comp = tag == 7
    w = word(t.ex, s, seg, L)
    yield 'segment', isinstance(h['_seg'], Ref) and h['_seg'].id == seg.id
    yield 'offset', zi(h['_offset']) == L
    yield 'size-tag', zi(h['_size_tag']) == tag
    yield 'count', zi(h['_item_count']) == Z.If(comp, F(s, w, 'offset'), cnt)
    size = Z.IntVal(-1)
    for k, n in ((0, 0), (2, 1), (3, 2), (4, 4), (5, 8), (6, 8)): size = Z.If(tag == k, Z.IntVal(n), size)
    yield 'item-length', zi(h['_item_length']) == Z.If(comp, 8 * (F(s, w, 'dsz') + F(s, w, 'psz')), Z.If(tag == 1, zi(h['_item_length']), size))
    yield 'item-offset', zi(h['_item_offset']) == Z.If(comp, 8, 0)
    yield 'tag', Implies(comp, zi(h['_tag']) == zi(w))
    if it is not None: yield 'item-type', h['_item_type'] is it
@task(ST + '._read_list', ['C10', 'C11', 'C14'], variants=V2, weight=3)
def read_list(t):
    st = t.st()
    r, seg, b, o, d, P, q = mkstruct(t, st, t.variant == 'multi')
    off = field_pos(st)
    ok, o2, p2 = pointer_at(t.ex, st, seg, P, q, off)
    null_fields(st, p2)
    it, dflt = Opq(fresho('item_type'), 'ItemType'), Opq(fresho('default'))
    L = zi(o2) + 8 + 8 * F(st, p2, 'offset')
    good = And(ok, Or(zi(p2) == 0, And(F(st, p2, 'kind') == 1, Implies(F(st, p2, 'ltag') == 7, inside(st, seg, L)))))
    def ret(s, v):
        yield 'null', (zi(p2) == 0) == (v is dflt)
        if v is not dflt:
            for x in list_at(t, s, v, seg, o2, p2, it): yield x
    t.expect(t.run(st, [r, off, it, dflt]), raises=[(Not(good), BADFAR)], ret=ret)

def str_ok(st, seg, o2, p2, add):
    "a text or data pointer whose bytes lie inside the message (text: at least its NUL)"
    S = zi(o2) + 8 + 8 * F(st, p2, 'offset')
    n = F(st, p2, 'lcnt') + add
    return And(S >= 0, n >= 0, S + n <= zi(st.get(seg, 'buf').len)), S, n
def text_like(t, add, call):
    st = t.st()
    r, seg, b, o, d, P, q = mkstruct(t, st, t.variant == 'multi')
    off = field_pos(st)
    ok, o2, p2 = pointer_at(t.ex, st, seg, P, q, off)
    null_fields(st, p2)
    wf, S, n = str_ok(st, seg, o2, p2, add)
    isbytes = And(F(st, p2, 'kind') == 1, F(st, p2, 'ltag') == 2)
    st.pc.append(zb(Implies(And(ok, zi(p2) != 0, isbytes), wf)))
    good = And(ok, Or(zi(p2) == 0, isbytes))
    return st, r, seg, b, off, p2, S, n, good
@task(ST + '._read_data', ['C10', 'C11'], variants=V2, weight=2)
def read_data(t): data_task(t, 0)
@task(ST + '._read_text_bytes', ['C10', 'C11'], variants=V2, weight=2)
def read_text(t): data_task(t, -1)
def data_task(t, add):
    st, r, seg, b, off, p2, S, n, good = text_like(t, add, None)
    dn = fresh('dn')
    st.pc.append(And(dn >= 0, dn < 1 << 40))
    dflt = Seq(dn, Store(dn, 'default'))
    def ret(s, v):
        yield 'null', (zi(p2) == 0) == (v is dflt) if v is dflt else zi(p2) != 0
        if v is not dflt:
            x = BM.as_seq(t.ex, s, v)
            if x is None:
                yield 'bytes', False
                return
            j = fresh('j')
            yield 'length', zi(x.len) == n
            yield 'bytes', Implies(And(j >= 0, j < n), x.store.at(j) == b.store.at(S + j))
    t.expect(t.run(st, [r, off, dflt]), raises=[(Not(good), BADFAR)], ret=ret)
@task(ST + '._read_text_unicode', ['C10', 'C11'], variants=V2, weight=2)
def read_utext(t):
    st, r, seg, b, off, p2, S, n, good = text_like(t, -1, None)
    dn = fresh('dn')
    st.pc.append(And(dn >= 0, dn < 1 << 40))
    dflt = Seq(dn, Store(dn, 'default'))
    (k1, v1), (k2, v2) = BM.utf8(st, 'default', 0, dn), BM.utf8(st, 'buf', S, n)
    val, valid = Z.If(zi(p2) == 0, v1, v2), Z.If(zi(p2) == 0, k1, k2)
    t.expect(t.run(st, [r, off, dflt]), raises=[(Not(good), BADFAR), (And(good, Not(valid)), ('UnicodeDecodeError',))],
             ret=lambda s, v: [('decoded', v.t == val if isinstance(v, Opq) and v.cls == 'str' else False)])
# ---- the same specifications as contracts for the callers (generated getters)
class Reader(Contract):
    def pre(self, ex, st, env):
        r, off = env['self'], env['offset']
        h = st.heap[r.id]
        seg, P, q = h['_seg'], h['_ptrs_offset'], h['_ptrs_size']
        ex.ob('reader/pre/offset', st, And(zi(off) >= 0, zi(off) < 1 << 20, zi(off) % 8 == 0))
        ex.ob('reader/pre/struct', st, And(zi(P) + 8 * zi(q) <= zi(st.get(seg, 'buf').len)))
        ok, o2, p2 = pointer_at(ex, st, seg, P, q, off)
        null_fields(st, p2)
        return seg, ok, o2, p2
class ReadStruct(Reader):
    def apply(self, ex, st, env):
        cls = env['structcls']
        if not isinstance(cls, ClsV): raise Unsupported('structcls')
        seg, ok, o2, p2 = self.pre(ex, st, env)
        D = simp(zi(o2) + 8 + 8 * F(st, p2, 'offset'))
        ds, ps = simp(F(st, p2, 'dsz')), simp(F(st, p2, 'psz'))
        fits = zi(D) + 8 * (zi(ds) + zi(ps)) <= zi(st.get(seg, 'buf').len)
        for s, good in ex.branch(st, And(ok, Or(zi(p2) == 0, And(F(st, p2, 'kind') == 0, fits)))):
            if not good:
                yield s, Exc('ValueError')
                continue
            for s2, nl in ex.branch(s, zi(p2) == 0):
                yield s2, (None if nl else s2.new(cls.name, _seg=seg, _data_offset=D, _ptrs_offset=simp(zi(D) + 8 * zi(ds)), _data_size=ds, _ptrs_size=ps))
contract(ST + '._read_struct')(ReadStruct)
class ReadList(Reader):
    def apply(self, ex, st, env):
        it = env['item_type']
        seg, ok, o2, p2 = self.pre(ex, st, env)
        L = simp(zi(o2) + 8 + 8 * F(st, p2, 'offset'))
        tag, cnt = F(st, p2, 'ltag'), F(st, p2, 'lcnt')
        comp = tag == 7
        for s, good in ex.branch(st, And(ok, Or(zi(p2) == 0, And(F(st, p2, 'kind') == 1, Implies(comp, inside(st, seg, L)))))):
            if not good:
                yield s, Exc('ValueError')
                continue
            for s2, nl in ex.branch(s, zi(p2) == 0):
                if nl:
                    yield s2, env['default_']
                    continue
                w = word(ex, s2, seg, L)
                size = Z.IntVal(-1)
                for k, n in ((0, 0), (2, 1), (3, 2), (4, 4), (5, 8), (6, 8)): size = Z.If(tag == k, Z.IntVal(n), size)
                bl, tg = fresh('bitlen'), fresh('notag')
                yield s2, s2.new('List', _seg=seg, _offset=L, _item_type=it, _size_tag=simp(tag), _tag=simp(Z.If(comp, zi(w), tg)), _item_count=simp(Z.If(comp, F(s2, w, 'offset'), cnt)),
                                 _item_length=simp(Z.If(comp, 8 * (F(s2, w, 'dsz') + F(s2, w, 'psz')), Z.If(tag == 1, bl, size))), _item_offset=simp(Z.If(comp, Z.IntVal(8), Z.IntVal(0))))
contract(ST + '._read_list')(ReadList)
class Self(object):
    def __init__(self, o): self.self_ = o
def decode_(ex, s, v): return BM.method_call(ex, 'method.bytes.decode', Self(v), s, ['utf-8'], {})
class ReadData(Reader):
    add = 0
    uni = False
    def apply(self, ex, st, env):
        dflt = env['default_']
        seg, ok, o2, p2 = self.pre(ex, st, env)
        wf, S, n = str_ok(st, seg, o2, p2, self.add)
        isbytes = And(F(st, p2, 'kind') == 1, F(st, p2, 'ltag') == 2)
        ex.ob('reader/pre/text-in-message', st, Implies(And(ok, zi(p2) != 0, isbytes), wf))
        for s, good in ex.branch(st, And(ok, Or(zi(p2) == 0, isbytes))):
            if not good:
                yield s, Exc('ValueError')
                continue
            for s2, nl in ex.branch(s, zi(p2) == 0):
                if nl and self.uni and dflt is not None:
                    for x in decode_(ex, s2, dflt): yield x
                elif nl: yield s2, dflt
                else:
                    s2.pc.append(zb(wf))
                    b = s2.get(seg, 'buf')
                    v = Seq(simp(n), Store(simp(n), None, ((0, simp(n), ('copy', b.store, simp(S))),)))
                    if self.uni:
                        for x in decode_(ex, s2, v): yield x
                    else: yield s2, v
class ReadText(ReadData): add = -1
class ReadUText(ReadData): add, uni = -1, True
contract(ST + '._read_text_bytes')(ReadText)
contract(ST + '._read_text_unicode')(ReadUText)
# ---- hashes: the hash of exactly the bytes a read returns (C17: hash of a buffer slice)
HB = Z.Function('HASH_OF_SLICE', Z.StringSort(), INT, INT, INT)
def _strhash(ex, st, args, kw):
    buf, start, size = args
    q = BM.as_seq(ex, st, buf)
    if q is None: raise Unsupported('strhash')
    nm, dlt = BM.base_of(ex, st, q.store)
    if nm is None: raise Unsupported('strhash of a composed string')
    ex.trusted.add('capnpy._hash.strhash: discharged by C17')
    a, b = simp(zi(start) + zi(dlt)), simp(zi(size))
    r = HB(Z.StringVal(nm), zi(a), zi(b))
    if ex.cmode: st.pc.append(inss(r))
    yield st, r
BM.MODELLED['capnpy._hash', 'strhash'] = 1
BM.CALLS['capnpy._hash.strhash'] = _strhash
@task(ST + '._hash_data', ['C10', 'C16'], variants=V2, weight=2)
def hash_data(t): hash_task(t, 0)
@task(ST + '._hash_text_bytes', ['C10', 'C16'], variants=V2, weight=2)
def hash_text(t): hash_task(t, -1)
def hash_task(t, add):
    st, r, seg, b, off, p2, S, n, good = text_like(t, add, None)
    dflt = fresh('default')
    st.pc.append(inss(dflt))
    t.expect(t.run(st, [r, off, dflt]), raises=[(Not(good), BADFAR)], ret=lambda s, v: [('hash', zi(v) == Z.If(zi(p2) == 0, dflt, HB(Z.StringVal('buf'), S, n)))])

# ------------------------------------------------------------------ primitive fields
KS = tuple('bBhHiIqQfd')
def prim_default(k): return FZERO if k in 'fd' else 0
@task(ST + '._read_primitive', ['C11'], variants=KS)
def read_primitive(t):
    k = t.variant
    n = SIZE_OF[k]
    st = t.st()
    r, seg, b, o, d, P, q = mkstruct(t, st)
    off = fresh('off')
    st.pc.append(And(off >= 0, off < 1 << 20, off % n == 0))
    v0 = b.store.dec(t.ex, st, k, o + off)
    absent = off >= 8 * d
    def ret(s, v):
        for s2, ab in t.ex.branch(s, absent):
            if ab: yield 'absent-is-zero', isint(v) and zi(v) == 0 if isint(v) else (v == FZERO if isfloat(v) else False)
            else: yield 'value', eq_val(v, v0)
    t.expect(t.run(st, [r, off, ord(k)]), raises=[(And(Not(absent), o + off < 0), ('IndexError',))], ret=ret)
@task(ST + '._read_int16', ['C11', 'C13'])
def read_int16(t):
    st = t.st()
    r, seg, b, o, d, P, q = mkstruct(t, st)
    off = fresh('off')
    st.pc.append(And(off >= 0, off < 1 << 20, off % 2 == 0))
    v0 = b.store.dec(t.ex, st, 'h', o + off)
    t.expect(t.run(st, [r, off]), raises=[(And(off < 8 * d, o + off < 0), ('IndexError',))], ret=lambda s, v: [('value', zi(v) == Z.If(off >= 8 * d, 0, zi(v0)))])
@task(ST + '._read_bit', ['C11'], variants=tuple(range(8)))
def read_bit(t):
    st = t.st()
    r, seg, b, o, d, P, q = mkstruct(t, st)
    off = fresh('off')
    st.pc.append(And(off >= 0, off < 1 << 20))
    v0 = b.store.dec(t.ex, st, 'B', o + off)
    t.expect(t.run(st, [r, off, 1 << t.variant]), raises=[(And(off < 8 * d, o + off < 0), ('IndexError',))],
             ret=lambda s, v: [('bit', zb(t.ex.truth(v, s)) == And(off < 8 * d, (zi(v0) / (1 << t.variant)) % 2 == 1))])
@task(ST + '.__which__', ['C13'], variants=('union', 'none'))
def which(t):
    st = t.st()
    r, seg, b, o, d, P, q = mkstruct(t, st)
    if t.variant == 'none':
        st.heap[r.id]['__tag_offset__'] = None
        t.expect(t.run(st, [r]), raises=[(True, ('TypeError',))])
        t.normal = 1
        return
    off = fresh('tagoff')
    st.pc.append(And(off >= 0, off < 1 << 20, off % 2 == 0))
    st.heap[r.id]['__tag_offset__'] = off
    v0 = b.store.dec(t.ex, st, 'h', o + off)
    t.expect(t.run(st, [r]), raises=[(And(off < 8 * d, o + off < 0), ('IndexError',))], ret=lambda s, v: [('tag', zi(v) == Z.If(off >= 8 * d, 0, zi(v0)))])

TAGCLS = ufn('TAG_ENUM', INT, OV)
BM.OCALL['TagClass'] = lambda ex, s, fv, args, kw: iter([(s, Opq(TAGCLS(zi(args[0])), 'tag'))])
def union(t):
    st = t.st()
    r, seg, b, o, d, P, q = mkstruct(t, st)
    off = fresh('tagoff')
    st.pc.append(And(off >= 0, off < 1 << 20, off % 2 == 0))
    st.heap[r.id].update(__tag_offset__=off, __tag__=Opq(fresho('tagcls'), 'TagClass'))
    v0 = b.store.dec(t.ex, st, 'h', o + off)
    return st, r, Z.If(off >= 8 * d, 0, zi(v0)), And(off < 8 * d, o + off < 0)
@task(ST + '.which', ['C13'])
def which2(t):
    st, r, tag, bad = union(t)
    t.expect(t.run(st, [r]), raises=[(bad, ('IndexError',))], ret=lambda s, v: [('member', v.t == TAGCLS(tag) if isinstance(v, Opq) and v.cls == 'tag' else False)])
@task(ST + '._ensure_union', ['C13'])
def ensure_union(t):
    st, r, tag, bad = union(t)
    exp = fresh('expected')
    st.pc.append(And(exp >= 0, exp < 65536))
    t.expect(t.run(st, [r, exp]), raises=[(bad, ('IndexError',)), (tag != exp, ('ValueError',))], ret=lambda s, v: [('nothing', v is None)])
