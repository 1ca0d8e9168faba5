"""C12: generated constructors.  Called with arbitrary values for the fields, the constructor leaves in the message, at the place the schema gives each field, the value
that the getters (C11) read back: the encoding of argument xor default, the bits, the tags, pointers to copies of the text, data, struct and list arguments; everything
else in the body of the struct is zero."""
from vc import *
from contracts.common import *
from contracts.c04 import Deq, COPYEXC, hole, frame_goals
from contracts.gencode import *
from contracts.c10 import mkmsg, mkstruct, F
SB = BLD
class WriteBool(Contract):
    def apply(self, ex, st, env):
        b, i, k, v = env['self'], env['byteoffset'], env['bitoffset'], env['value']
        k = conc(k)
        if k is None: raise Unsupported('write_bool of an unknown bit')
        ex.ob('write_bool/pre', st, And(zi(i) >= 0, zi(i) < zi(bend(st, b)), 0 <= k < 8))
        v = ex.truth(v, st)
        if isinstance(v, Exc): raise Unsupported('truth of the value')
        old = bstore(st, b).dec(ex, st, 'B', i)
        if isinstance(v, bool) and not v: new = old
        elif conc(old) == 0: new = simp(Z.If(zb(v), Z.IntVal(1 << k), Z.IntVal(0)))
        else: new = simp(zi(old) + Z.If(And(zb(v), (zi(old) / (1 << k)) % 2 == 0), Z.IntVal(1 << k), Z.IntVal(0)))
        hi = simp(zi(i) + 1)
        st.stores[bsid(st, b)] = bstore(st, b).write(i, hi, ('enc', 'B', new))
        ex.touch(st, bsid(st, b), i, hi)
        yield st, None
contract(SB + '.write_bool')(WriteBool)       # discharged by write_bool[k,v] (C03)

def absent(v): return (zb(v.cond), v.value) if isinstance(v, Opt) else (Z.BoolVal(v is None), v)
class TextSlot(Contract):
    "alloc_text / alloc_data with a value that may be None"
    def apply(self, ex, st, env):
        b, pos, zero = env['self'], env['pos'], env['trailing_zero']
        c, txt = absent(env['s'])
        e = bend(st, b)
        pre = alloc_pre(e, pos)
        ex.ob('alloc_text/pre', st, pre)
        st.pc.append(zb(pre))
        q = BM.as_seq(ex, st, txt)
        if q is None: raise Unsupported('alloc_text of %r' % (txt,))
        nn = simp(zi(q.len) + zi(zero))
        for s, ok in ex.branch(st, Or(c, zi(nn) <= 0x1fffffff)):
            if not ok:
                yield s, Exc('ValueError')
                continue
            w = fresh('word')
            s.pc.append(And(w >= SS[0], w <= SS[1]))
            s.pc.append(Implies(c, w == 0))
            for k, x in [('kind', 1), ('ltag', 2), ('lcnt', nn)]: s.pc.append(Implies(Not(c), zi(BM.P(k, w, s)) == zi(x)))
            s.pc.append(Implies(Not(c), zi(pos) + 8 + 8 * zi(BM.P('offset', w, s)) == zi(e)))
            n = simp(Z.If(c, 0, rup(nn)))
            s.pc.append(And(zi(n) >= 0, zi(n) % 8 == 0))
            grow(ex, s, b, n, [(pos, simp(zi(pos) + 8), ('enc', 'q', w)), (e, simp(zi(e) + Z.If(c, 0, zi(q.len))), ('copy', q.store, simp(-zi(e))))])
            s.facts.append(Slot(bsid(s, b), pos, e, simp(zi(e) + zi(n)), Not(c), 'text', (q, zero, w, e)))
            yield s, simp(Z.If(c, -1, zi(e)))
AllocText0 = AllocText
class AllocTextOpt(AllocText0):
    def apply(self, ex, st, env):
        for x in (TextSlot() if isinstance(env['s'], Opt) else AllocText0()).apply(ex, st, env): yield x
contract(SB + '.alloc_text')(AllocTextOpt)

class Slot(Deq):
    "the pointer slot d holds, unless the guard is false, a copy of the object what; the copy lies in [lo, hi)"
    def __init__(self, sid, d, lo, hi, guard, kind, what): self.sid, self.d, self.lo, self.hi, self.guard, self.kind, self.what = sid, d, lo, hi, guard, kind, what
    def move(self, nid): return Slot(nid, self.d, self.lo, self.hi, self.guard, self.kind, self.what)
def copy_in(ex, st, b, pos, c, kind, what, name):
    e = bend(st, b)
    pre = alloc_pre(e, pos)
    ex.ob(name + '/pre', st, pre, 'the slot is a word of the builder')
    st.pc.append(zb(pre))
    e2, w = fresh('end'), fresh('word')
    st.pc.append(And(e2 >= zi(e), e2 % 8 == 0, e2 < LIM, w >= SS[0], w <= SS[1], Implies(c, And(w == 0, e2 == zi(e)))))
    H = hole(e2)
    grow(ex, st, b, simp(e2 - zi(e)), [(pos, simp(zi(pos) + 8), ('enc', 'q', w)), (e, e2, ('copy', H, 0))])
    st.facts.append(Slot(bsid(st, b), pos, e, e2, Not(c), kind, what))
class CopyStruct(Contract):
    def apply(self, ex, st, env):
        c, v = absent(env['value'])
        cls = env['structcls']
        if not isinstance(cls, ClsV): raise Unsupported('structcls')
        if v is not None and not (isinstance(v, Ref) and ex.w.isa(v.cls, cls.name)):
            for s, none in ex.branch(st, c):
                if not none: yield s, Exc('TypeError')
                else: raise Unsupported('a struct that may be None')
            return
        if conc_bool(c) is not True:
            for x in COPYEXC: yield st.fork(Not(c)), Exc(x)
        b, d = env['self'], env['dst_pos']
        e = bend(st, b)
        h = st.heap[v.id] if v is not None else {}
        known = '_data_offset' in h
        if known: ex.ob('copy_from_struct/pre', st, And(zi(h['_data_offset']) % 8 == 0, zi(h['_data_offset']) >= 0, zi(h['_data_offset']) < 1 << 32), 'the body of the struct is at a multiple of 8')
        copy_in(ex, st, b, d, c, 'struct', v, 'copy_from_struct')
        if known:
            p = fresh('p')
            ds, ps, e2 = zi(h['_data_size']), zi(h['_ptrs_size']), zi(bend(st, b))
            st.pc.append(And(inss(p), F(st, p, 'kind') == 0, F(st, p, 'dsz') == ds, F(st, p, 'psz') == ps, 8 + 8 * F(st, p, 'offset') == zi(h['_data_offset'])))
            st.facts.append(Deq(bsid(st, b), p, 0, d, e, e2, guard=Not(c), src=h['_seg'].id))
            w = bstore(st, b).dec(ex, st, 'q', d)
            st.pc.append(Implies(And(Not(c), ds + ps > 0), And(zi(d) + 8 + 8 * F(st, w, 'offset') == zi(e), e2 >= zi(e) + 8 * (ds + ps))))
        yield st, None
contract(SB + '.copy_from_struct')(CopyStruct)
LISTEXC = ('IndexError', 'ValueError', 'AssertionError', 'TypeError', 'OverflowError', 'struct.error', 'NotImplementedError', 'UnicodeEncodeError')
class CopyList(Contract):
    def apply(self, ex, st, env):
        c, v = absent(env['lst'])
        if isint(v) or isfloat(v):
            yield st, Exc('TypeError')
            return
        if conc_bool(c) is not True:
            for x in LISTEXC: yield st.fork(Not(c)), Exc(x)
        copy_in(ex, st, env['self'], env['pos'], c, 'list', (v, env['item_type']), 'copy_from_list')
        yield st, None
contract(SB + '.copy_from_list')(CopyList)
def conc_bool(c):
    c = simp(c) if not isinstance(c, bool) else c
    return c if isinstance(c, bool) else (True if Z.is_true(c) else False if Z.is_false(c) else None)

class EncodeMaybe(Contract):
    def apply(self, ex, st, env):
        c, v = absent(env['s'])
        if v is None:
            yield st, None
            return
        if not hasattr(v, 'utf8'):
            yield st.fork(Not(c)), Exc('AttributeError')
            if conc_bool(c) is False: return
            raise Unsupported('encode_maybe of %r' % (v,))
        yield st.fork(Not(c)), Exc('UnicodeEncodeError')
        yield st, (v.utf8 if conc_bool(c) is False else Opt(c, None, v.utf8))
contract('capnpy.util:encode_maybe')(EncodeMaybe)
@task('capnpy.util:encode_maybe', ['C12'], variants=('none', 'text', 'bytes'))
def encode_maybe(t):
    st = t.st()
    if t.variant == 'none': return t.expect(t.run(st, [None]), ret=lambda s, r: [('none', r is None)])
    q = Seq(fresh('n'), Store(fresh('n'), 'enc'))
    st.pc.append(q.len >= 0)
    u = Opq(fresho('u'), 'str')
    u.utf8 = q
    if t.variant == 'bytes':
        t.normal = 1
        return t.expect(t.run(st, [q]), raises=[(True, ('AttributeError',))])
    t.expect(t.run(st, [u]), maybe=[(True, ('UnicodeEncodeError',))], ret=lambda s, r: [('its-utf8-encoding', r is q)])

# ------------------------------------------------------------------ arguments
UNDEF = lambda: BM.VALUES['capnpy.struct_']['undefined']
class Arg(object):
    "an arbitrary value for a field: v is what the constructor is given, the rest is what it stands for"
    def __init__(self, f, v, **kw): self.f, self.v, self.__dict__ = f, v, dict(self.__dict__, f=f, v=v, given=True, **kw)
def ctor_fields(node): return [f for f in node.fields if f.in_union or f.is_group or f.type.kind != 'void']
def mkarg(t, st, c, m, f, path):
    S = c.S
    if nullable(S, f):
        fs = {x.name: x for x in S.nodes[f.group_id].fields}
        val = mkarg(t, st, c, m, fs['value'], path + '.value')
        none = freshb('none_' + f.name)
        return Arg(f, Opt(none, None, val.v), none=none, val=val, isnull=fs['isNull'])
    if f.is_group:
        g = Cl(S, c.name + '_' + f.name, S.nodes[f.group_id])
        kids = mkargs(t, st, g, m, path + '.' + f.name)
        # the group value is made by the generated helper of the group
        fn = f.name.capitalize()
        outs = [x for x in t.ex.call_func(m.classes[c.name].methods[fn], st, [], {k: a.v for k, a in kids.items()}, inline=True)]
        if len(outs) != 1 or not isinstance(outs[0][1], Tup): raise Unsupported('group helper ' + fn)
        return Arg(f, outs[0][1], kids=kids, cl=g)
    ty = f.type
    if ty.kind == 'void': return Arg(f, None)
    if ty.kind == 'prim' and ty.name == 'bool': return Arg(f, freshb(f.name))
    if ty.kind == 'prim' and ty.name.startswith('float'): return Arg(f, freshf(f.name))
    if ty.kind in ('prim', 'enum'): return Arg(f, fresh(f.name))
    none = freshb('none_' + f.name)
    if ty.kind in ('text', 'data'):
        n = fresh('len_' + f.name)
        st.pc.append(And(n >= 0, n < 1 << 28))
        q = Seq(n, Store(n, 'arg' + path.replace('.', '_') + '_' + f.name))
        if ty.kind == 'text' and mod_of(t).endswith('_u'):
            u = Opq(fresho('unicode_' + f.name), 'str')
            u.utf8 = q           # its encoding
            return Arg(f, Opt(none, None, u), none=none, q=q)
        return Arg(f, Opt(none, None, q), none=none, q=q)
    if ty.kind == 'struct':
        seg, b = mkmsg(t, st, False)
        r = st.new(S.nodes[ty.type_id].name, _seg=seg)
        return Arg(f, Opt(none, None, r), none=none, r=r)
    if ty.kind == 'list':
        l = SymTup(fresh('count'), lambda s, i: None)
        return Arg(f, Opt(none, None, l), none=none, l=l)
    raise Unsupported('argument of kind ' + ty.kind)
def mkargs(t, st, c, m, path=''):
    out = {}
    for f in ctor_fields(c.node):
        a = mkarg(t, st, c, m, f, path)
        if f.in_union:
            a.given = freshb('given_' + f.name)
            a.v = Opt(Not(a.given), UNDEF(), a.v)
        out[f.name] = a
    return out
def unions(args):
    "the lists of given-conditions, one per union"
    u = [a for a in args.values() if a.f.in_union]
    if u: yield u
    for a in args.values():
        if hasattr(a, 'kids'):
            for x in unions(a.kids): yield [y for y in x]
def two(us):
    return Or(*[And(zb(a.given), zb(b.given)) for i, a in enumerate(us) for b in us[:i]])
def over(t, a):
    "conditions under which the value does not fit its field"
    f = a.f
    if hasattr(a, 'kids'): return Or(*[And(zb(k.given), over(t, k)) for k in a.kids.values()])
    if hasattr(a, 'val'): return And(Not(a.none), over(t, a.val))
    ty = f.type
    v = base_value(a)
    if ty.kind == 'enum' or ty.kind == 'prim' and isint(v):
        lo, hi = krange('h' if ty.kind == 'enum' else KIND[ty.name])
        return Or(zi(v) < lo, zi(v) > hi)
    if ty.kind == 'prim' and ty.name == 'float32' and (f.default or not t.pyx): return Not(ufn('fits_float', FV, BOOL)(v))
    return Z.BoolVal(False)
def base_value(a): return a.v.value if isinstance(a.v, Opt) and a.f.in_union else a.v
def all_over(t, args): return Or(*[And(zb(a.given), over(t, a)) for a in args.values()])

# ------------------------------------------------------------------ what the message must contain
class Goals(object):
    def __init__(self, t, s, top, store, b):
        self.t, self.s, self.ex, self.top, self.store, self.b = t, s, t.ex, top, store, b
        self.cover = set()
    def use(self, lo, n): self.cover.update(range(lo, lo + n))
    def given(self, a):
        if a.given is True: return True
        if self.ex.known(self.s, a.given): return True
        if self.ex.known(self.s, Not(a.given)): return False
        raise Unsupported('a member that may be given')
    def fields(self, c, args):
        us = [a for a in args.values() if a.f.in_union]
        if us:
            off = 2 * c.node.disc_off
            self.use(off, 2)
            tag = 0
            for a in us:
                if self.given(a): tag = a.f.tag
            yield c.name + '.tag', zi(self.store.dec(self.ex, self.s, 'H', off)) == tag
        for a in args.values():
            if self.given(a):
                for x in self.field(c, a): yield x
    def scalar(self, f, v, nm):
        "v is stored where the getter of f finds it"
        ty, s, ex = f.type, self.s, self.ex
        if ty.kind == 'void': return
        if ty.kind == 'prim' and ty.name == 'bool':
            i, k = divmod(f.offset, 8)
            self.bits.setdefault(i, set()).add(k)
            self.use(i, 1)
            got = (zi(self.store.dec(ex, s, 'B', i)) / (1 << k)) % 2 == 1
            yield nm, Z.Xor(got, Z.BoolVal(bool(f.default & 1))) == zb(ex.truth(v, s))
            return
        k = 'h' if ty.kind == 'enum' else KIND[ty.name]
        n = SIZE_OF[k]
        self.use(f.offset * n, n)
        got = value_of(ex, s, k, Seq(self.store.len, self.store), f.offset * n, False, f.default)
        yield nm, eq_val(got, v) if k in 'fd' else zi(got) == zi(v)
    bits = {}
    def field(self, c, a):
        f, s, ex = a.f, self.s, self.ex
        nm = '%s.%s' % (c.name, f.name)
        if hasattr(a, 'val'):
            for s2, none in ex.branch(s, a.none):
                g = type(self)(self.t, s2, self.top, self.store, self.b)
                g.cover, g.bits = self.cover, self.bits
                for x, y in g.scalar(a.isnull, 1 if none else 0, nm + '.isNull'): yield x, y
                vf = a.val.f
                for x, y in g.scalar(vf, zero_of(vf) if none else base_value(a.val), nm + '.value'): yield x, Implies(And(*s2.pc[len(s.pc):]), y) if s2 is not s else y
            return
        if hasattr(a, 'kids'):
            for x in self.fields(a.cl, a.kids): yield x
            return
        ty = f.type
        v = base_value(a)
        if not ty.is_ptr:
            for x in self.scalar(f, v, nm): yield x
            return
        pos = 8 * self.top.node.ds + 8 * f.offset
        self.use(pos, 8)
        w = self.store.dec(ex, s, 'q', pos)
        yield nm + '/null', Implies(a.none, zi(w) == 0)
        sid = bsid(s, self.b)
        fs = [x for x in s.facts if isinstance(x, Slot) and x.sid == sid and conc(simp(zi(x.d) - zi(pos))) == 0]
        if ty.kind in ('text', 'data'):
            add = 1 if ty.kind == 'text' else 0
            n = a.q.len
            T_ = pos + 8 + 8 * F(s, w, 'offset')
            nn = Not(a.none)
            j = fresh('j')
            yield nm + '/pointer', Implies(nn, And(F(s, w, 'kind') == 1, F(s, w, 'ltag') == 2, F(s, w, 'lcnt') == n + add))
            yield nm + '/block', Implies(nn, And(T_ >= 8 * (self.top.node.ds + self.top.node.ps), T_ + n + add <= zi(self.store.len)))
            yield nm + '/copied', Implies(nn, Or(*[And(zb(x.guard), x.what[0] is a.q, x.what[1] == add, zi(x.what[2]) == zi(w)) for x in fs if x.kind == 'text']))
        elif ty.kind == 'struct':
            yield nm + '/copied', Implies(Not(a.none), Or(*[And(zb(x.guard), isinstance(x.what, Ref) and x.what.id == a.r.id) for x in fs if x.kind == 'struct']))
        elif ty.kind == 'list':
            yield nm + '/copied', Implies(Not(a.none), Or(*[And(zb(x.guard), x.what[0] is a.l, item_type_ok(self.t, s, c, ty.elem, x.what[1])) for x in fs if x.kind == 'list']))
def zero_of(f):
    "the default of the value of a nullable group (what reads when nothing is stored)"
    if f.type.kind == 'prim' and f.type.name == 'bool': return bool(f.default & 1)
    k = 'h' if f.type.kind == 'enum' else KIND[f.type.name]
    d = f.default
    if k in 'fd' and type(d) is int and d == 0: return FZERO
    return d - (1 << 8 * SIZE_OF[k]) if k.islower() and d >> (8 * SIZE_OF[k] - 1) else d

def has_any(c): return any((hasattr(f, 'type') and f.type.kind in ('any', 'other')) or (f.is_group and has_any(Cl(c.S, '', c.S.nodes[f.group_id]))) for f in c.node.fields)
def has_text(c): return any(f.in_union or (not f.is_group and textual(f.type)) or (f.is_group and has_text(Cl(c.S, '', c.S.nodes[f.group_id]))) for f in c.node.fields)
def ctor_tasks():
    for key, c in INDEX.items():
        mod, cn = key.split(':')
        if '_' in cn or c.node.is_group or has_any(c): continue
        if mod.endswith('_u') and not has_text(c): continue
        for v in ('given', 'absent'):
            task('gen.%s:%s()' % (mod, cn), ['C12'] + (['C13'] if c.node.union or cn == 'Gr' else []), variants=(key + ',' + v,), name='gen.%s:%s()' % (mod, cn), weight=8)(lambda t, c=c, v=v: ctor(t, c, v))
        for f in c.node.union:
            if skipped(mod, f): continue
            for v in ('given', 'absent'):
                task('gen.%s:%s.new_%s' % (mod, cn, f.name), ['C12', 'C13'], variants=(key + ',' + v,), name='gen.%s:%s.new_%s' % (mod, cn, f.name), weight=4)(lambda t, c=c, v=v, f=f: ctor(t, c, v, f))
def ctor(t, c, how, member=None):
    m = t.w.module('gen.' + t.variant.split(':')[0])
    if m is None: raise Unsupported('the schema was not generated')
    st = t.st()
    cls = ClsV(c.name, m.classes[c.name])
    args = mkargs(t, st, c, m) if how == 'given' else {}
    if member is not None:
        for k, a in list(args.items()):
            if a.f.in_union:
                if a.f is member:
                    a.v = a.v.value
                    a.given = True
                else: del args[k]
    kw = {k: a.v for k, a in args.items()}
    if member is None: outs = list(BM.construct(t.ex, cls, st, [], kw))
    else:
        fn = m.classes[c.name].methods['new_' + member.name]
        outs = list(t.ex.call_func(fn, st, [cls], kw, inline=True))
    n = 8 * (c.node.ds + c.node.ps)
    def ret(s, r):
        yield 'class', isinstance(r, Ref) and r.cls == c.name
        if not isinstance(r, Ref): return
        h = s.heap[r.id]
        yield 'at-the-start', And(zi(h['_data_offset']) == 0, zi(h['_data_size']) == c.node.ds, zi(h['_ptrs_size']) == c.node.ps, zi(h['_ptrs_offset']) == 8 * c.node.ds)
        q = s.get(h['_seg'], 'buf')
        bs = [Ref('SegmentBuilder', i) for i, x in s.heap.items() if x.get('__class__') == 'SegmentBuilder' or builder_like(x)]
        if len(bs) != 1: raise Unsupported('%d builders' % len(bs))
        b = bs[0]
        yield 'whole-message', zi(q.len) == zi(bend(s, b))
        yield 'content', same_bytes(s, q.store, bstore(s, b), 0, q.len)
        g = Goals(t, s, c, q.store, b)
        g.bits = {}
        for x in g.fields(c, args): yield x
        if how == 'absent' and member is not None:
            off = 2 * c.node.disc_off
            yield 'tag', zi(q.store.dec(t.ex, s, 'H', off)) == member.tag
            g.use(off, 2)
        unused = [i for i in range(n) if i not in g.cover]
        yield 'unused-bytes', And(*[zi(q.store.at(i)) == 0 for i in unused])
        for i, ks in g.bits.items():
            if len(ks) < 8: yield 'unused-bits-%d' % i, And(*[(zi(q.store.at(i)) / (1 << k)) % 2 == 0 for k in range(8) if k not in ks])
    raises = []
    us = list(unions(args))
    if us: raises.append((Or(*[two(u) for u in us]), ('TypeError',)))
    ov = all_over(t, args)
    t.expect(outs, raises=[], maybe=[(ov, ('OverflowError', 'struct.error'))] + raises + [(True, LISTEXC if anyslot(args, 'l') else COPYEXC if anyslot(args, 'r') else ()), (t.variant.split(':')[0].endswith('_u'), ('UnicodeEncodeError',))],
             ret=lambda s, r: [('rejected/out-of-range', Not(ov)), ('rejected/two-members', Not(Or(*[two(u) for u in us])) if us else True)] + list(ret(s, r)))
def anyslot(args, k): return any(hasattr(a, k) or hasattr(a, 'kids') and anyslot(a.kids, k) for a in args.values())
def builder_like(x): return 'buf' in x and '_seg' not in x and isinstance(x['buf'], Ref) and x['buf'].cls == 'bytearray'
ctor_tasks()

# ------------------------------------------------------------------ the contract of copy_from_struct
def cfs_setup(t, cls):
    st = t.st()
    b, e = mkbuilder(t, st, aligned=True)
    d = fresh('d')
    st.pc.append(alloc_pre(e, d))
    t.w.module('capnpy.struct_')
    return st, b, e, d, ClsV(cls, t.w.find_class(cls))
@task(SB + '.copy_from_struct', ['C05', 'C12', 'C15'], variants=('struct', 'none', 'other'))
def copy_from_struct(t):
    st, b, e, d, cls = cfs_setup(t, 'Struct')
    v = t.variant
    old = bstore(st, b)
    if v == 'none':
        def ret(s, r):
            yield 'null', zi(bstore(s, b).dec(t.ex, s, 'q', d)) == 0
            yield 'nothing-allocated', zi(bend(s, b)) == zi(e)
            for x in frame_goals(t, s, b, e, d, old): yield x
        return t.expect(t.method(st, b, 'copy_from_struct', [d, cls, None]), ret=ret)
    val, seg, buf, o, ds, P, ps = mkstruct(t, st, True, 'Struct')
    if v == 'other': st.heap[val.id]['isinst:Struct'] = False
    st.pc.append(And(o % 8 == 0, o >= 0, o < 1 << 32))
    def ret(s, r):
        hit = []
        for f in s.facts:
            if isinstance(f, Deq) and not isinstance(f, Slot) and f.sid == bsid(s, b):
                p = f.p
                hit.append(And(f.guard, f.src == seg.id, zi(f.d) == zi(d), zi(f.a) == 0, F(s, p, 'kind') == 0, F(s, p, 'dsz') == zi(ds), F(s, p, 'psz') == zi(ps), zi(f.a) + 8 + 8 * F(s, p, 'offset') == zi(o), zi(f.lo) >= zi(e), zi(f.hi) <= zi(bend(s, b))))
        yield 'the-struct-copied', Or(*hit)
        w = bstore(s, b).dec(t.ex, s, 'q', d)
        yield 'first', Implies(zi(ds) + zi(ps) > 0, And(zi(d) + 8 + 8 * F(s, w, 'offset') == zi(e), zi(bend(s, b)) >= zi(e) + 8 * (zi(ds) + zi(ps))))
        for x in frame_goals(t, s, b, e, d, old): yield x
    t.expect(t.method(st, b, 'copy_from_struct', [d, cls, val]), raises=[(v == 'other', ('TypeError',))], maybe=[(v != 'other', COPYEXC)], ret=ret)
    if v == 'other': t.normal = 1
