"""C11 / C12 / C13 / C16: the code the compiler generates.  On every run the compiler of the tree under verification is run on the corpus schemas (dv/gen.py) and the
text it generates, in both modes, is read like any other source of the tree; the contracts of the generated functions come from the schema as the `capnp` tool reports
it (harness/cgr.py, an independent reader of the code generator request), never from the generated text."""
import os, sys, keyword
from vc import *
from contracts.c10 import *
H = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), 'harness')
if H not in sys.path: sys.path.append(H)
import cgr
ROOT = os.environ.get('DV_REPO', '/repo')
KIND = dict(int8='b', uint8='B', int16='h', uint16='H', int32='i', uint32='I', int64='q', uint64='Q', float32='f', float64='d')
_S = {}
def schema(name):
    if name.endswith('_u'): return schema(name[:-2])         # the same schema compiled with text_type=unicode
    if name not in _S: _S[name] = cgr.Schema(os.path.join(H, 'schemas', name + '.capnp'), [ROOT])
    return _S[name]
class Cl(object):
    "a generated class: a struct or group of the schema"
    def __init__(self, S, name, node): self.S, self.name, self.node = S, name, node
    def groups(self):
        for f in self.node.fields:
            if f.is_group:
                c = Cl(self.S, self.name + '_' + f.name, self.S.nodes[f.group_id])
                yield c
                for x in c.groups(): yield x
def classes(name):
    S = schema(name)
    out = []
    for n in S.by_name.values():
        if n.kind == 'struct':
            c = Cl(S, n.name, n)
            out.append(c)
            out.extend(c.groups())
    return out
def nullable(S, f): return f.is_group and any(S.nodes[a.id].name == 'nullable' for a in f.annotations if a.id in S.nodes)
try:
    CORPUS = {n: classes(n) for n in ('main', 'main_u')}
except Exception as e:                      # the capnp tool rejects the corpus against this tree: nothing generated can be proved
    CORPUS = {}
INDEX = {'%s:%s' % (n, c.name): c for n, cs in CORPUS.items() for c in cs}

def obj_of(t, c, multi=False):
    m = getattr(t, 'gen', None) or t.w.module('gen.' + t.variant.split(':')[0])
    if m is None: raise Unsupported('the schema was not generated')
    st = t.st()
    r, seg, b, o, d, P, q = mkstruct(t, st, multi, cls=c.name)
    return m, st, r, seg, b, o, d, P, q
def textual(ty): return ty.kind == 'text' or ty.kind == 'list' and textual(ty.elem)
def skipped(mod, f):
    "in the unicode variant of the corpus only the fields whose code depends on the text type"
    return mod.endswith('_u') and (f.is_group or not textual(f.type))
def getter_tasks():
    for key, c in INDEX.items():
        mod, cn = key.split(':')
        for f in c.node.fields:
            if skipped(mod, f): continue
            union = c.node.union and f.in_union
            ptr = (not f.is_group) and f.type.is_ptr
            for v in (V2 if ptr else ('single',)):
                task('gen.%s:%s.%s' % (mod, cn, f.name), ['C11'] + (['C13'] if union else []) + (['C10'] if v == 'multi' else []), variants=(key + ',' + v,), name='gen.%s:%s.%s' % (mod, cn, f.name), weight=2)(lambda t, c=c, f=f, multi=v == 'multi': getter(t, c, f, multi))
def getter(t, c, f, multi, get=False):
    meth = ('get_' if get else '') + f.name
    m, st, r, seg, b, o, d, P, q = obj_of(t, c, multi)
    ex = t.ex
    raises = []
    tagged = True
    if f.in_union:
        toff = 2 * c.node.disc_off
        tv = Z.If(toff >= 8 * d, 0, zi(b.store.dec(ex, st, 'h', o + toff)))
        raises += [(And(toff < 8 * d, o + toff < 0), ('IndexError',)), (And(Not(And(toff < 8 * d, o + toff < 0)), tv != f.tag), ('ValueError',))]
        tagged = And(tv == f.tag, Not(And(toff < 8 * d, o + toff < 0)))
    cls = m.classes[c.name]
    if nullable(c.S, f):
        "None when the member isNull is set, otherwise the member value"
        fs = {x.name: x for x in c.S.nodes[f.group_id].fields}
        def scal(s, x):
            if x.type.kind == 'prim' and x.type.name == 'bool':
                off = x.offset // 8
                return Z.If(Z.Xor(Z.And(off < 8 * d, (zi(b.store.dec(ex, s, 'B', o + off)) / (1 << x.offset % 8)) % 2 == 1), Z.BoolVal(bool(x.default & 1))), 1, 0), And(off < 8 * d, o + off < 0)
            k = KIND[x.type.name]
            off = x.offset * SIZE_OF[k]
            return Z.If(off >= 8 * d, zi(value_of(ex, s, k, b, o + off, True, x.default)), zi(value_of(ex, s, k, b, o + off, False, x.default))), And(off < 8 * d, o + off < 0)
        (isnull, bad1), (val, bad2) = scal(st, fs['isNull']), scal(st, fs['value'])
        raises += [(And(tagged, bad1), ('IndexError',)), (And(tagged, Not(bad1), isnull == 0, bad2), ('IndexError',))]
        return t.expect(t.method(st, r, meth, []), raises=raises, ret=lambda s, v: [('null', (isnull != 0) == (v is None))] + ([('value', zi(v) == val if isint(v) else False)] if v is not None else []))
    if f.is_group:
        sub = c.name + '_' + f.name
        def ret(s, v):
            yield 'class', isinstance(v, Ref) and v.cls == sub
            if not isinstance(v, Ref): return
            h = s.heap[v.id]
            yield 'same-struct', And(isinstance(h['_seg'], Ref) and h['_seg'].id == seg.id, zi(h['_data_offset']) == o, zi(h['_data_size']) == d, zi(h['_ptrs_size']) == q, zi(h['_ptrs_offset']) == P)
        return t.expect(t.method(st, r, meth, []), raises=raises, ret=ret)
    ty = f.type
    if ty.kind == 'void':
        return t.expect(t.method(st, r, meth, []), raises=raises, ret=lambda s, v: [('none', v is None)])
    if ty.kind == 'prim' and ty.name == 'bool':
        off = f.offset // 8
        absent = off >= 8 * d
        v0 = zi(b.store.dec(ex, st, 'B', o + off))
        bit = Z.If(absent, False, (v0 / (1 << f.offset % 8)) % 2 == 1)
        raises.append((And(tagged, Not(absent), o + off < 0), ('IndexError',)))
        return t.expect(t.method(st, r, meth, []), raises=raises, ret=lambda s, v: [('bit', zb(ex.truth(v, s)) == Z.Xor(bit, Z.BoolVal(bool(f.default & 1)))), ('bool', isbool(v) or True)])
    if ty.kind in ('prim', 'enum'):
        k = KIND[ty.name] if ty.kind == 'prim' else 'h'
        n = SIZE_OF[k]
        off = f.offset * n
        absent = off >= 8 * d
        raises.append((And(tagged, Not(absent), o + off < 0), ('IndexError',)))
        def ret(s, v):
            for s2, ab in ex.branch(s, absent):
                w = value_of(ex, s2, k, b, o + off, ab, f.default)
                if ty.kind == 'enum': yield 'member', v.t == ENUMOF(S_of(c), ty)(zi(w)) if isinstance(v, Opq) and v.cls == 'enum' else False
                else: yield 'value', Or(eq_val(v, w), zi(v) == 0 if ab and isint(v) and conc(f.default) == 0 else False)
        return t.expect(t.method(st, r, meth, []), raises=raises, ret=ret)
    ok, o2, p2 = pointer_at(ex, st, seg, P, q, 8 * f.offset)
    null_fields(st, p2)
    good, null = And(tagged, ok), zi(p2) == 0
    bad = [(And(tagged, Not(ok)), BADFAR)]
    if ty.kind in ('text', 'data'):
        add = -1 if ty.kind == 'text' else 0
        wf, S, n = str_ok(st, seg, o2, p2, add)
        isbytes = And(F(st, p2, 'kind') == 1, F(st, p2, 'ltag') == 2)
        st.pc.append(zb(Implies(And(ok, Not(null), isbytes), wf)))
        bad = [(And(tagged, Not(And(ok, Or(null, isbytes)))), BADFAR)]
        uni = ty.kind == 'text' and mod_of(t).endswith('_u')
        if uni:
            uok, val = BM.utf8(st, 'buf', S, n)
            bad.append((And(good, isbytes, Not(null), Not(uok)), ('UnicodeDecodeError',)))
        def ret(s, v):
            if get:
                "the empty value when the pointer is null"
                for s2, nl in ex.branch(s, null):
                    x = BM.as_seq(ex, s2, v)
                    if nl: yield 'empty', zi(x.len) == 0 if x is not None else (v.t == BM.utf8(s2, 'x', 0, 0)[1] if isinstance(v, Opq) else v == '')
                    else:
                        for y in content(s2, v): yield y
                return
            yield 'null', null == (v is None)
            if v is None: return
            for y in content(s, v): yield y
        def content(s, v):
            if uni:
                yield 'decoded', v.t == val if isinstance(v, Opq) and v.cls == 'str' else False
                return
            x = BM.as_seq(ex, s, v)
            if x is None:
                yield 'bytes', False
                return
            j = fresh('j')
            yield 'length', zi(x.len) == n
            yield 'bytes', Implies(And(j >= 0, j < n), x.store.at(j) == b.store.at(S + j))
    elif ty.kind == 'struct':
        D = zi(o2) + 8 + 8 * F(st, p2, 'offset')
        fits = D + 8 * (F(st, p2, 'dsz') + F(st, p2, 'psz')) <= zi(b.len)
        bad = [(And(tagged, Not(And(ok, Or(null, And(F(st, p2, 'kind') == 0, fits))))), BADFAR)]
        cn = c.S.nodes[ty.type_id].name
        def ret(s, v):
            if get:
                yield 'object', isinstance(v, Ref) and v.cls == cn
                if not isinstance(v, Ref): return
                for s2, nl in ex.branch(s, null):
                    if nl: yield 'empty', And(zi(s2.heap[v.id]['_data_size']) == 0, zi(s2.heap[v.id]['_ptrs_size']) == 0)
                    else:
                        for x in struct_at(t, s2, v, seg, o2, p2, cn): yield x
                return
            yield 'null', null == (v is None)
            if v is not None:
                for x in struct_at(t, s, v, seg, o2, p2, cn): yield x
    elif ty.kind == 'list':
        L = zi(o2) + 8 + 8 * F(st, p2, 'offset')
        bad = [(And(tagged, Not(And(ok, Or(null, And(F(st, p2, 'kind') == 1, Implies(F(st, p2, 'ltag') == 7, inside(st, seg, L))))))), BADFAR)]
        def ret(s, v):
            if get:
                yield 'object', isinstance(v, Ref) and v.cls == 'List'
                if not isinstance(v, Ref): return
                yield 'item-type', item_type_ok(t, s, c, ty.elem, s.heap[v.id]['_item_type'])
                for s2, nl in ex.branch(s, null):
                    if nl: yield 'empty', zi(s2.heap[v.id]['_item_count']) == 0
                    else:
                        for x in list_at(t, s2, v, seg, o2, p2): yield x
                return
            yield 'null', null == (v is None)
            if v is not None:
                for x in list_at(t, s, v, seg, o2, p2): yield x
                if isinstance(v, Ref): yield 'item-type', item_type_ok(t, s, c, ty.elem, s.heap[v.id]['_item_type'])
    elif ty.kind == 'any':
        "an AnyPointer object on this struct and this pointer slot"
        bad = [(And(tagged, 8 * f.offset < 8 * q, zi(P) + 8 * f.offset < 0), ('IndexError',))]
        w0 = Z.If(8 * f.offset >= 8 * q, 0, zi(word(ex, st, seg, zi(P) + 8 * f.offset)))
        def ret(s, v):
            yield 'null', (w0 == 0) == (v is None)
            if v is None: return
            yield 'class', isinstance(v, Ref) and v.cls == 'AnyPointer'
            if not isinstance(v, Ref): return
            h = s.heap[v.id]
            yield 'struct', isinstance(h['struct_'], Ref) and h['struct_'].id == r.id
            yield 'slot', zi(h['offset']) == 8 * f.offset
    else: raise Unsupported('kind ' + ty.kind)
    return t.expect(t.method(st, r, meth, []), raises=raises + bad, ret=ret)
def S_of(c): return c.S
def ENUMOF(S, ty): return ufn('ENUM_' + S.nodes[ty.type_id].name, INT, OV)
def mod_of(t): return t.variant.split(':')[0]
def value_of(ex, s, k, b, pos, absent, dflt):
    "the stored value (zero when absent) xor the default, as the field's type"
    n = SIZE_OF[k]
    if isinstance(dflt, Z.ExprRef):
        xor = lambda x: dflt if conc(x) == 0 else ufn('bitxor', INT, INT, INT)(zi(x), dflt)
        if k in 'fd': return G.fof(n, xor(0 if absent else b.store.dec(ex, s, 'I' if n == 4 else 'Q', pos)), s)
        return xor(0 if absent else b.store.dec(ex, s, k, pos))
    if k in 'fd':
        if not dflt: return FZERO if absent else b.store.dec(ex, s, k, pos)
        u = 0 if absent else b.store.dec(ex, s, 'I' if n == 4 else 'Q', pos)
        v = G.xor_const(u, dflt, s) if conc(u) is None else u ^ dflt
        return G.fof(n, v, s)
    if k.islower() and dflt >> (8 * n - 1): dflt -= 1 << 8 * n
    if absent: return dflt
    return G.xor_const(b.store.dec(ex, s, k, pos), dflt, s)
def item_type_ok(t, s, c, ty, it):
    "the item type object that describes elements of type ty"
    if not isinstance(it, Ref): return False
    h = s.heap[it.id]
    if ty.kind == 'void': return it.cls == 'VoidItemType'
    if ty.kind == 'prim' and ty.name == 'bool': return it.cls == 'BoolItemType'
    if ty.kind == 'prim':
        n = ty.bits // 8
        return And(it.cls == 'PrimitiveItemType', zi(h['item_length']) == n, zi(h['ifmt']) == ord(KIND[ty.name]))
    if ty.kind == 'enum': return And(it.cls == 'EnumItemType', isinstance(h['enumcls'], ClsV) and h['enumcls'].name == c.S.nodes[ty.type_id].name)
    if ty.kind == 'text': return And(it.cls == ('TextUnicodeItemType' if mod_of(t).endswith('_u') else 'TextItemType'), zi(h['additional_size']) == -1)
    if ty.kind == 'data': return And(it.cls == 'TextItemType', zi(h['additional_size']) == 0)
    if ty.kind == 'struct': return And(it.cls == 'StructItemType', isinstance(h['structcls'], ClsV) and h['structcls'].name == c.S.nodes[ty.type_id].name)
    if ty.kind == 'list': return And(it.cls == 'ListItemType', item_type_ok(t, s, c, ty.elem, h['inner_item_type']))
    return False
def accessor_tasks():
    for key, c in INDEX.items():
        mod, cn = key.split(':')
        u = c.node.union
        for f in c.node.fields:
            if f.is_group or not f.type.is_ptr or skipped(mod, f): continue
            has = lambda t, c=c, f=f: has_(t, c, f)
            task('gen.%s:%s.has_%s' % (mod, cn, f.name), ['C11'], variants=(key,), name='gen.%s:%s.has_%s' % (mod, cn, f.name))(has)
            if f.type.kind == 'any': continue
            for v in V2:
                task('gen.%s:%s.get_%s' % (mod, cn, f.name), ['C11'] + (['C13'] if f.in_union else []), variants=(key + ',' + v,), name='gen.%s:%s.get_%s' % (mod, cn, f.name), weight=2)(lambda t, c=c, f=f, multi=v == 'multi': getter(t, c, f, multi, get=True))
        if u and not mod.endswith('_u'):
            for w in ['__which__', 'which'] + ['is_' + f.name for f in u]:
                task('gen.%s:%s.%s' % (mod, cn, w), ['C13'], variants=(key,), name='gen.%s:%s.%s' % (mod, cn, w))(lambda t, c=c, w=w: tag_(t, c, w))
def has_(t, c, f):
    m, st, r, seg, b, o, d, P, q = obj_of(t, c)
    off = 8 * f.offset
    w = word(t.ex, st, seg, P + off)
    t.expect(t.method(st, r, 'has_' + f.name, []), raises=[(And(off < 8 * q, P + off < 0), ('IndexError',))], ret=lambda s, v: [('set', zb(t.ex.truth(v, s)) == And(off < 8 * q, zi(w) != 0))])
def tag_(t, c, w):
    m, st, r, seg, b, o, d, P, q = obj_of(t, c)
    toff = 2 * c.node.disc_off
    tv = Z.If(toff >= 8 * d, 0, zi(b.store.dec(t.ex, st, 'h', o + toff)))
    def ret(s, v):
        if w == '__which__': yield 'tag', zi(v) == tv
        elif w == 'which': yield 'member', v.t == ufn('ENUM_%s__tag__' % c.name, INT, OV)(tv) if isinstance(v, Opq) and v.cls == 'enum' else False
        else:
            f = [f for f in c.node.union if 'is_' + f.name == w][0]
            yield 'is', zb(t.ex.truth(v, s)) == (tv == f.tag)
    t.expect(t.method(st, r, w, []), raises=[(And(toff < 8 * d, o + toff < 0), ('IndexError',))], ret=ret)
# ---- the members of a tag or enum class, in the order of their numbers
def members_tasks():
    for n, cs in CORPUS.items():
        if n.endswith('_u'): continue
        S = schema(n)
        for c in cs:
            if c.node.union: task('gen.%s:%s__tag__' % (n, c.name), ['C13'], variants=(n,), name='gen.%s:%s__tag__' % (n, c.name))(lambda t, c=c: members(t, c.name + '__tag__', [f.name for f in sorted(c.node.union, key=lambda f: f.tag)]))
        for e in S.by_name.values():
            if e.kind == 'enum': task('gen.%s:%s' % (n, e.name), ['C13', 'C20'], variants=(n,), name='gen.%s:%s' % (n, e.name))(lambda t, e=e: members(t, e.name, [pyname(x) for x in e.enumerants], e.enumerants))
def pyname(x): return x + '_' if keyword.iskeyword(x) else x
def members(t, name, want, schema=None):
    m = t.w.module('gen.' + t.variant)
    st = t.st()
    c = m.classes.get(name)
    if c is None or '__members__' not in c.attrs: raise Unsupported('members of ' + name)
    cur, t.ex.current = t.ex.current, Func(m, '<module>', [], [])
    for s, v in t.ex.ev(c.attrs['__members__'], st):
        t.normal += 1
        t.ex.ob('ensures/members', s, isinstance(v, Tup) and list(v.xs) == want)
        # the names printed in the text form
        if schema is None: continue
        if '__capnp_members__' not in c.attrs: t.ex.ob('ensures/schema-names', s, want == schema)
        else:
            for s2, w in t.ex.ev(c.attrs['__capnp_members__'], s): t.ex.ob('ensures/schema-names', s2, isinstance(w, Tup) and list(w.xs) == schema)
getter_tasks()
accessor_tasks()
members_tasks()
