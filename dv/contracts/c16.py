"""C16: keyed structs hash and compare like the tuple of their key fields.

The getters of the key fields are used through their contracts (C11): a field has one value, or reading it raises.  `_key` has to return the tuple of these values in the
order of the annotation, `__hash__` the hash of that tuple - in compiled mode lane by lane, through the native hashes' contracts (C17) -, and `==` has to compare that tuple.
hash(v) is the interpreter's own algorithm for integers, and an uninterpreted function of the value for everything else (bytes: of the byte string)."""
from vc import *
from contracts.c10 import *
from contracts.c17 import spec_int
from contracts import gencode as GC
KEYS = {'KInts': list('abcdefgh'), 'KMix': ['name', 'n', 'u64', 'flag', 'blob', 'color', 'f64', 'leaf'], 'KText': ['a', 'b'], 'KGroup': ['pos', 'z'], 'KGroup_pos': ['x', 'y'], 'KOne': ['t'], 'KAll': ['flag', 'f32', 'color', 'u64', 'blob', 'i8']}
UNKEYED = ['NoKey', 'Nums']
HASHV = ufn('HASH', OV, INT)                       # of objects that are opaque here
HNONE = Z.Int('HASH_OF_None')
def TUPH(n): return Z.Function('TUPLE_HASH_%d' % n, *([INT] * (n + 1)))
def tuph(st, xs):
    r = TUPH(len(xs))(*[zi(x) for x in xs])
    st.pc.append(inss(r))
    return r
def ranged(st, r):
    st.pc.append(inss(r))
    return r
def hash_of(ex, st, v):
    "the interpreter's hash(v)"
    if v is None: return ranged(st, HNONE)
    if isinstance(v, Opt): return simp(Z.If(zb(v.cond), zi(hash_of(ex, st, v.special)), zi(hash_of(ex, st, v.value))))
    if isbool(v): return simp(Z.If(zb(v), Z.IntVal(1), Z.IntVal(0)))
    if isint(v): return ranged(st, simp(spec_int(zi(v))))
    if isfloat(v): return ranged(st, ufn('HASH_FLOAT', G.tofv(v).sort(), INT)(G.tofv(v)))
    if isinstance(v, Opq): return ranged(st, HASHV(v.t))
    if isinstance(v, Tup): return tuph(st, [hash_of(ex, st, x) for x in v.xs])
    q = BM.as_seq(ex, st, v)
    if q is None: raise Unsupported('hash of %r' % (v,))
    nm, dlt = BM.base_of(ex, st, q.store)
    if nm is None: raise Unsupported('hash of a composed string')
    return ranged(st, HB(Z.StringVal(nm), zi(simp(zi(dlt))), zi(simp(zi(q.len)))))
def _hash(ex, st, args, kw):
    if len(args) != 1: raise Unsupported('hash')
    v = args[0]
    if isinstance(v, Ref):
        "an object of the tree's own classes: its __hash__"
        c, f = ex.w.method(v.cls, '__hash__')
        if f is None: raise Unsupported('hash of %r' % (v,))
        for y in ex.call_func(f, st, [v], {}): yield y
        return
    yield st, hash_of(ex, st, v)
BM.CALLS['hash'] = _hash
# ---- the native hashes, through the contracts C17 discharges
def native(lo, hi):
    def f(ex, st, args, kw):
        v, = args
        v = zi(v)
        ex.ob('native-hash/pre/range', st, And(v >= lo, v <= hi))
        yield st, hash_of(ex, st, simp(v))
    return f
def _tuplehash(ex, st, args, kw):
    h, n = args
    n = conc(n)
    if not (isinstance(h, Ref) and h.cls == 'carray') or n is None: raise Unsupported('tuplehash')
    d = st.heap[h.id]
    ex.ob('tuplehash/pre/lanes', st, all(i in d for i in range(n)))
    yield st, tuph(st, [d[i] if i in d else fresh('uninit') for i in range(n)])
for nm, f in (('inthash', native(*SS)), ('longhash', native(0, (1 << 64) - 1)), ('tuplehash', _tuplehash)):
    BM.MODELLED['capnpy._hash', nm] = 1
    BM.CALLS['capnpy._hash.' + nm] = f

# ---- a keyed object whose fields have given values
class Field(Contract):
    def __init__(self, name, r, v, bad): self.key, self.r, self.v, self.bad = name, r, v, bad
    def apply(self, ex, st, env):
        if env['self'].id != self.r.id: raise Unsupported('another object')
        for s, b in ex.branch(st, self.bad): yield s, (Exc('ValueError') if b else self.v)
class HashText(Contract):
    "the hash of the text field in a pointer slot, or the default when it is null"
    def __init__(self, r, fields): self.key, self.r, self.fields = '_hash_text', r, fields
    def apply(self, ex, st, env):
        if env['self'].id != self.r.id: raise Unsupported('another object')
        off = conc(env['offset'])
        if off not in self.fields:
            ex.ob('hash-text/pre/a-text-field', st, False)
            return
        v, bad = self.fields[off]
        for s, b in ex.branch(st, bad): yield s, (Exc('ValueError') if b else simp(Z.If(zb(v.cond), zi(env['default_']), zi(hash_of(ex, s, v.value)))))
def field_value(t, st, S, f, uni):
    "a value of the field's type"
    if f.is_group: return Opq(fresho(f.name), 'keyed')
    ty = f.type
    if ty.kind == 'prim' and ty.name == 'bool': return freshb(f.name)
    if ty.kind == 'prim':
        k = GC.KIND[ty.name]
        if k in 'fd': return fresh_float(f.name)
        v, n = fresh(f.name), 8 * SIZE_OF[k]
        st.pc.append(And(v >= 0, v < 1 << n) if k.isupper() else And(v >= -(1 << n - 1), v < 1 << n - 1))
        return v
    if ty.kind in ('text', 'data'):
        null = freshb(f.name + '_null')
        if ty.kind == 'text' and uni: return Opt(null, None, Opq(fresho(f.name), 'str'))
        n = fresh(f.name + '_len')
        st.pc.append(And(n >= 0, n < 1 << 29))
        return Opt(null, None, Seq(n, Store(n, f.name + '_bytes')))
    if ty.kind == 'enum': return Opq(fresho(f.name), 'enum')
    if ty.kind == 'struct': return Opt(freshb(f.name + '_null'), None, Opq(fresho(f.name), 'keyed'))
    raise Unsupported('kind ' + ty.kind)
def fresh_float(n):
    v = Z.Const('%s_%s' % (n, fresh('f')), G.tofv(FZERO).sort())
    return v
def keyed(t, key, tag=''):
    mod, cn = key.split(':')
    c = GC.INDEX[key]
    m = t.w.module('gen.' + mod)
    if m is None: raise Unsupported('the schema was not generated')
    st = t.st()
    r = new_keyed(t, st, c)
    return c, st, r
def new_keyed(t, st, c):
    r, seg, b, o, d, P, q = mkstruct(t, st, False, cls=c.name)
    st.heap[r.id].update({'fieldvals': fields(t, st, c, r)})
    return r
def fields(t, st, c, r):
    mod = GC.mod_of(t)
    uni = mod.endswith('_u')
    vals, texts = {}, {}
    for f in c.node.fields:
        if f.name not in KEYS.get(c.name, ()): continue
        v, bad = field_value(t, st, c.S, f, uni), freshb(f.name + '_raises')
        if not f.is_group and not f.type.is_ptr: bad = False
        vals[f.name] = v, bad
        t.ex.local['gen.%s:%s.%s' % (mod, c.name, f.name)] = Field(f.name, r, v, bad)
        if not f.is_group and f.type.kind == 'text': texts[8 * f.offset] = v, bad
    for n in ('_hash_text_bytes', '_hash_text_unicode'):
        if (n == '_hash_text_unicode') == uni: t.ex.local[ST + '.' + n] = HashText(r, texts)
    return vals
def same(v, w):
    if v is w: return True
    if isinstance(v, Opt) and isinstance(w, Opt): return And(zb(v.cond) == zb(w.cond), same(v.special, w.special), same(v.value, w.value))
    if isinstance(v, Opq) and isinstance(w, Opq): return v.cls == w.cls and v.t == w.t
    if isinstance(v, Seq) and isinstance(w, Seq): return v.store is w.store and zi(v.len) == zi(w.len)
    return eq_val(v, w)
def unopt(st, v):
    "what an optional value is on this path"
    return v
def key_tasks():
    for key, c in GC.INDEX.items():
        mod, cn = key.split(':')
        if cn in KEYS:
            if mod.endswith('_u') and not any(GC.textual(f.type) for f in c.node.fields if not f.is_group and f.name in KEYS[cn]): continue
            pre = 'gen.%s:%s.' % (mod, cn)
            task(pre + '_key', ['C16'], variants=(key,), name=pre + '_key')(lambda t, key=key: key_(t, key))
            task(pre + '__hash__', ['C16'], variants=(key,), name=pre + '__hash__')(lambda t, key=key: hash_(t, key))
            task(pre + '==', ['C16'], variants=tuple(key + ',' + x for x in ('eq', 'ne', 'lt')), name=pre + '==')(lambda t, key=key: eq_(t, key))
        elif cn in UNKEYED and not mod.endswith('_u'):
            pre = 'gen.%s:%s.' % (mod, cn)
            task(pre + '_key', ['C16'], variants=(key,), name=pre + '_key')(lambda t, key=key: nokey(t, key))
def key_(t, key):
    c, st, r = keyed(t, key)
    vals = st.heap[r.id]['fieldvals']
    want = [vals[n][0] for n in KEYS[c.name]]
    def ret(s, v):
        yield 'tuple', isinstance(v, Tup) and len(v.xs) == len(want)
        if not isinstance(v, Tup): return
        for n, x, w in zip(KEYS[c.name], v.xs, want): yield 'key-' + n, pick_same(t, s, x, w)
    t.expect(t.method(st, r, '_key', []), raises=[(b, ('ValueError',)) for v, b in vals.values() if b is not False], ret=ret)
def pick_same(t, s, x, w):
    "x is w, where reading an optional value may have decided which case it is"
    if isinstance(w, Opt) and not isinstance(x, Opt):
        return And(zb(w.cond), True) if x is None else And(Not(w.cond), same(x, w.value))
    return same(x, w)
class KeyContract(Contract):
    "what _key is, for the generic code"
    def __init__(self, r, vals, order): self.key, self.r, self.vals, self.order = '_key', r, vals, order
    def apply(self, ex, st, env):
        if env['self'].id != self.r.id: raise Unsupported('another object')
        for s, b in ex.branch(st, Or(*[b for v, b in self.vals.values()])): yield s, (Exc('ValueError') if b else Tup([self.vals[n][0] for n in self.order]))
def hash_(t, key):
    c, st, r = keyed(t, key)
    vals = st.heap[r.id]['fieldvals']
    want = tuph(st, [hash_of(t.ex, st, vals[n][0]) for n in KEYS[c.name]])
    t.expect(t.method(st, r, '__hash__', []), raises=[(b, ('ValueError',)) for v, b in vals.values() if b is not False], ret=lambda s, v: [('hash-of-key-tuple', zi(v) == want if isint(v) else False)])
# ---- equality
OP = dict(lt=0, le=1, eq=2, ne=3, gt=4, ge=5)
EQT = ufn('TUPLE_EQ', OV, OV, BOOL)
class KeyOf(Contract):
    "_key of either object: an opaque tuple, or the refusal"
    def __init__(self, keys, bad): self.key, self.keys, self.bad = '_key', keys, bad
    def apply(self, ex, st, env):
        k = self.keys.get(env['self'].id)
        if k is None: raise Unsupported('another object')
        for s, b in ex.branch(st, self.bad): yield s, (Exc('TypeError') if b else k)
def tuple_eq(t, ops):
    "== with an opaque tuple on one side; a struct on the other side answers through its own comparison"
    def f(ex, s, a, b):
        if isinstance(a, Ref): x, o = a, b
        elif isinstance(b, Ref): x, o = b, a
        else: return EQT(a.t, b.t) if isinstance(a, Opq) and isinstance(b, Opq) else False
        return compare_with(t, ex, s, x, o)
    return f
def compare_with(t, ex, s, x, o, op='eq'):
    "x <op> o, as the interpreter dispatches it"
    if ex.cmode: c, f = ex.w.method(x.cls, '__richcmp__')
    else: f = py_special(t, x.cls, op)
    args = [x, o] + ([OP[op]] if ex.cmode else [])
    return ex.call_func(f, s, args, {})
def py_special(t, cls, op):
    "the function behind cls.__eq__ ...: the assignments below class Blob, unless a class on the way defines it"
    c, f = t.w.method(cls, '__%s__' % op)
    if f is not None: return f
    m = t.w.module('capnpy.blob')
    want = 'Blob.__%s__' % op
    got = blob_attrs(t.w.root).get('__%s__' % op)
    if got is None: raise Unsupported(want)
    c, f = t.w.method('Blob', got)
    if f is None: raise Unsupported(want)
    return f
_BA = {}
def blob_attrs(root):
    "run the module in pure mode and see which functions the comparison slots are"
    if root not in _BA:
        import subprocess, json
        code = ("import sys, json; sys.path.insert(0, %r); sys.dont_write_bytecode = True\nimport capnpy.blob as b\nB = b.Blob\nd = {}\nfor k in ('eq','ne','lt','le','gt','ge'):\n"
                "    f = B.__dict__.get('__%%s__' %% k)\n    n = [x for x, y in B.__dict__.items() if y is f and not x.startswith('__')]\n    if n: d['__%%s__' %% k] = n[0]\nprint(json.dumps(d))") % root
        for exe in ('/opt/venv-pypy/bin/python', '/opt/venv-pypy/bin/pypy', '/opt/venv-pypy/bin/pypy3'):
            if os.path.exists(exe): break
        p = subprocess.run([exe, '-c', code], capture_output=True, text=True, cwd='/')
        try: _BA[root] = json.loads(p.stdout.strip().splitlines()[-1])
        except (ValueError, IndexError): _BA[root] = {}
    return _BA[root]
class Base(object): name = 'Struct'
def two(t, key, other):
    c = GC.INDEX[key] if key else Base
    st = t.st()
    r = mkstruct(t, st, False, cls=c.name)[0]
    k1 = Opq(fresho('key'), 'tuple')
    keys = {r.id: k1}
    bad = freshb('key_raises')
    if other in ('struct', 'other-class'):
        o = mkstruct(t, st, False, cls=c.name if other == 'struct' else 'KGroup' if c.name == 'KText' else 'KText' if key else 'Blob')[0]
        k2 = keys[o.id] = Opq(fresho('key2'), 'tuple')
        res = EQT(k1.t, k2.t), EQT(k2.t, k1.t)
    elif other == 'tuple':
        o = Opq(fresho('other'), 'tuple')
        res = EQT(k1.t, o.t), EQT(o.t, k1.t)
    else:
        o = Opq(fresho('other'), 'something-else')
        res = (False, False)
    st.pc.append(zb(res[0]) == zb(res[1]))
    return c, st, r, o, keys, bad, res[0]
def eq_(t, key0):
    key, op = key0, t.variant.split(',')[1]
    for other in ('struct', 'other-class', 'tuple', 'else') if key else ('struct', 'tuple', 'else'):
        c, st, r, o, keys, bad, want = two(t, key, other)
        mod = GC.mod_of(t)
        if key and t.w.module('gen.' + mod) is None: raise Unsupported('the schema was not generated')
        t.ex.local['gen.%s:%s._key' % (mod, c.name)] = t.ex.local['gen.%s:%s._key' % (mod, o.cls)] = t.ex.local[ST + '._key'] = KeyOf(keys, bad)
        BM.OEQ['tuple'] = BM.OEQ['something-else'] = BM.OEQ[c.name] = BM.OEQ[o.cls] = tuple_eq(t, None)
        if op == 'lt':
            for p in ('lt', 'le', 'gt', 'ge'): t.expect(list(compare_with(t, t.ex, st.fork(), r, o, p)), raises=[(True, ('TypeError',))])
            t.normal += 1
            continue
        outs = list(compare_with(t, t.ex, st, r, o, op))
        t.expect(outs, raises=[(bad if other != 'else' else False, ('TypeError',))], ret=lambda s, v: [('equal-keys/' + other, zb(t.ex.truth(v, s)) == (zb(want) if op == 'eq' else Z.Not(zb(want))))])
def nokey(t, key):
    "a struct without a key: _key refuses, and hashing and comparing go through it"
    cn = key.split(':')[1]
    for what in ('_key', '__hash__', 'eq', 'ne'):
        c, st, r = keyed(t, key)
        BM.OEQ['tuple'] = BM.OEQ[c.name] = tuple_eq(t, None)
        if what[0] == '_': outs = t.method(st, r, what, [])
        else:
            o = mkstruct(t, st, False, cls=c.name)[0]
            outs = list(compare_with(t, t.ex, st, r, o, what))
        t.expect(outs, raises=[(True, ('TypeError',))])
    t.normal += 1
key_tasks()
for x in ('eq', 'ne', 'lt'): task(ST + '.==', ['C16'], variants=('-,' + x,), name=ST + '.==')(lambda t: eq_(t, None))
@task(ST + '.__hash__', ['C16'])
def generic_hash(t):
    st = t.st()
    r = mkstruct(t, st, False)[0]
    k = Opq(fresho('key'), 'tuple')
    bad = freshb('key_raises')
    t.ex.local[ST + '._key'] = KeyOf({r.id: k}, bad)
    t.expect(t.method(st, r, '__hash__', []), raises=[(bad, ('TypeError',))], ret=lambda s, v: [('hash-of-key', zi(v) == HASHV(k.t))])

# ---- the unicode variant of the text hash
@task(ST + '._hash_text_unicode', ['C16'], variants=V2, weight=2)
def hash_utext(t):
    st, r, seg, b, off, p2, S, n, good = text_like(t, -1, None)
    uok, val = BM.utf8(st, 'buf', S, n)
    dflt = fresh('default')
    st.pc.append(inss(dflt))
    null = zi(p2) == 0
    t.expect(t.run(st, [r, off, dflt]), raises=[(Not(good), BADFAR), (And(good, Not(null), Not(uok)), ('UnicodeDecodeError',))], ret=lambda s, v: [('hash', zi(v) == Z.If(null, dflt, HASHV(val)))])
