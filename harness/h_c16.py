import oracle as O, values as V, mods, struct, copy
from core import case
from mk import Mk
ms, S = mods.load()
from capnpy import message
KEYS = {'KInts': list('abcdefgh'), 'KMix': ['name', 'n', 'u64', 'flag', 'blob', 'color', 'f64', 'leaf'], 'KText': ['a', 'b'], 'KGroup': ['pos', 'z'], 'KOne': ['t'], 'KAll': ['flag', 'f32', 'color', 'u64', 'blob', 'i8']}

def unnorm(v, f=None):
    if isinstance(v, tuple) and v and v[0] == 'f': return float('nan') if v[1] == 'nan' else struct.unpack('<d', bytes.fromhex(v[1]))[0]
    if isinstance(v, tuple) and v and v[0] == 'e': return O.sext(v[1], 16)
    return v
def key_of(name, view):
    "the tuple of key values as plain Python values"
    out = []
    n = S[name]
    for k in KEYS[name]:
        f = [x for x in n.fields if x.name == k][0]
        v = view[1][k]
        if f.is_group: v = (v[1]['x'], v[1]['y'])
        elif f.type.kind == 'struct': v = None if v is None else key_of('KInts', v)
        elif f.type.kind == 'text' and v is not None and mods.UTYPE is str: v = v.decode('utf-8')
        else: v = unnorm(v)
        out.append(v)
    return tuple(out)
def has_nan(k): return 'nan' in repr(k)

def obj_of(T, m, name, tree):
    return message.loads(mods.msg(T.rng, tree), getattr(m, name))

@case('C16', weight=3)
def keyed(T):
    r = T.rng
    name = r.choice(list(KEYS))
    node = S[name]
    g = V.Gen(S, r, utf8=True, unknown=0)
    t1 = g.struct(node, 2)
    t2 = copy.deepcopy(t1)
    k = r.random()
    if k < 0.5:
        # change something: a key field, another field, or nothing
        d = bytearray(t2[1])
        if d and r.random() < 0.7: i = r.randrange(len(d)); d[i] ^= 1 << r.randrange(8)
        p = list(t2[2])
        if p and r.random() < 0.5:
            q = g.struct(node, 2, len(d) // 8, len(p)); i = r.randrange(len(p)); p[i] = q[2][i]
        t2 = ('struct', bytes(d), p)
    elif k < 0.6:
        t2 = ('struct', t2[1] + bytes(g.bytes(8)), t2[2]) if len(t2[1]) >= 8 * node.ds else t2
    elif k < 0.7:
        # integers near the modulus of the interpreter's hash
        if name == 'KInts' and len(t1[1]) >= 40:
            for t in (1, 2):
                pass
            d = bytearray(t1[1])
            nm = r.choice(['e', 'f']); f = [x for x in node.fields if x.name == nm][0]
            struct.pack_into('<Q', d, f.offset * 8, r.choice([2**61 - 1, 2**61, 2**61 - 2, 2**62, 2**63, 2**64 - 1, 2**64 - 2**61, 2**63 + 1, 2**62 - 1]))
            t1 = t2 = ('struct', bytes(d), t1[2])
    v1, v2 = V.view_struct(S, node, t1[1], t1[2]), V.view_struct(S, node, t2[1], t2[2])
    k1, k2 = key_of(name, v1), key_of(name, v2)
    for kind, m in ms:
        a, b = obj_of(T, m, name, t1), obj_of(T, m, name, t2)
        if a is None or b is None: return
        if has_nan(k1) or has_nan(k2): continue
        T.eq(hash(a), hash(k1), 'hash(%s) vs hash of the key tuple (%s)' % (name, kind), k1)
        T.eq(hash(b), hash(k2), 'hash(%s) vs hash of the key tuple (%s)' % (name, kind), k2)
        if has_nan(k1) or has_nan(k2): continue
        T.eq(a == b, k1 == k2, '%s == %s (%s)' % (name, name, kind), k1, k2)
        T.eq(a != b, k1 != k2, '%s != %s (%s)' % (name, name, kind), k1, k2)
        T.eq(a == k1, True, '%s == its key tuple (%s)' % (name, kind), k1)
        T.eq(a == k2, k1 == k2, '%s == tuple (%s)' % (name, kind), k1, k2)
        T.eq(k1 == a, True, 'tuple == %s (%s)' % (name, kind), k1)
        T.eq(a == 5, False, 'comparison with an int')
        T.eq(a == None, False, 'comparison with None')
        T.eq({k1: 1}.get(a), 1, 'lookup by the struct in a dict keyed by the tuple')
        if k1 == k2: T.eq(len({a, b}), 1, 'set of two equal structs')
    T.nontrivial(name, t1, t2)

@case('C16')
def constructed(T):
    "the same key from a constructor"
    name = T.rng.choice(list(KEYS))
    node = S[name]
    for kind, m in ms:
        st = T.rng.getstate()
        kw, view = Mk(S, T.rng, m).kwargs(node, 2)
        o = getattr(m, name)(**kw)
        k = key_of(name, view)
        if has_nan(k): continue
        T.eq(hash(o), hash(k), 'hash of a constructed %s (%s)' % (name, kind), k)
        if not has_nan(k): T.eq(o == k, True, 'constructed %s == its key (%s)' % (name, kind), k)
        T.rng.setstate(st)
    T.nontrivial(name, k)

@case('C16', weight=0.3)
def nokey(T):
    for kind, m in ms:
        for name in ('NoKey', 'Leaf', 'Tree', 'Un'):
            o = getattr(m, name)(**({'num': 1} if name == 'Un' else {}))
            o2 = getattr(m, name)(**({'num': 1} if name == 'Un' else {}))
            T.raises(TypeError, lambda: hash(o), 'hash of ' + name)
            T.raises(TypeError, lambda: o == o2, 'equality of ' + name)
            T.raises(TypeError, lambda: o == (1,), 'equality of %s with a tuple' % name)
    T.nontrivial(T.rng.random())
