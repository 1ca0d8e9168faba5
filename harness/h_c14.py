import oracle as O, values as V, mods, struct
from core import case
import h_c11
ms, S = mods.load()
from capnpy import message
from capnpy.list import List, ItemType
from capnpy.type import Types

def root(T, **kw):
    node = S['Lists']
    kw.setdefault('null', 0.1)
    tree = V.Gen(S, T.rng, utf8=(mods.TEXT == 'unicode'), maxlist=6, **kw).struct(node, 4, node.ds, node.ps)
    return node, tree

def ix(rng, n):
    return rng.choice([None, 0, 1, -1, n, -n, n + 1, -n - 1, rng.randrange(-n - 3, n + 4), 10**6, -10**6])

@case('C14', weight=2)
def sequence(T):
    node, tree = root(T)
    buf = mods.msg(T.rng, tree)
    exp = V.view_struct(S, node, tree[1], tree[2])[1]
    for kind, m in ms:
        o = message.loads(buf, m.Lists)
        h_c11.compare(T, 'Lists', S, node, tree, o, kind, 'Lists')
        R = V.Reader(S, mods.UTYPE)
        for f in node.fields:
            l = getattr(o, f.name)
            if l is None: continue
            e = exp[f.name][1]
            n = len(e)
            T.eq(len(l), n, 'len')
            it = lambda v: R.item(f.type.elem, v)
            if n <= 100: T.eq([it(x) for x in l], e, 'iteration of ' + f.name)
            for _ in range(6):
                i = T.rng.choice([0, -1, n - 1, n, -n, -n - 1, T.rng.randrange(-n - 2, n + 2), 2**31, 2**40, -2**40])
                if -n <= i < n: T.eq(it(l[i]), e[i], '%s[%d]' % (f.name, i))
                else: T.raises(IndexError, lambda: l[i], '%s[%d] of %d items' % (f.name, i, n))
            for _ in range(4):
                s = slice(ix(T.rng, n), ix(T.rng, n), T.rng.choice([None, 1, 2, 3, -1, -2, -5, 100]))
                T.eq([it(x) for x in l[s]], e[s], '%s[%s]' % (f.name, s))
            T.raises(ValueError, lambda: l[::0], 'slice with step 0')
    T.nontrivial(buf)

def plain(v):
    "drop the wrapping so that NaN compares like NaN"
    if isinstance(v, tuple) and v and v[0] == 'L': return [plain(x) for x in v[1]]
    if isinstance(v, tuple) and v and v[0] == 'f':
        return float('nan') if v[1] == 'nan' else struct.unpack('<d', bytes.fromhex(v[1]))[0]
    if isinstance(v, tuple) and v and v[0] == 'e': return v[1]
    return v
def deep_eq(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(deep_eq(x, y) for x, y in zip(a, b))
    return a == b

@case('C14')
def equality(T):
    node, tree = root(T)
    # a twin: sometimes identical, sometimes with one list changed
    import copy
    twin = copy.deepcopy(tree)
    g = V.Gen(S, T.rng, utf8=(mods.TEXT == 'unicode'))
    for f in node.fields:
        if T.rng.random() < 0.4: twin[2][f.offset] = g.ptr(f.type, 4)
        t = twin[2][f.offset]
        if t is not None and t[0] == 'list' and t[2] and t[3] and T.rng.random() < 0.5:
            p = bytearray(t[3]); i = T.rng.randrange(len(p)); p[i] ^= 1 << T.rng.randrange(8)
            twin[2][f.offset] = ('list', t[1], t[2], bytes(p))
        if t is not None and t[0] == 'list' and f.type.elem.kind == 'prim' and f.type.elem.name.startswith('float') and t[2] and T.rng.random() < 0.5:
            w = 4 if f.type.elem.bits == 32 else 8
            z, nz = b'\0' * w, b'\0' * (w - 1) + b'\x80'
            tree[2][f.offset] = ('list', t[1], 2, z + nz); twin[2][f.offset] = ('list', t[1], 2, nz + z)
    b1, b2 = mods.msg(T.rng, tree), mods.msg(T.rng, twin)
    v1, v2 = V.view_struct(S, node, tree[1], tree[2])[1], V.view_struct(S, node, twin[1], twin[2])[1]
    for kind, m in ms:
        o1, o2 = message.loads(b1, m.Lists), message.loads(b2, m.Lists)
        for f in node.fields:
            x, y = getattr(o1, f.name), getattr(o2, f.name)
            if x is None or y is None: continue
            e = f.type.elem
            while e.kind == 'list': e = e.elem
            if e.kind == 'struct':
                if f.type.elem.kind == 'struct': T.raises(TypeError, lambda: x == y, 'lists of structs compared')
                continue
            want = deep_eq(plain(v1[f.name]), plain(v2[f.name]))
            T.eq(bool(x == y), want, 'equality of %s (%s)' % (f.name, kind), v1[f.name], v2[f.name])
            T.eq(bool(x != y), not want, 'inequality of %s' % f.name)
            if f.type.elem.kind != 'list' and 'nan' not in repr(v1[f.name]):
                T.eq(bool(x == list(y)), want, 'equality of %s with a Python list' % f.name)
    T.nontrivial(b1, b2)

