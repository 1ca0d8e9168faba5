import oracle as O, values as V, mods, struct, pickle, sys
from core import case
import h_c11, h_c07
ms, S = mods.load()
from capnpy import message
from capnpy.struct_ import Struct
for kind, m in ms:
    # make the classes importable so that pickle finds them by name
    for k in list(vars(m)):
        c = getattr(m, k)
        if isinstance(c, type) and issubclass(c, Struct) and c is not Struct and not k.startswith('_'):
            pass
ROOTS = ['Tree', 'Un', 'Gr', 'KMix', 'Prims', 'Lists', 'Leaf', 'Defs', 'KInts']

def reachable(S, m, node, tree, obj):
    "(class node, tree, obj) of typed sub-structs"
    out = [(node, tree, obj)]
    for f in node.fields:
        if f.is_group or not f.type.is_ptr or f.offset >= len(tree[2]) or f.in_union: continue
        t = tree[2][f.offset]
        if t is None: continue
        if f.type.kind == 'struct':
            out += reachable(S, m, S.nodes[f.type.type_id], t, getattr(obj, f.name))
        elif f.type.kind == 'list' and f.type.elem.kind == 'struct' and t[0] == 'comp':
            l = getattr(obj, f.name)
            for i, (d, p) in enumerate(t[3]):
                out += reachable(S, m, S.nodes[f.type.elem.type_id], ('struct', d, p), l[i])
    return out

@case('C19', weight=2)
def roundtrip(T):
    name = T.rng.choice(ROOTS)
    node = S[name]
    tree = V.Gen(S, T.rng, utf8=(mods.TEXT == 'unicode')).struct(node, 3)
    buf = mods.msg(T.rng, tree)
    for kind, m in ms:
        modname = m.__name__
        sys.modules[modname] = m
        sys.modules[getattr(m, name).__module__] = m
        try:
            o = message.loads(buf, getattr(m, name))
            for n, t, x in reachable(S, m, node, tree, o)[:6]:
                p = pickle.loads(pickle.dumps(x, T.rng.randrange(pickle.HIGHEST_PROTOCOL + 1)))
                T.ok(type(p) is type(x), 'class after unpickling')
                h_c11.compare(T, n.name, S, n, t, p, kind, 'unpickled ' + n.name)
                T.eq((p._data_size, p._ptrs_size), (x._data_size, x._ptrs_size), 'sizes after unpickling')
                q = type(x)._raw_loads(x._raw_dumps())
                T.ok(type(q) is type(x), 'class after _raw_loads')
                h_c11.compare(T, n.name, S, n, t, q, kind, '_raw_loads ' + n.name)
                T.eq((q._data_offset, q._data_size, q._ptrs_size), (x._data_offset, x._data_size, x._ptrs_size), 'position after _raw_loads')
        finally:
            pass
    T.nontrivial(buf)

@case('C19')
def untyped(T):
    "several structs of one message pickled together; shared segments; repeated pickling"
    tree = O.rand_struct(T.rng, 4)
    segs = O.encode(tree, T.rng, nseg=T.rng.choice([1, 1, 2, 4]), far=T.rng.choice([0, 1.0]), gap=0.2)
    import ut
    buf, offs = O.flat(segs)
    if ut.has_double_empty(buf, offs): return
    seg = ut.seg_of(segs)
    subs = [(s, t) for s, t in h_c07.sub_structs(seg, buf, offs) if t is not None]
    back = pickle.loads(pickle.dumps([s for s, t in subs], 2))
    for (s, t), b in zip(subs, back):
        T.eq((type(b), b._data_offset, b._data_size, b._ptrs_size), (type(s), s._data_offset, s._data_size, s._ptrs_size), 'unpickled struct')
        T.eq(h_c07.read_back(b), t, 'unpickled tree')
        b2 = pickle.loads(pickle.dumps(b, 2))
        T.eq(h_c07.read_back(b2), t, 'tree pickled twice')
        r = Struct._raw_loads(b._raw_dumps())
        T.eq(h_c07.read_back(r), t, 'raw dump of an unpickled struct')
    T.nontrivial(O.frame(segs))
