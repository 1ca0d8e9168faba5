import oracle as O, values as V, mods, struct
from core import case
from mk import Mk
import h_c11, h_c12
ms, S = mods.load()
from capnpy import message
from capnpy.segment.builder import SegmentBuilder
from capnpy.list import ItemType

@case('C15', weight=2)
def python_lists(T):
    node = S['Lists']
    for kind, m in ms:
        st = T.rng.getstate()
        mk = Mk(S, T.rng, m, omit=0.2)
        kw, view = mk.kwargs(node, 3)
        o = m.Lists(**kw)
        h_c12.check_obj(T, S, node, o, view, 'Lists ' + kind)
        T.rng.setstate(st)
    T.nontrivial(o._seg.buf)

@case('C15', weight=2)
def from_existing(T):
    "every list of an existing message given to the constructor of a new one"
    node = S['Lists']
    tree = V.Gen(S, T.rng, null=0.15, utf8=True).struct(node, 4, node.ds, node.ps)
    buf = mods.msg(T.rng, tree)
    view = V.view_struct(S, node, tree[1], tree[2])
    for kind, m in ms:
        o = message.loads(buf, m.Lists)
        kw = {}
        ex = dict(view[1])
        for f in node.fields:
            if Mk.unsupported(None, f): ex[f.name] = None; continue
            v = getattr(o, f.name)
            kw[f.name] = v if T.rng.random() < 0.6 or v is None else list(v)
        n = m.Lists(**kw)
        h_c12.check_obj(T, S, node, n, ('S', ex), 'Lists from existing lists (%s)' % kind)
    T.nontrivial(buf)

@case('C15', weight=2)
def other_layouts(T):
    "structs with shorter / longer layouts, mixed in one list"
    r = T.rng
    name = r.choice(['Leaf', 'Tree', 'KMix'])
    node = S[name]
    for kind, m in ms:
        st = r.getstate()
        cls = getattr(m, name)
        items, views, sizes = [], [], []
        for _ in range(r.randrange(1, 6)):
            tree = V.Gen(S, r, utf8=True, unknown=0).struct(node, 2)
            o = message.loads(mods.msg(r, tree), cls)
            if o is None: continue
            items.append(o); views.append(V.view_struct(S, node, tree[1], tree[2])); sizes.append((len(tree[1]) // 8, len(tree[2]), tree))
        b = SegmentBuilder()
        b.allocate(16 + 8)
        b.write_int64(8, 0x1122334455667788); b.write_int64(16, -2)
        b.copy_from_list(0, ItemType.from_type(cls), r.choice([list, tuple])(items))
        out = b.as_string()
        T.eq(out[8:24], struct.pack('<qq', 0x1122334455667788, -2), 'words next to the pointer')
        t = O.FlatDecoder(out, None, budget=10**7).ptr(0, 0)
        T.eq(t[0], 'comp', 'kind of the list')
        T.eq(len(t[3]), len(items), 'length of the list')
        for i, ((d, p), (ds, ps, src)) in enumerate(zip(t[3], sizes)):
            n = min(len(d), len(src[1]))
            T.eq(d[:n], src[1][:n], 'data of item %d' % i)
            T.ok(not any(d[n:]) , 'bytes after the data of item %d' % i, d)
            T.ok(len(d) >= min(len(src[1]), 8 * node.ds) and len(p) >= min(ps, node.ps), 'item %d truncated' % i)
            for j in range(max(len(p), ps)):
                x = p[j] if j < len(p) else None
                y = src[2][j] if j < ps else None
                if j < len(p): T.eq(O.norm(x), O.norm(y), 'pointer %d of item %d' % (j, i))
        r.setstate(st)
    T.nontrivial(out)

@case('C15', weight=0.5)
def unacceptable(T):
    r = T.rng
    X = (TypeError, ValueError, OverflowError, struct.error, AttributeError)
    for kind, m in ms:
        T.raises(X, lambda: m.Lists(i8s=[1, 'x']), 'string in a list of ints')
        T.raises(X, lambda: m.Lists(i8s=[1, 128]), 'out of range')
        T.raises(X, lambda: m.Lists(u8s=[-1]), 'out of range')
        T.raises(X, lambda: m.Lists(texts=[1]), 'int in a list of text')
        T.raises(X, lambda: m.Lists(datas=[1.5]), 'float in a list of data')
        T.raises(X, lambda: m.Lists(leaves=[m.Leaf(), r.choice([None, 5, m.Tree(), (1, 2)])]), 'wrong item in a list of structs')
        T.raises(X, lambda: m.Lists(ll=[[1], 5]), 'int in a list of lists')
        T.raises(X, lambda: m.Lists(f64s=['x']), 'string in a list of floats')
    T.nontrivial(r.random())
