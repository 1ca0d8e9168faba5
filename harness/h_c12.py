import oracle as O, values as V, mods, struct
from core import case
from mk import Mk, RANGE
mods.load()
from capnpy import message
ROOTS = ['Prims', 'Defs', 'FDefs', 'Leaf', 'Tree', 'Lists', 'Un', 'Gr', 'KInts', 'KMix', 'KText', 'KGroup', 'NoKey', 'Names']

def check_obj(T, S, node, obj, view, what):
    try:
        got = V.Reader(S, mods.UTYPE).struct(node, obj)
    except V.Mismatch as e:
        T.ok(False, '%s: %s' % (what, e))
    d = V.diff(got, view)
    if d: T.ok(False, '%s: got != given at %s' % (what, d))
    # the same through the independent decoder
    try:
        tree = O.FlatDecoder(obj._seg.buf, None, budget=10**7).struct(0, obj._data_offset, obj._data_size, obj._ptrs_size, 0)
    except O.Malformed as e:
        T.ok(False, '%s: the constructed message is malformed: %s' % (what, e))
    d = V.diff(V.view_struct(S, node, tree[1], tree[2]), view)
    if d: T.ok(False, '%s: encoded != given at %s' % (what, d))
    T.eq((obj._data_size, obj._ptrs_size), (node.ds, node.ps), what + ': sizes')

@case('C12', weight=3)
def ctor(T):
    ms, S = mods.load()
    node = S[T.rng.choice(ROOTS)]
    for kind, m in ms:
        st = T.rng.getstate()
        mk = Mk(S, T.rng, m)
        kw, view = mk.kwargs(node, 3)
        T.note(kw)
        obj = getattr(m, node.name)(**kw)
        check_obj(T, S, node, obj, view, '%s(%s)' % (node.name, kind))
        bufs = obj._seg.buf
        T.digest(bufs)
        if kind == 'pyx': first = bufs; T.rng.setstate(st)
        elif len(ms) == 2: T.eq(bufs, first, 'bytes built by the pure and the compiled class')
    T.nontrivial(node.name, bufs)

@case('C12')
def one_field(T):
    "all the others at their defaults: setting one field changes only its own"
    ms, S = mods.load()
    node = S[T.rng.choice(['Prims', 'Defs', 'FDefs', 'Gr', 'KMix', 'Lists', 'Names'])]
    for kind, m in ms:
        mk = Mk(S, T.rng, m, omit=0)
        kw, view = mk.kwargs(node, 2)
        k = T.rng.choice(sorted(kw))
        view2 = {}
        for f in node.fields:
            view2[f.name] = mk.default(f)
        view2[k] = view[1][k]
        obj = getattr(m, node.name)(**{k: kw[k]})
        check_obj(T, S, node, obj, ('S', view2), '%s(%s=%r) %s' % (node.name, k, kw[k], kind))
        T.nontrivial(node.name, k, repr(kw[k]))

@case('C12')
def out_of_range(T):
    ms, S = mods.load()
    node = S[T.rng.choice(['Prims', 'Defs', 'KInts', 'KMix', 'Leaf', 'Gr', 'Names'])]
    fs = [f for f in node.fields if not f.is_group and f.type.kind == 'prim' and f.type.name in RANGE]
    f = T.rng.choice(fs)
    lo, hi = RANGE[f.type.name]
    v = T.rng.choice([lo - 1, hi + 1, hi + 2**T.rng.randrange(70), lo - 2**T.rng.randrange(70), hi * 2 + 2, -hi - 2 - 2**64 * 3])
    for kind, m in ms:
        e = T.raises((OverflowError, struct.error, ValueError, TypeError), lambda: getattr(m, node.name)(**{f.name: v}), '%s(%s=%d) %s' % (node.name, f.name, v, kind))
    T.nontrivial(node.name, f.name, v)

@case('C12')
def list_out_of_range(T):
    ms, S = mods.load()
    node = S['Lists']
    fs = [f for f in node.fields if f.type.kind == 'list' and f.type.elem.kind == 'prim' and f.type.elem.name in RANGE]
    f = T.rng.choice(fs)
    lo, hi = RANGE[f.type.elem.name]
    v = T.rng.choice([lo - 1, hi + 1, hi + 2**T.rng.randrange(70), lo - 2**T.rng.randrange(70)])
    for kind, m in ms:
        T.raises((OverflowError, struct.error, ValueError, TypeError), lambda: m.Lists(**{f.name: [0, v, 1]}), 'Lists(%s=[0,%d,1]) %s' % (f.name, v, kind))
    T.nontrivial(f.name, v)

@case('C12', weight=0.5)
def bad_arguments(T):
    ms, S = mods.load()
    r = T.rng
    for kind, m in ms:
        X = (TypeError, ValueError, AttributeError)
        T.raises(X, lambda: m.Leaf(nosuch=1), 'unknown field')
        T.raises(X, lambda: m.Leaf(name=r.choice([5, 1.5, object()])), 'wrong type for text')
        T.raises(X, lambda: m.Tree(blob=r.choice([u'abc', 5])), 'wrong type for data')
        T.raises(X, lambda: m.Tree(next=r.choice([m.Leaf(), 5, b'x'])), 'wrong struct class')
        T.raises(X, lambda: m.Tree(kids=[m.Leaf()]), 'wrong struct class in list')
        T.raises(X, lambda: m.Tree(kids=[m.Tree(), None]), 'None in list of structs')
        T.raises(X, lambda: m.Tree(ints=5), 'not a list')
        T.raises(X, lambda: m.Gr(pos=(1, 2)), 'group of wrong length')
        T.raises(X + (struct.error,), lambda: m.Leaf(x=r.choice(['a', b'a', [], None])), 'wrong type for int')
    T.nontrivial(r.random())
