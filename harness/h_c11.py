import oracle as O, values as V, mods
from core import case
mods.load()
from capnpy import message
from capnpy.segment.segment import Segment

ROOTS = ['Prims', 'Defs', 'FDefs', 'Leaf', 'Tree', 'Lists', 'Un', 'Gr', 'Any', 'KInts', 'KMix', 'KText', 'KGroup', 'NoKey']

def gen(T, name, **kw):
    ms, S = mods.load()
    node = S[name]
    return ms, S, node, V.Gen(S, T.rng, **kw).struct(node, 3)

def compare(T, name, S, node, tree, obj, kind, what):
    exp = V.view_struct(S, node, tree[1], tree[2])
    try:
        got = V.Reader(S, mods.UTYPE).struct(node, obj)
    except V.Mismatch as e:
        T.ok(False, '%s (%s): %s' % (what, kind, e), tree)
    d = V.diff(got, exp)
    if d: T.ok(False, '%s (%s): got != expected at %s' % (what, kind, d), tree)
    return got

@case('C11', weight=4)
def typed_read(T):
    name = T.rng.choice(ROOTS)
    ms, S, node, tree = gen(T, name, utf8=(mods.TEXT == 'unicode' or T.rng.random() < 0.5))
    msg = mods.msg(T.rng, tree)
    for kind, m in ms:
        obj = message.loads(msg, getattr(m, name))
        if obj is None:
            T.ok(False, 'root reads as None', tree)
        compare(T, name, S, node, tree, obj, kind, name)
    T.nontrivial(name, msg)

@case('C11')
def evolution(T):
    "the same fields through messages of an older / newer schema: only the sections' sizes differ"
    name = T.rng.choice(ROOTS)
    ms, S = mods.load()
    node = S[name]
    ds, ps = T.rng.randrange(node.ds + 3), T.rng.randrange(node.ps + 3)
    tree = V.Gen(S, T.rng).struct(node, 2, ds, ps)
    body = O.frame(O.encode(tree, T.rng))
    for kind, m in ms:
        obj = message.loads(body, getattr(m, name))
        compare(T, name, S, node, tree, obj, kind, '%s with %d+%d words' % (name, ds, ps))
    T.nontrivial(name, ds, ps, body)

@case('C11')
def struct_inside(T):
    "at an odd place of a bigger buffer whose other bytes are all ones: nothing outside the sections may leak in"
    name = T.rng.choice(['Prims', 'Defs', 'FDefs', 'Gr', 'Un', 'KInts', 'KGroup'])
    ms, S = mods.load()
    node = S[name]
    ds = T.rng.randrange(node.ds + 2)
    tree = V.Gen(S, T.rng, null=1.0).struct(node, 1, ds, 0)
    pre = 8 * T.rng.randrange(3)
    buf = b'\xff' * pre + tree[1] + b'\xff' * 64
    for kind, m in ms:
        obj = getattr(m, name).from_buffer(buf, pre, ds, 0)
        compare(T, name, S, node, tree, obj, kind, '%s inline' % name)
    T.nontrivial(name, ds, tree[1])
