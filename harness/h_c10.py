import oracle as O, values as V, mods, ut, struct
from core import case
ms, S = mods.load()
from capnpy import message
from capnpy.struct_ import Struct
from capnpy.segment.segment import Segment, MultiSegment
from capnpy.list import ItemType
from capnpy.type import Types
import h_c11, h_c04
ROOTS = ['Tree', 'Lists', 'Un', 'Gr', 'Any', 'KMix', 'KText', 'Leaf']

def safe(f):
    try: return ('ok', f())
    except UnicodeDecodeError: return ('undecodable',)
    except RecursionError: return ('deep',)

@case('C10', weight=3)
def typed(T):
    name = T.rng.choice(ROOTS)
    node = S[name]
    tree = V.Gen(S, T.rng, utf8=(mods.TEXT == 'unicode' or T.rng.random() < 0.7), null=0.15).struct(node, 3)
    near = O.frame(O.encode(tree, T.rng))
    segs = O.encode(tree, T.rng, nseg=T.rng.choice([1, 2, 3, 6]), far=T.rng.choice([0.3, 1.0]), double=T.rng.choice([0, 0.5, 1.0]), gap=0.2, backward=0.2)
    buf, offs = O.flat(segs)
    if ut.has_double_empty(buf, offs): return
    far = O.frame(segs)
    for kind, m in ms:
        cls = getattr(m, name)
        a, b = message.loads(near, cls), message.loads(far, cls)
        ga = h_c11.compare(T, name, S, node, tree, a, kind, name + ' in place')
        gb = h_c11.compare(T, name, S, node, tree, b, kind, name + ' through far pointers')
        T.eq(safe(b.shortrepr), safe(a.shortrepr), 'representation through far pointers')
        T.eq(b._get_end() if len(segs) > 1 and b._data_offset is None else None, None, '')
        if name in ('KMix', 'KText'):
            ka, kb = safe(lambda: hash(a)), safe(lambda: hash(b))
            T.eq(kb, ka, 'hash through far pointers')
            if not has_nan(ga): T.eq(safe(lambda: a == b), ('ok', True) if ka[0] == 'ok' else ka, 'equality with the in-place twin')
        if b._data_size + b._ptrs_size:
            c = b.compact()
            h_c11.compare(T, name, S, node, tree, c, kind, name + ' compacted from far pointers')
            d = message.loads(b.dumps(), cls)
            h_c11.compare(T, name, S, node, tree, d, kind, name + ' dumped from far pointers')
            if name == 'Tree':
                e = m.Tree(next=b, kids=[b, b])
                for i, x in enumerate([e.next, e.kids[0], e.kids[1]]):
                    h_c11.compare(T, name, S, node, tree if i == 0 else widen(tree, e.kids), x, kind, 'Tree copied from far pointers')
    T.nontrivial(name, far)

def widen(tree, lst): return tree
def has_nan(v):
    return repr(v).find("'nan'") >= 0

@case('C10')
def anypointer(T):
    "AnyPointer casts and kinds, in place and through far pointers, agree with the tree"
    node = S['Any']
    tree = V.Gen(S, T.rng, vary=False).struct(node, 3)
    t = T.rng.choice([O.rand_obj(T.rng, 3), O.text(b'hello'), O.data(b'xyz'), ('ptrlist', [O.text(b'a'), None])])
    tree[2][0] = t
    segs = O.encode(tree, T.rng, nseg=T.rng.choice([1, 2, 4]), far=T.rng.choice([0, 1.0]), double=T.rng.choice([0, 1.0]))
    buf, offs = O.flat(segs)
    if ut.has_double_empty(buf, offs): return
    for kind, m in ms:
        a = message.loads(O.frame(segs), m.Any)
        p = a.p
        T.eq((p.is_struct(), p.is_list(), p.is_text(), p.is_data()), (t[0] == 'struct', t[0] != 'struct', t[0] == 'list' and t[1] == 2, t[0] == 'list' and t[1] == 2), 'kind of an AnyPointer')
        if t[0] == 'struct':
            s = p.as_struct(Struct)
            T.eq((s._data_size, s._ptrs_size), (len(t[1]) // 8, len(t[2])), 'AnyPointer.as_struct sizes')
            T.eq(s._seg.buf[s._data_offset:s._data_offset + len(t[1])], t[1], 'AnyPointer.as_struct data')
            if t[1] or t[2]:
                T.eq(O.norm(O.loads(p.dumps())), O.norm(t), 'AnyPointer.dumps')
        elif t[0] == 'list' and t[1] == 2:
            T.eq(p.as_data(), t[3], 'AnyPointer.as_data')
            if t[3]: T.eq(p.as_text_bytes(), t[3][:-1], 'AnyPointer.as_text_bytes')
            T.eq(list(p.as_list(Types.uint8)), list(t[3]), 'AnyPointer.as_list')
        elif t[0] == 'list' and t[1] == 4:
            T.eq(list(p.as_list(Types.uint32)), list(struct.unpack('<%dI' % t[2], t[3])), 'AnyPointer.as_list')
        elif t[0] == 'comp':
            l = p.as_list(Struct) if False else None
    T.nontrivial(O.frame(segs))

@case('C10')
def bad_far(T):
    "far pointer to a segment which does not exist, or inside a single-segment message"
    tree = V.Gen(S, T.rng, null=0.0, vary=False).struct(S['Tree'], 2)
    multi = T.rng.random() < 0.5
    segs = O.encode(tree, T.rng, nseg=3 if multi else 1, far=0)
    buf, offs = O.flat(segs)
    n = len(segs)
    # overwrite every pointer of the root
    w = struct.unpack_from('<Q', buf, 0)[0]
    if O.p_kind(w) != 0: return
    at = 8 + 8 * O.p_off(w)
    b = bytearray(buf)
    base = at + 8 * O.p_ds(w)
    two = T.rng.random() < 0.5
    if n == 1: seg = T.rng.choice([0, 1, 2, 2**31, 2**32 - 1])
    else: seg = T.rng.choice([n, n + 1, 2**31 - 1, 2**31, 2**32 - 1, 2**32 - n])
    far = O.mk_far(two, T.rng.choice([0, 1, 5, 2**29 - 1]), seg)
    for i in range(O.p_ps(w)): struct.pack_into('<Q', b, base + 8 * i, far)
    buf = bytes(b)
    sg = Segment(buf) if n == 1 else MultiSegment(buf, offs)
    for kind, m in ms:
        o = m.Tree.from_buffer(sg, at, O.p_ds(w), O.p_ps(w))
        for f in ('name', 'blob', 'kids', 'next', 'leaf', 'ints'):
            T.raises(Exception, lambda: getattr(o, f), 'reading %s through a dangling far pointer (%s)' % (f, kind), hex(far), n)
        T.raises(Exception, o.compact, 'compact() with a dangling far pointer')
    T.nontrivial(n, far)
