"""pyx-mode and pure-mode modules against each other (CPython); the same cases on PyPy give digests that the check compares"""
import oracle as O, values as V, mods, struct
from core import case
from mk import Mk
import h_c11, h_c12
ms, S = mods.load()
from capnpy import message
ROOTS = h_c12.ROOTS + ['Any']

def outcome(f):
    try: return ('ok', f())
    except Exception as e: return ('raise', 'Unicode' if isinstance(e, UnicodeError) else 'error')

@case('C21', weight=2)
def messages(T):
    name = T.rng.choice(ROOTS)
    node = S[name]
    tree = V.Gen(S, T.rng, utf8=True, unknown=0.15).struct(node, 3)
    buf = mods.msg(T.rng, tree)
    outs = []
    for kind, m in ms:
        o = message.loads(buf, getattr(m, name))
        v = V.Reader(S, mods.UTYPE).struct(node, o)
        outs.append((v, outcome(o.shortrepr), outcome(o.dumps), outcome(lambda: o.compact()._seg.buf), outcome(lambda: type(o._key()) and hash(o) == hash(o._key()))))
    for x in outs[1:]:
        for a, b, w in zip(outs[0], x, ('fields', 'repr', 'dumps', 'compact', 'key')):
            T.eq(a, b, 'pyx and py differ in ' + w)
    T.digest(repr(outs[0][0]).encode() + repr(outs[0][1:3]).encode())
    T.nontrivial(buf)

@case('C21', weight=2)
def ctors(T):
    name = T.rng.choice(h_c12.ROOTS)
    node = S[name]
    outs = []
    for kind, m in ms:
        st = T.rng.getstate()
        kw, view = Mk(S, T.rng, m).kwargs(node, 3)
        o = getattr(m, name)(**kw)
        outs.append(o._seg.buf)
        end = T.rng.getstate()
        T.rng.setstate(st)
    T.rng.setstate(end)
    for x in outs[1:]: T.eq(x, outs[0], 'bytes built by pyx and py for ' + name)
    T.digest(outs[0])
    T.nontrivial(name, outs[0])

@case('C21')
def errors(T):
    "malformed or out-of-range input is refused (or accepted) alike"
    name = T.rng.choice(['Prims', 'Defs', 'KInts', 'Leaf', 'Un', 'Gr', 'Names'])
    node = S[name]
    f = T.rng.choice([f for f in node.fields if not f.is_group and f.type.kind == 'prim' and f.type.name not in ('bool', 'float32', 'float64') and not f.in_union])
    v = T.rng.choice([2**7, 2**8, -2**7 - 1, 2**15, 2**16, -1, 2**31, 2**32, -2**31 - 1, 2**63, 2**64, -2**63 - 1, 0, 1, 127, 255, 65535])
    outs = []
    for kind, m in ms:
        kw = {f.name: v}
        if name == 'Un': kw['num'] = 3
        r = outcome(lambda: getattr(m, name)(**kw)._seg.buf)
        outs.append(r)
    for x in outs[1:]: T.eq(x, outs[0], '%s(%s=%d) in pyx and py' % (name, f.name, v))
    T.digest(repr(outs[0]).encode())
    T.nontrivial(name, f.name, v)
