import oracle as O, values as V, mods, struct
from core import case, enum
from mk import Mk
import h_c11, h_c12
ms, S = mods.load()
from capnpy import message
from capnpy.enum import BaseEnum, enum as mkenum

@case('C13', weight=2)
def from_message(T):
    "the tag names the member; all the others raise"
    name = T.rng.choice(['Un', 'Gr', 'Any'])
    node = S[name]
    tree = V.Gen(S, T.rng, unknown=0.3).struct(node, 2)
    buf = mods.msg(T.rng, tree)
    for kind, m in ms:
        h_c11.compare(T, name, S, node, tree, message.loads(buf, getattr(m, name)), kind, name)
    T.nontrivial(buf)

@case('C13')
def ctor_tag(T):
    for kind, m in ms:
        st = T.rng.getstate()
        mk = Mk(S, T.rng, m)
        node = S[T.rng.choice(['Un', 'Gr'])]
        kw, view = mk.kwargs(node, 2)
        obj = getattr(m, node.name)(**kw)
        h_c12.check_obj(T, S, node, obj, view, 'ctor of ' + node.name)
        if node.name == 'Un':
            # the same through new_<member>
            t = [f for f in node.union if f.tag == view[1]['#tag']][0]
            args = dict((k, v) for k, v in kw.items() if k != t.name)
            if kw.get(t.name) is not None: args[t.name] = kw[t.name]
            if not (t.is_group and t.name not in args):
                o2 = getattr(m.Un, 'new_' + t.name)(**args)
                h_c12.check_obj(T, S, node, o2, view, 'new_' + t.name)
            # two members at once
            others = [f for f in node.union if f is not t and f.name not in kw and not mk.unsupported(f)]
            f = T.rng.choice(others)
            v = mk.group(f, 1)[0] if f.is_group else (None if f.type.kind == 'void' else mk.value(f.type, 1)[0])
            if f.is_group: v = mk.group_value(node, f, v[2])
            kw2 = dict(kw); kw2[f.name] = v
            kw2.setdefault(t.name, None)
            T.raises(TypeError, lambda: m.Un(**kw2), 'two members (%s, %s)' % (t.name, f.name))
        T.rng.setstate(st)
    T.nontrivial(T.rng.random())

@enum('C13')
def all_tags(T):
    "every 16-bit tag value"
    node = S['Un']
    names = dict((f.tag, f.name) for f in node.union)
    # where the tag is: independent layout
    for kind, m in ms:
        for tag in list(range(64)) + [x for x in range(64, 65536, 97)] + list(range(65500, 65536)) + list(range(32700, 32800)):
            def f(kind=kind, m=m, tag=tag):
                d = bytearray(8 * node.ds)
                struct.pack_into('<H', d, node.disc_off * 2, tag)
                o = m.Un.from_buffer(bytes(d), 0, node.ds, 0)
                w = o.which()
                T.eq(int(w) & 0xffff, tag, 'which()')
                T.eq(o.__which__() & 0xffff, tag, '__which__()')
                if tag in names: T.eq(str(w), names[tag], 'name of the tag')
                else: T.ok(str(w).startswith('unknown<'), 'unknown tag is called %s' % w)
                repr(w)
                for g in node.union:
                    T.eq(bool(getattr(o, 'is_' + g.name)()), g.tag == tag, 'is_' + g.name)
                    if g.tag == tag: getattr(o, g.name)
                    else:
                        T.raises(ValueError, lambda: getattr(o, g.name), 'inactive member ' + g.name, tag)
                        gt = getattr(o, 'get_' + g.name, None)
                        if gt: T.raises(ValueError, gt, 'get_ of inactive member ' + g.name, tag)
                repr(o)
            yield ('%s tag %d' % (kind, tag), f)

@enum('C13')
def all_enums(T):
    node = S['Color']
    for kind, m in ms:
        for raw in list(range(40)) + list(range(40, 65536, 101)) + list(range(32740, 32790)) + list(range(65500, 65536)):
            def f(kind=kind, m=m, raw=raw):
                n = S['Prims']
                fld = [x for x in n.fields if x.name == 'color'][0]
                d = bytearray(8 * n.ds)
                struct.pack_into('<H', d, fld.offset * 2, raw)
                o = m.Prims.from_buffer(bytes(d), 0, n.ds, 0)
                c = o.color
                T.eq(int(c) & 0xffff, raw, 'enum value')
                exp = node.enumerants[raw] if raw < len(node.enumerants) else None
                if exp: T.eq(c.name, exp, 'enum name'); T.ok(c == getattr(m.Color, exp), 'enum member')
                else: T.ok(c.name.startswith('unknown<'), 'unknown enum %d is called %s' % (raw, c.name))
                repr(c); str(c)
                T.eq(int(m.Color._new(raw)) & 0xffff, raw, 'enum from int')
                # preserved by a copy
                o2 = message.loads(o.dumps(), m.Prims)
                T.eq(int(o2.color) & 0xffff, raw, 'enum after a copy')
            yield ('%s enum %d' % (kind, raw), f)

@case('C13', weight=0.5)
def dynamic_enum(T):
    names = ['m%d' % i for i in range(T.rng.randrange(1, 6))]
    E = mkenum('E', names)
    for v in [-2**15, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 100, 2**15]:
        e = E(v)
        T.eq(e.name, names[v] if 0 <= v < len(names) else 'unknown<%d>' % v, 'name of %d of %d' % (v, len(names)))
    for i, n in enumerate(names): T.eq(int(getattr(E, n)), i, 'member')
    T.nontrivial(len(names))
