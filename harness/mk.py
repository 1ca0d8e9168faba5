"""random constructor arguments for the generated classes, together with the view they must read back as"""
import struct as _s
import oracle as O, values as V, mods
from capnpy import message

RANGE = {'int8': (-128, 127), 'uint8': (0, 255), 'int16': (-2**15, 2**15-1), 'uint16': (0, 2**16-1),
         'int32': (-2**31, 2**31-1), 'uint32': (0, 2**32-1), 'int64': (-2**63, 2**63-1), 'uint64': (0, 2**64-1)}
OMIT = object()

class Mk:
    def __init__(self, S, rng, m, omit=0.3, foreign=0.4, group_ctor=0.5):
        self.S, self.rng, self.m, self.omit, self.foreign, self.gc = S, rng, m, omit, foreign, group_ctor
        self.gen = V.Gen(S, rng)
    def int(self, name):
        lo, hi = RANGE[name]
        r = self.rng
        return r.choice([lo, hi, lo + 1, hi - 1, 0, 1, r.randrange(lo, hi + 1), r.randrange(lo, hi + 1), max(lo, -1)])
    def prim(self, name):
        r = self.rng
        if name == 'bool':
            b = r.random() < 0.5
            return b, b
        if name == 'float32':
            v = _s.unpack('<f', _s.pack('<f', r.choice([0.0, -0.0, 1.5, -2.25, 3.4e38, 1e-45, float('inf'), float('-inf'), float('nan'), r.uniform(-1e6, 1e6)])))[0]
            return v, V.fnorm(v)
        if name == 'float64':
            v = r.choice([0.0, -0.0, 1.5, 1e308, 5e-324, float('inf'), float('-inf'), float('nan'), r.uniform(-1e6, 1e6)])
            return v, V.fnorm(v)
        i = self.int(name)
        return i, i
    def text(self):
        b = self.gen.text_bytes()
        return (b if mods.UTYPE is bytes else b.decode('utf-8')), b
    def data(self):
        b = self.gen.bytes(self.rng.choice([0, 1, 7, 8, 9, 20]))
        return b, b
    def value(self, t, depth):
        "(python value, view); pointers may be None"
        r = self.rng
        if t.kind == 'void': return None, None
        if t.kind == 'prim': return self.prim(t.name)
        if t.kind == 'enum':
            names = self.S.nodes[t.type_id].enumerants
            raw = r.randrange(len(names))
            cls = getattr(self.m, self.S.nodes[t.type_id].name)
            return r.choice([raw, getattr(cls, cls.__members__[raw])]), ('e', raw, names[raw])
        if r.random() < 0.2: return None, None
        if t.kind == 'text': return self.text()
        if t.kind == 'data': return self.data()
        if t.kind == 'struct':
            if depth <= 0: return None, None
            return self.struct(self.S.nodes[t.type_id], depth - 1)
        if t.kind == 'list':
            if depth <= 0: return None, None
            return self.list(t, depth - 1)
        raise NotImplementedError(t.kind)
    def from_message(self, node, depth, **kw):
        tree = V.Gen(self.S, self.rng, unknown=0).struct(node, depth, **kw)
        if self.rng.random() < 0.15 :
            # not the root: second item of a list would be just as good; use a buffer with a prefix
            buf = O.encode(tree, self.rng)[0]
            ws = _s.unpack_from('<Q', buf, 0)[0]
            at = 8 + 8 * O.p_off(ws)
            obj = getattr(self.m, node.name).from_buffer(buf, at, O.p_ds(ws), O.p_ps(ws))
        else:
            obj = message.loads(mods.msg(self.rng, tree), getattr(self.m, node.name))
        return obj, V.view_struct(self.S, node, tree[1], tree[2])
    def struct(self, node, depth, foreign=None):
        foreign = self.foreign if foreign is None else foreign
        if self.rng.random() < foreign:
            obj, view = self.from_message(node, depth)
            if obj is not None: return obj, view
        kw, view = self.kwargs(node, depth)
        return getattr(self.m, node.name)(**kw), view
    def list(self, t, depth):
        e = t.elem
        r = self.rng
        if e.kind == 'prim' and e.name == 'bool' or r.random() < 0.25:
            # an existing capnpy list (Bool lists can only be copied... which the library does not support)
            pass
        n = r.choice([0, 1, 2, 3, 5, 8, 9])
        vals, views = [], []
        for _ in range(n):
            if e.kind == 'struct': v, w = self.struct(self.S.nodes[e.type_id], depth)
            elif e.kind == 'text': v, w = self.text() if r.random() < 0.9 else (None, None)
            elif e.kind == 'data': v, w = self.data() if r.random() < 0.9 else (None, None)
            elif e.kind == 'list': v, w = self.list(e, depth)
            else: v, w = self.value(e, depth)
            vals.append(v); views.append(w)
        return r.choice([list, tuple])(vals), ('L', views)
    def unsupported(self, f):
        "fields whose values cannot be given to a constructor (documented NotImplementedError)"
        if f.is_group: return False
        t = f.type
        while t.kind == 'list': t = t.elem
        return t.kind == 'any' or f.type.kind == 'list' and t.kind == 'prim' and t.name == 'bool'
    def group(self, f, depth):
        "(argument, view) for a group field"
        node = self.S.nodes[f.group_id]
        if V.is_nullable(self.S, f):
            if self.rng.random() < 0.4: return None, None
            vf = [x for x in node.fields if x.name == 'value'][0]
            return self.value(vf.type, depth)
        kw, view = self.kwargs(node, depth)
        return ('#group', f.name, kw), view
    def default(self, f):
        if f.is_group:
            node = self.S.nodes[f.group_id]
            v = V.view_struct(self.S, node, b'', [])
            if V.is_nullable(self.S, f): return None if v[1]['isNull'] else v[1]['value']
            return v
        t = f.type
        if t.kind == 'void': return None
        if t.kind == 'prim': return V.decode_prim(t.name, t.bits, f.default)
        if t.kind == 'enum': return V.enum_view(self.S, t, f.default)
        return None
    def kwargs(self, node, depth):
        "(kwargs, expected view) of a struct or group node; groups still as ('#group', name, kw)"
        r = self.rng
        view = {}
        kw = {}
        tagf = None
        if node.disc_count:
            sup = [f for f in node.union if not self.unsupported(f)]
            tagf = r.choice(sup)
            if tagf.tag == 0 and r.random() < 0.0: tagf = tagf
            view['#tag'] = tagf.tag
        for f in node.fields:
            if f.in_union and f is not tagf:
                view[f.name] = '#inactive'
                continue
            omit = r.random() < self.omit and f is not tagf
            if self.unsupported(f) or omit:
                view[f.name] = self.default(f)
                continue
            if f.is_group: v, w = self.group(f, depth)
            elif f.type.kind == 'void':
                view[f.name] = None
                if f is tagf: kw[f.name] = None
                continue
            else: v, w = self.value(f.type, depth)
            view[f.name] = w
            kw[f.name] = v
        return self.resolve(node, kw), ('S', view)
    def resolve(self, node, kw):
        "turn ('#group', name, kw) into what the owner class's group constructor gives"
        out = {}
        for k, v in kw.items():
            if isinstance(v, tuple) and len(v) == 3 and v[0] == '#group':
                v = self.group_value(node, [f for f in node.fields if f.name == k][0], v[2])
            out[k] = v
        return out
    def group_value(self, node, f, kw):
        cls = self.group_owner(node)
        return getattr(cls, f.name.capitalize())(**kw)
    def group_owner(self, node):
        if node.scope == self.S.file_id: return getattr(self.m, node.name)
        # class of a group: module.<Outer>_<group>
        names = []
        n = node
        while n.id != self.S.file_id and n.scope in self.S.nodes:
            names.append(n.name); n = self.S.nodes[n.scope]
        return getattr(self.m, '_'.join(reversed(names)))
