"""Typed random messages and their expected Python view, from the layouts in cgr.py (independent of capnpy)."""
import keyword, struct as _s
import oracle as O

NULLABLE = 'nullable'
ANN = {}      # annotation name -> id, filled by load_annotations

def signed(x, bits): return O.sext(x, bits)
def fnorm(v):
    if v != v: return ('f', 'nan')
    return ('f', _s.pack('<d', v).hex())
def decode_prim(name, bits, raw):
    if name == 'bool': return bool(raw)
    if name == 'float32': return fnorm(_s.unpack('<f', _s.pack('<I', raw))[0])
    if name == 'float64': return fnorm(_s.unpack('<d', _s.pack('<Q', raw))[0])
    if name.startswith('int'): return signed(raw, bits)
    return raw
def enum_view(S, t, raw):
    names = S.nodes[t.type_id].enumerants
    return ('e', raw, names[raw] if raw < len(names) else None)

def is_nullable(S, f):
    return f.is_group and any(a.id == NULLABLE_ID for a in f.annotations)
NULLABLE_ID = None
def load_annotations(schema_file_incdir):
    global NULLABLE_ID, KEY_ID, GROUP_ID, OPTIONS_ID
    import cgr, os
    s = cgr.Schema(os.path.join(schema_file_incdir, 'capnpy/annotate.capnp'))
    ids = dict((n.name, n.id) for n in s.nodes.values() if n.kind == 'annotation')
    NULLABLE_ID, KEY_ID, GROUP_ID, OPTIONS_ID = ids['nullable'], ids['key'], ids['group'], ids['options']

# ------------------------------------------------------------------ expected views
def field_raw(f, data):
    t = f.type
    return O.get_bits(data, f.offset * t.bits, t.bits) ^ f.default

def view_ptr(S, t, tree):
    if tree is None: return None
    if t.kind in ('text',): return O.as_text(tree)
    if t.kind == 'data': return O.as_data(tree)
    if t.kind == 'struct': return view_struct(S, S.nodes[t.type_id], tree[1], tree[2])
    if t.kind == 'list': return view_list(S, t.elem, tree)
    if t.kind == 'any':
        return ('A', tree[0] == 'struct', tree[0] != 'struct', tree[0] == 'list' and tree[1] == 2)
    raise NotImplementedError(t.kind)

def view_list(S, t, tree):
    k = tree[0]
    if k == 'list':
        _, tag, count, payload = tree
        if t.kind == 'void': return ('L', [None] * count)
        if t.kind == 'prim' or t.kind == 'enum':
            out = []
            for i in range(count):
                raw = O.get_bits(payload, i * t.bits, t.bits)
                out.append(enum_view(S, t, raw) if t.kind == 'enum' else decode_prim(t.name, t.bits, raw))
            return ('L', out)
        raise NotImplementedError
    if k == 'ptrlist':
        return ('L', [view_ptr(S, t, x) for x in tree[1]])
    if k == 'comp':
        n = S.nodes[t.type_id]
        return ('L', [view_struct(S, n, d, p) for d, p in tree[3]])

def view_struct(S, node, data, ptrs):
    r = {}
    tag = None
    if node.disc_count:
        tag = O.get_bits(data, node.disc_off * 16, 16)
        r['#tag'] = tag
    for f in node.fields:
        if f.in_union and f.tag != tag:
            r[f.name] = '#inactive'
            continue
        r[f.name] = view_field(S, f, data, ptrs)
    return ('S', r)

def view_field(S, f, data, ptrs):
    if f.is_group:
        v = view_struct(S, S.nodes[f.group_id], data, ptrs)
        if is_nullable(S, f):
            return None if v[1]['isNull'] else v[1]['value']
        return v
    t = f.type
    if t.kind == 'void': return None
    if t.kind == 'prim': return decode_prim(t.name, t.bits, field_raw(f, data))
    if t.kind == 'enum': return enum_view(S, t, field_raw(f, data))
    return view_ptr(S, t, O.get_ptr(ptrs, f.offset))

# ------------------------------------------------------------------ the same view through capnpy's generated classes
class Mismatch(Exception):
    pass

def cap_prim(name, v):
    if name == 'bool':
        if type(v) is not bool and not isinstance(v, bool): raise Mismatch('bool field gave %r' % (v,))
        return v
    if name.startswith('float'): return fnorm(v)
    return int(v)

def cap_enum(S, t, v):
    names = S.nodes[t.type_id].enumerants
    raw = int(v) & 0xffff
    nm = v.name
    if nm.startswith('unknown<'): nm = None
    elif nm.endswith('_') and keyword.iskeyword(nm[:-1]): nm = nm[:-1]      # the Python name of an enumerant called like a keyword
    repr(v); str(v)
    return ('e', raw, nm)

class Reader:
    shallow = False
    def __init__(self, S, utype=bytes, mod=None, check_inactive=True):
        self.S, self.utype, self.mod, self.check_inactive = S, utype, mod, check_inactive
    def text(self, v):
        if v is None: return None
        if type(v) is not self.utype: raise Mismatch('text has type %s' % type(v))
        return v if self.utype is bytes else v.encode('utf-8')
    def ptr(self, t, v):
        if t.kind == 'text': return self.text(v)
        if v is None: return None
        if t.kind == 'data':
            if type(v) is not bytes: raise Mismatch('data has type %s' % type(v))
            return v
        if t.kind == 'struct': return self.struct(self.S.nodes[t.type_id], v)
        if t.kind == 'list': return self.list(t.elem, v)
        if t.kind == 'any': return ('A', v.is_struct(), v.is_list(), v.is_text())
        raise NotImplementedError
    def item(self, t, v):
        if t.kind == 'void': return v
        if t.kind == 'prim': return cap_prim(t.name, v)
        if t.kind == 'enum': return cap_enum(self.S, t, v)
        return self.ptr(t, v)
    def list(self, t, lst):
        n = len(lst)
        if n > 100000: raise Mismatch('absurd length %d' % n)
        out = [self.item(t, lst[i]) for i in range(n)]
        return ('L', out)
    def struct(self, node, obj):
        S = self.S
        r = {}
        tag = None
        if node.disc_count:
            tag = obj.__which__() & 0xffff
            w = obj.which()
            if int(w) & 0xffff != tag: raise Mismatch('which() is %r, raw tag is %d' % (w, tag))
            names = {f.tag: f.name for f in node.union}
            if tag in names and str(w) not in (names[tag], names[tag] + '_'):
                raise Mismatch('which() says %s, member is %s' % (w, names[tag]))
            if tag not in names and not str(w).startswith('unknown<'):
                raise Mismatch('which() says %s for unknown tag %d' % (w, tag))
            r['#tag'] = tag
        for f in node.fields:
            if f.in_union:
                isf = getattr(obj, 'is_' + f.name)()
                if isf is not (f.tag == tag): raise Mismatch('is_%s() is %r, tag is %r' % (f.name, isf, tag))
                if f.tag != tag:
                    if self.check_inactive:
                        try:
                            v = getattr(obj, f.name)
                        except ValueError:
                            pass
                        else:
                            raise Mismatch('inactive union member %s gave %r instead of ValueError' % (f.name, v))
                    r[f.name] = '#inactive'
                    continue
            r[f.name] = self.field(f, obj)
        return ('S', r)
    def field(self, f, obj):
        S = self.S
        v = getattr(obj, f.name)
        if f.is_group:
            if is_nullable(S, f):
                if v is None: return None
                vf = [x for x in S.nodes[f.group_id].fields if x.name == 'value'][0]
                return self.item(vf.type, v)
            return self.struct(S.nodes[f.group_id], v)
        t = f.type
        if not t.is_ptr:
            return self.item(t, v)
        r = self.ptr(t, v)
        has = getattr(obj, 'has_' + f.name)()
        if bool(has) is not (v is not None): raise Mismatch('has_%s() is %r, value is %r' % (f.name, has, r))
        if t.kind != 'any':
            g = getattr(obj, 'get_' + f.name)()
            if v is None:
                if t.kind == 'struct':
                    if self.shallow: return r
                    self.shallow = True
                    e = view_struct(S, S.nodes[t.type_id], b'', [])
                    if self.struct(S.nodes[t.type_id], g) != e: raise Mismatch('get_%s() of null is %r' % (f.name, g))
                    self.shallow = False
                elif t.kind == 'list':
                    if len(g) != 0: raise Mismatch('get_%s() of null has %d items' % (f.name, len(g)))
                elif t.kind == 'text':
                    if self.text(g) != b'': raise Mismatch('get_%s() of null is %r' % (f.name, g))
                elif g != b'': raise Mismatch('get_%s() of null is %r' % (f.name, g))
            elif t.kind in ('text', 'data'):
                if g != v: raise Mismatch('get_%s() differs from the value' % f.name)
            elif t.kind == 'list':
                if len(g) != len(v): raise Mismatch('get_%s() differs from the value' % f.name)
        return r

def diff(a, b, path=''):
    """first difference of two views, as text"""
    if type(a) is not type(b): return '%s: %r != %r' % (path or '.', a, b)
    if isinstance(a, tuple) and len(a) == 2 and isinstance(a[1], dict):
        if isinstance(b[1], dict):
            for k in a[1]:
                if k not in b[1]: return '%s.%s missing' % (path, k)
                d = diff(a[1][k], b[1][k], path + '.' + k)
                if d: return d
            for k in b[1]:
                if k not in a[1]: return '%s.%s extra' % (path, k)
            return None
    if isinstance(a, tuple) and a and a[0] == 'L' and b and b[0] == 'L':
        if len(a[1]) != len(b[1]): return '%s: %d items != %d items' % (path, len(a[1]), len(b[1]))
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            d = diff(x, y, '%s[%d]' % (path, i))
            if d: return d
        return None
    if a != b: return '%s: %r != %r' % (path or '.', a, b)
    return None

# ------------------------------------------------------------------ typed random trees
class Gen:
    def __init__(self, S, rng, utf8=True, null=0.25, vary=True, unknown=0.05, maxlist=4, bigtext=False):
        self.S, self.rng, self.utf8, self.null, self.vary = S, rng, utf8, null, vary
        self.unknown, self.maxlist, self.bigtext = unknown, maxlist, bigtext
    def bytes(self, n): return O.rand_bytes(self.rng, n)
    def text_bytes(self):
        r = self.rng
        n = r.choice([0, 1, 2, 6, 7, 8, 9, 15, 16, 17, 31])
        if self.bigtext and r.random() < 0.1: n = r.choice([500, 1000, 5000])
        if self.utf8:
            return ''.join(r.choice('ab"\'\\\n\t xyz\u00e9\u20ac\U0001f600\x00') for _ in range(n)).encode('utf-8')
        return self.bytes(n)
    def ptr(self, t, depth):
        r = self.rng
        if r.random() < self.null: return None
        if t.kind == 'text': return O.text(self.text_bytes())
        if t.kind == 'data': return O.data(self.bytes(r.choice([0, 1, 3, 7, 8, 9, 16, 20])))
        if depth <= 0: return None
        if t.kind == 'struct': return self.struct(self.S.nodes[t.type_id], depth - 1)
        if t.kind == 'list': return self.list(t.elem, depth - 1)
        if t.kind == 'any': return O.rand_obj(r, 2)
        raise NotImplementedError
    def list(self, t, depth):
        r = self.rng
        if t.kind == 'void': return ('list', 0, r.choice([0, 1, 5, 1000]), b'')
        if t.kind in ('prim', 'enum'):
            tag = {1: 1, 8: 2, 16: 3, 32: 4, 64: 5}[t.bits]
            n = r.choice([0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 64, 65])
            pay = self.bytes(O.list_bytes(tag, n))
            if t.kind == 'enum':
                pay = b''.join(_s.pack('<H', r.choice([0, 1, 2, 3, 4, 77, 32767, 32768, 65535])) for _ in range(n))
            return O.nlist(tag, n, pay)
        if t.kind in ('text', 'data', 'list', 'any'):
            n = r.randrange(self.maxlist + 1)
            out = []
            for _ in range(n):
                x = self.ptr(t, depth)
                if x is None and t.kind == 'list': x = self.list(t.elem, depth - 1) if depth > 0 else None
                if x is None and t.kind == 'list': return ('ptrlist', [])
                out.append(x)
            return ('ptrlist', out)
        if t.kind == 'struct':
            n = self.S.nodes[t.type_id]
            ds, ps = self.sizes(n)
            return ('comp', ds, ps, [self.struct(n, depth - 1, ds, ps)[1:] for _ in range(r.randrange(self.maxlist + 1))])
        raise NotImplementedError
    def sizes(self, n):
        r = self.rng
        if not self.vary or r.random() < 0.5: return n.ds, n.ps
        k = r.random()
        if k < 0.3: return r.randrange(n.ds + 1), r.randrange(n.ps + 1)
        if k < 0.6: return n.ds + r.randrange(3), n.ps + r.randrange(3)
        if k < 0.8: return r.randrange(n.ds + 1), n.ps + r.randrange(2)
        return n.ds + r.randrange(2), r.randrange(n.ps + 1)
    def struct(self, n, depth, ds=None, ps=None):
        if ds is None: ds, ps = self.sizes(n)
        data = bytearray(self.bytes(8 * ds))
        ptrs = [None] * ps
        for i in range(n.ps, ps):
            if self.rng.random() < 0.5: ptrs[i] = O.rand_tree(self.rng, 2)
        self.fill(n, data, ptrs, depth)
        return ('struct', bytes(data), ptrs)
    def fill(self, n, data, ptrs, depth):
        r = self.rng
        tag = None
        if n.disc_count:
            off = n.disc_off * 2
            if off + 2 <= len(data):
                tag = r.randrange(n.disc_count) if r.random() >= self.unknown else r.choice([n.disc_count, 255, 32767, 32768, 65535])
                data[off:off + 2] = _s.pack('<H', tag)
            else:
                tag = 0
        for f in n.fields:
            if f.in_union and f.tag != tag: continue
            if f.is_group:
                self.fill(self.S.nodes[f.group_id], data, ptrs, depth)
            elif f.type.is_ptr and f.offset < len(ptrs):
                ptrs[f.offset] = self.ptr(f.type, depth)
            elif f.type.kind == 'enum' and f.offset * 2 + 2 <= len(data) and r.random() < 0.7:
                v = r.randrange(len(self.S.nodes[f.type.type_id].enumerants)) ^ f.default
                data[f.offset * 2:f.offset * 2 + 2] = _s.pack('<H', v)

def encode_opts(rng, far=True):
    """a random legal arrangement"""
    k = rng.random()
    if k < 0.3: return dict()
    if k < 0.5: return dict(gap=0.3, backward=0.5)
    if k < 0.6: return dict(empty_fwd=1.0)
    if not far: return dict(gap=0.3, backward=0.3)
    return dict(nseg=rng.choice([1, 2, 3, 5]), far=rng.choice([0.2, 0.6, 1.0]), double=rng.choice([0.0, 0.4, 1.0]),
                gap=rng.choice([0, 0.3]), backward=rng.choice([0, 0.4]))
