"""Contracts of everything the verified code calls outside capnpy (assumed, listed in evidence as trusted), and the abstract contract of the
pointer accessors (capnpy.ptr), which property C01 discharges against the bit-level code of both implementations."""
import z3 as Z
from ir import *

eng = None            # set by engine at import
def init(e):
    global eng
    eng = e
    for k in ('zi', 'simp', 'conc', 'And', 'Or', 'Not', 'Implies', 'Ite', 'ufn', 'INT', 'BOOL', 'FV', 'Exc', 'Ref', 'Tup', 'SymTup', 'Lst', 'SuperV', 'Mod', 'FnV', 'Builtin', 'ClsV', 'Opq', 'Ptr', 'Addr',
              'NULL', 'Seq', 'Store', 'seq_of', 'isint', 'isbool', 'isfloat', 'fresh', 'freshb', 'freshf', 'fresho', 'krange', 'SIZE_OF', 'exc_isa', 'encb', 'OV'):
        globals()[k] = getattr(e, k)

I64 = (-(1 << 63), (1 << 63) - 1)
PTRF = ('kind', 'offset', 'extra', 'deref', 'new_struct', 'new_list', 'new_far', 'struct_data_size', 'struct_ptrs_size', 'list_size_tag', 'list_item_count', 'far_landing_pad',
        'far_offset', 'far_target', 'round_up_to_word', 'list_item_length')
MODELLED = dict((('capnpy.ptr', n), 1) for n in PTRF)
for m in ('capnpy.segment.base', 'capnpy.packing', 'capnpy.segment.builder'): MODELLED[m, 'mychr'] = 1
for n in ('unpack_from', 'pack', 'pack_into', 'calcsize'): MODELLED['struct', n] = 1
MODELLED['six', 'int2byte'] = 1
MODELLED['capnpy.printer', 'print_buffer'] = 1
MODELLED['capnpy.message', 'rup'] = 0
MODELLED['struct', 'unpack'] = 1
def has(mod, name):
    if mod == 'method': return name in METHODS
    return bool(MODELLED.get((mod, name)))
PC = dict(STRUCT=0, LIST=1, FAR=2, LIST_SIZE_VOID=0, LIST_SIZE_BIT=1, LIST_SIZE_8=2, LIST_SIZE_16=3, LIST_SIZE_32=4, LIST_SIZE_64=5, LIST_SIZE_PTR=6, LIST_SIZE_COMPOSITE=7)
VALUES = {'capnpy.ptr': PC, 'libc.stdint': {'INT64_MAX': (1 << 63) - 1}, 'six': {'PY2': False, 'PY3': True}, 'sys': {'maxsize': (1 << 63) - 1}}
BUILTINS = set(('len ord chr set range xrange isinstance max min bool divmod bytes bytearray str repr abs tuple list int float type object hash getattr setattr hasattr issubclass NotImplemented '
                'reversed enumerate zip sum any all map id super slice').split())
METHODS = {'list.append'}
ATTR, OATTR, OCALL, OEQ, INDEX, SETINDEX, ITER, CALLS, CONSTRUCT = {}, {}, {}, {}, {}, {}, {}, {}, {}
def late_values():
    VALUES['capnpy.struct_'] = {'undefined': Opq(Z.Const('undefined', OV), 'Undefined')}      # a module-level singleton, compared by identity
    VALUES['six'].update(binary_type=ClsV('bytes'), text_type=ClsV('str'))

def memo(ex, st, key, mk):
    return mk()

# ------------------------------------------------------------------ pointer words
def P(name, p, st=None):
    "the abstract field of a pointer word, with its range recorded in st"
    f = ufn('P_' + name, INT, INT)
    c = conc(p)
    if c is not None:
        w = c % (1 << 64)
        def sg(v, b): return v - (1 << b) if v >> (b - 1) & 1 else v
        return {'kind': w & 3, 'offset': sg(w >> 2 & 0x3fffffff, 30), 'dsz': w >> 32 & 0xffff, 'psz': w >> 48, 'ltag': w >> 32 & 7, 'lcnt': w >> 35, 'fland': w >> 2 & 1,
                'foff': w >> 3 & 0x1fffffff, 'ftgt': w >> 32}[name]
    r = f(zi(p))
    lo, hi = {'kind': (0, 3), 'offset': (-(1 << 29), (1 << 29) - 1), 'dsz': (0, 65535), 'psz': (0, 65535), 'ltag': (0, 7), 'lcnt': (0, (1 << 29) - 1), 'fland': (0, 1),
              'foff': (0, (1 << 29) - 1), 'ftgt': (0, (1 << 32) - 1)}[name]
    if st is not None: st.pc.append(Z.And(r >= lo, r <= hi))
    return r
ACC = {'kind': 'kind', 'offset': 'offset', 'struct_data_size': 'dsz', 'struct_ptrs_size': 'psz', 'list_size_tag': 'ltag', 'list_item_count': 'lcnt', 'far_landing_pad': 'fland',
       'far_offset': 'foff', 'far_target': 'ftgt'}
def word_eq(p, q):
    "two 64-bit words (mathematical integers, maybe read signed or unsigned) are the same word: equal modulo 2^64"
    return zi(p) % (1 << 64) == zi(q) % (1 << 64)

def ptr_call(ex, name, st, args):
    a = args
    def cr(v): return ex.crange(st, v, eng.LONG, 'ptr.' + name) if ex.cmode else v
    if name in ACC: return P(ACC[name], a[0], st)
    if name == 'deref': return cr(simp(zi(a[1]) + (zi(P('offset', a[0], st)) + 1) * 8))
    if name == 'round_up_to_word':
        if ex.cmode: cr(simp(zi(a[0]) + 7))
        return simp(((zi(a[0]) + 7) / 8) * 8)
    if name in ('new_struct', 'new_list', 'new_far'):
        cs = [conc(x) for x in a]
        f = ufn('P_' + name, INT, INT, INT, INT)
        r = f(*[zi(x) for x in a])
        st.pc.append(Z.And(r >= I64[0], r <= I64[1]))
        if name == 'new_struct':
            rng = And(zi(a[0]) >= -(1 << 29), zi(a[0]) < (1 << 29), zi(a[1]) >= 0, zi(a[1]) < 65536, zi(a[2]) >= 0, zi(a[2]) < 65536)
            fl = [('kind', 0), ('offset', a[0]), ('dsz', a[1]), ('psz', a[2])]
        elif name == 'new_list':
            rng = And(zi(a[0]) >= -(1 << 29), zi(a[0]) < (1 << 29), zi(a[1]) >= 0, zi(a[1]) < 8, zi(a[2]) >= 0, zi(a[2]) < (1 << 29))
            fl = [('kind', 1), ('offset', a[0]), ('ltag', a[1]), ('lcnt', a[2])]
        else:
            rng = And(zi(a[0]) >= 0, zi(a[0]) < 2, zi(a[1]) >= 0, zi(a[1]) < (1 << 29), zi(a[2]) >= 0, zi(a[2]) < (1 << 32))
            fl = [('kind', 2), ('fland', a[0]), ('foff', a[1]), ('ftgt', a[2])]
        for k, v in fl: st.pc.append(zb2(Implies(rng, zi(P(k, r, st)) == zi(v))))
        return r
    raise Unsupported('ptr.' + name)
def zb2(x): return Z.BoolVal(x) if isinstance(x, bool) else x

# ------------------------------------------------------------------ helpers
def as_seq(ex, st, v):
    if isinstance(v, bytes): return seq_of(v)
    if isinstance(v, Seq): return v
    if isinstance(v, Ref) and v.cls in ('bytearray', 'newbytes'):
        s = st.stores[st.get(v, 'sid')]
        return Seq(s.len, s)
    return None
def new_sid(st, store):
    i = next(eng._n)
    st.stores[i] = store
    return i
def new_bytearray(st, store): return st.new('bytearray', sid=new_sid(st, store))

def parse_fmt(fmt):
    "-> list of (kind, offset), size"
    if isinstance(fmt, bytes): fmt = fmt.decode('latin-1')
    native = True
    if fmt[:1] in '<=': native, fmt = False, fmt[1:]
    elif fmt[:1] in '>!': raise Unsupported('big-endian format')
    out, off = [], 0
    for ch in fmt:
        k = {'l': 'q' if native else 'i', 'L': 'Q' if native else 'I'}.get(ch, ch)
        if k not in 'bBhHiIqQfd': return None, None
        n = SIZE_OF[k]
        if native: off = (off + n - 1) // n * n
        out.append((k, off))
        off += n
    return out, off

def pack_value(ex, st, k, v):
    "yields (state, value or Exc) converted as struct.pack does"
    if k in 'fd':
        if isint(v) and conc(v) is not None: v = float(conc(v))
        if isint(v) or isbool(v): v = ufn('int2float', INT, FV)(zi(v))
        if not isfloat(v):
            yield st, Exc('struct.error')
            return
        if k == 'f':
            ok = eng.float_bytes('f', v) is not None if isinstance(v, float) else True if v.eq(eng.FZERO) else ufn('fits_float', FV, BOOL)(v)
            if isinstance(ok, bool):
                if ok and isinstance(v, float): v = eng.struct.unpack('<f', eng.struct.pack('<f', v))[0]
                yield st, (v if ok else Exc('OverflowError'))
                return
            for s, b in ex.branch(st, ok): yield s, (v if b else Exc('OverflowError'))
        else: yield st, v
        return
    if isbool(v): v = simp(zi(v))
    if not isint(v):
        if isinstance(v, Opq): raise Unsupported('struct.pack of an opaque value')
        yield st, Exc('struct.error')
        return
    lo, hi = krange(k)
    for s, b in ex.branch(st, And(zi(v) >= lo, zi(v) <= hi)): yield s, (v if b else Exc('struct.error'))

def pack_all(ex, st, ks, vs):
    if not ks:
        yield st, []
        return
    for s, v in pack_value(ex, st, ks[0][0], vs[0]):
        if isinstance(v, Exc):
            yield s, v
            continue
        for s2, r in pack_all(ex, s, ks[1:], vs[1:]): yield s2, (r if isinstance(r, Exc) else [v] + r)

def struct_call(ex, name, st, args):
    fmt = args[0]
    if not isinstance(fmt, (bytes, str)): raise Unsupported('a format that is not constant: %r' % (fmt,))
    ks, size = parse_fmt(fmt)
    if ks is None:
        yield st, Exc('struct.error')
        return
    if name == 'calcsize':
        yield st, size
    elif name == 'pack':
        if len(args) - 1 != len(ks):
            yield st, Exc('struct.error')
            return
        for s, vs in pack_all(ex, st, ks, list(args[1:])):
            if isinstance(vs, Exc):
                yield s, vs
                continue
            b = Store(size)
            for (k, o), v in zip(ks, vs): b = b.write(o, o + SIZE_OF[k], ('enc', k, v))
            yield s, Seq(size, b)
    elif name in ('unpack_from', 'unpack'):
        buf = as_seq(ex, st, args[1])
        if buf is None:
            if args[1] is None:
                yield st, Exc('TypeError')
                return
            raise Unsupported('unpack from %r' % (args[1],))
        off = args[2] if len(args) > 2 else 0
        n = zi(buf.len)
        if name == 'unpack':
            for s, ok in ex.branch(st, n == size):
                yield s, (Tup([buf.store.dec(ex, s, k, o) for k, o in ks]) if ok else Exc('struct.error'))
            return
        for s, neg in ex.branch(st, zi(off) < 0):
            o = simp(zi(off) + n) if neg else off
            ok = And(zi(o) >= 0, zi(o) + size <= n)
            if neg: ok = And(ok, zi(off) + size <= 0)
            for s2, good in ex.branch(s, ok):
                if good: yield s2, Tup([buf.store.dec(ex, s2, k, simp(zi(o) + ko)) for k, ko in ks])
                else: yield s2, Exc('struct.error')
    elif name == 'pack_into':
        ba, off, vals = args[1], args[2], list(args[3:])
        if isinstance(ba, (Seq, bytes)) or ba is None:
            yield st, Exc('TypeError')
            return
        if not (isinstance(ba, Ref) and ba.cls == 'bytearray'): raise Unsupported('pack_into %r' % (ba,))
        if len(vals) != len(ks):
            yield st, Exc('struct.error')
            return
        if not isint(off): raise Unsupported('pack_into offset')
        sid = st.get(ba, 'sid')
        n = zi(st.stores[sid].len)
        for s, neg in ex.branch(st, zi(off) < 0):
            o = simp(zi(off) + n) if neg else off
            ok = And(zi(o) >= 0, zi(o) + size <= n)
            if neg: ok = And(ok, zi(off) + size <= 0)
            for s2, good in ex.branch(s, ok):
                if not good:
                    yield s2, Exc('struct.error')
                    continue
                for s3, vs in pack_all(ex, s2, ks, vals):
                    if isinstance(vs, Exc):
                        yield s3, vs
                        continue
                    b = s3.stores[sid]
                    for (k, ko), v in zip(ks, vs): b = b.write(simp(zi(o) + ko), simp(zi(o) + ko + SIZE_OF[k]), ('enc', k, v))
                    s3.stores[sid] = b
                    ex.touch(s3, sid, o, simp(zi(o) + size))
                    yield s3, None
    else: raise Unsupported('struct.' + name)

def _ba_get(ex, st, o, i):
    if not isint(i): raise Unsupported('index of a bytearray')
    for s, r in struct_call(ex, 'unpack_from', st, ['B', o, i]): yield s, (Exc('IndexError') if isinstance(r, Exc) else r.xs[0])
def _ba_set(ex, st, o, i, v):
    if not isint(i) or not isint(v): raise Unsupported('item assignment of a bytearray')
    for s, ok in ex.branch(st, And(zi(v) >= 0, zi(v) <= 255)):
        if not ok: yield s, ('raise', 'ValueError')         # (or IndexError)
        else:
            for s2, r in struct_call(ex, 'pack_into', s, ['B', o, i, v]): yield s2, (('raise', 'IndexError') if isinstance(r, Exc) else None)
INDEX['bytearray'], SETINDEX['bytearray'] = _ba_get, _ba_set
def region(ex, s, p, n, what):
    "obligation that n bytes at p are inside their allocation; returns the store"
    if not isinstance(p, Ptr): raise Unsupported('%s of %r' % (what, p))
    lim, stv = ex.limit(s, p)
    g = And(zi(n) >= 0, Or(zi(n) == 0, And(zi(p.off) >= 0, zi(p.off) + zi(n) <= zi(lim))))
    ex.ob('%s-in-bounds' % what, s, g, '%s of %s bytes at offset %s' % (what, n, p.off))
    s.pc.append(zb2(g))
    return stv

def c_call(ex, name, st, args, e):
    a = args
    if name in ('memcpy', 'memmove'):
        d, sp, n = a
        src = region(ex, st, sp, n, 'read')
        dst = region(ex, st, d, n, 'write')
        if isinstance(d.base, Seq): raise Unsupported('write into bytes')
        if not isinstance(sp.base, Seq) and sp.base == d.base:
            ex.ob('memcpy-no-overlap', st, Or(zi(n) == 0, zi(sp.off) + zi(n) <= zi(d.off), zi(d.off) + zi(n) <= zi(sp.off)))
        hi = simp(zi(d.off) + zi(n))
        st.stores[d.base] = dst.write(d.off, hi, ('copy', src, simp(zi(sp.off) - zi(d.off))))
        ex.touch(st, d.base, d.off, hi)
        yield st, d
    elif name == 'memset':
        d, v, n = a
        if conc(v) != 0: raise Unsupported('memset to a value')
        dst = region(ex, st, d, n, 'write')
        hi = simp(zi(d.off) + zi(n))
        st.stores[d.base] = dst.write(d.off, hi, ('zero',))
        ex.touch(st, d.base, d.off, hi)
        yield st, d
    elif name in ('_PyString_AS_STRING', 'PyByteArray_AS_STRING', 'PyBytes_AS_STRING'):
        v = a[0]
        if isinstance(v, bytes): v = seq_of(v)
        if isinstance(v, Seq): yield st, Ptr(v, 0)
        elif isinstance(v, Ref): yield st, Ptr(st.get(v, 'sid'), 0)
        else:
            ex.ob('no-null-object', st, False, '%s of %r' % (name, v))
    elif name in ('_PyString_GET_SIZE', 'PyByteArray_GET_SIZE', 'PyBytes_GET_SIZE'):
        v = as_seq(ex, st, a[0])
        if v is None: ex.ob('no-null-object', st, False, '%s of %r' % (name, a[0]))
        else: yield st, v.len
    elif name == '_PyString_CheckExact': yield st, isinstance(a[0], (bytes, Seq)) or isinstance(a[0], Ref) and a[0].cls == 'newbytes'
    elif name == 'PyByteArray_CheckExact': yield st, isinstance(a[0], Ref) and a[0].cls == 'bytearray'
    elif name in ('_PyString_FromStringAndSize', 'PyBytes_FromStringAndSize'):
        src, n = a
        for s, ok in ex.branch(st, zi(n) >= 0):
            if not ok: yield s, Exc('SystemError')
            elif src is NULL or src is None:
                k = 'uninit_%d' % next(eng._n)
                yield s, s.new('newbytes', sid=new_sid(s, Store(n, k)))
            else:
                b = region(ex, s, src, n, 'read')
                yield s, Seq(n, Store(n, None, ((0, n, ('copy', b, src.off)),)))
    elif name == 'PyByteArray_Resize':
        ba, n = a
        old = st.get(ba, 'sid')
        os_ = st.stores[old]
        k = 'uninit_%d' % next(eng._n)
        lo = Ite(zi(n) < zi(os_.len), n, os_.len)
        ns = Store(n, k, ((0, lo, ('copy', os_, 0)),))
        ex.ob('resize-nonnegative', st, zi(n) >= 0)
        sid = new_sid(st, ns)
        st.stores[old] = Store(os_.len, os_.base, os_.ents, live=False)
        st.heap[ba.id] = dict(st.heap[ba.id], sid=sid)
        for f in st.facts:
            if f.sid == old: f.moved = True
        st.facts = [f.move(sid) if f.sid == old else f for f in st.facts]
        yield st, 0
    elif name in ('CHECK_BOUNDS', 'check_bounds'):
        # contract of the macro of _copy_pointer.h (discharged by its own task)
        src, size, off = a
        n = zi(as_seq(ex, st, st.get(src, 'buf')).len)
        ex.crange(st, simp(n - zi(size)), eng.LONG, 'CHECK_BOUNDS')
        for s, bad in ex.branch(st, Or(zi(off) < 0, zi(off) > n - zi(size))): yield s, (Exc('IndexError') if bad else None)
    else:
        h = CALLS.get('c.' + name)
        if h is None: raise Unsupported('C function %s' % name)
        for y in h(ex, st, args, {}): yield y

def isinst(ex, st, v, c):
    if isinstance(c, Tup): return Or(*[isinst(ex, st, v, x) for x in c.xs])
    n = c.name if isinstance(c, (ClsV, Builtin)) else None
    n = {'binary_type': 'bytes', 'text_type': 'str'}.get(n, n)
    if isinstance(c, Opq): n = str(c.t)
    if n is None: raise Unsupported('isinstance with %r' % (c,))
    if v is None: return n in ('NoneType', 'object')
    if isinstance(v, Ref):
        if 'isinst:' + n in st.heap[v.id]: return st.heap[v.id]['isinst:' + n]
        return v.cls == n or ex.w.isa(v.cls, n)
    if isinstance(v, (bytes, Seq)): return n == 'bytes'
    if isinstance(v, str): return n in ('str', 'unicode')
    if isbool(v): return n in ('int', 'bool')
    if isint(v): return n in ('int', 'long', 'Integral')
    if isfloat(v): return n == 'float'
    if isinstance(v, (Tup, SymTup)): return n in ('tuple', 'list')
    if isinstance(v, Opq):
        if v.cls == n or (v.cls, 'isinst:' + n) in OATTR: return True
        if v.cls is not None and ex.w.isa(v.cls, n): return True
        if v.cls is None: return ufn('isinst_' + n, OV, BOOL)(v.t)
        return False
    if isinstance(v, ClsV): return n == 'type'
    raise Unsupported('isinstance of %r' % (v,))

def _dget(ex, s, o, i):
    if not isinstance(i, (str, bytes)): raise Unsupported('dict key')
    d = s.heap[o.id]['items']
    yield s, (d[i] if i in d else Exc('KeyError'))
def _dset(ex, s, o, i, v):
    if not isinstance(i, (str, bytes)): raise Unsupported('dict key')
    s.heap[o.id] = dict(items=dict(list(s.heap[o.id]['items'].items()) + [(i, v)]))
INDEX['dict'], SETINDEX['dict'] = _dget, _dset
def call(ex, b, st, args, kw, e=None):
    n = b.name
    if n.startswith('super.'): return b.self_[2](ex, st, b.self_[0], b.self_[1], args, kw)
    if 'text' in ex.local and (not kw or hasattr(ex.local['text'], 'kwcall')):
        r = ex.local['text'].kwcall(ex, st, n, b.self_, list(args), kw) if kw else ex.local['text'].call(ex, st, n, b.self_, list(args))
        if r is not None: return r
    h = CALLS.get(n)
    if h is not None: return h(ex, st, ([b.self_] if b.self_ is not None else []) + list(args), kw)
    if n.startswith('capnpy.ptr.'): return ptr_gen(ex, n[11:], st, args)
    if n.startswith('struct.'): return struct_call(ex, n[7:], st, args)
    if n.startswith('c.'): return c_call(ex, n[2:], st, args, e)
    return builtin_call(ex, n, b, st, args, kw, e)
def ptr_gen(ex, name, st, args):
    if any(not (isint(x) or isbool(x)) for x in args):
        yield st, Exc('TypeError')
        return
    if name == 'list_item_length':
        t = args[0]
        tab = (0, -1, 1, 2, 4, 8, 8, -1)
        for s, ok in ex.branch(st, And(zi(t) >= 0, zi(t) < 8)):
            if not ok:
                ex.ob('size-tag-in-range', s, False)
                continue
            c = conc(t)
            if c is not None:
                yield s, tab[c]
                continue
            r = Z.IntVal(-1)
            for i in range(7): r = Z.If(zi(t) == i, tab[i], r)
            yield s, r
        return
    yield st, ptr_call(ex, name, st, args)

def builtin_call(ex, n, b, st, args, kw, e):
    if n.split('.')[-1] in ('mychr', 'int2byte') or n == 'chr':
        c = conc(args[0])
        if c is None: raise Unsupported('mychr of a variable')
        if n.endswith('int2byte') or n == 'capnpy.segment.base.mychr': yield st, bytes([c])
        else: yield st, chr(c)
    elif n == 'ord':
        v = args[0]
        if isinstance(v, (str, bytes)) and len(v) == 1: yield st, ord(v)
        elif isinstance(v, Seq) and conc(v.len) == 1: yield st, v.store.dec(ex, st, 'B', 0)
        else: raise Unsupported('ord of %r' % (v,))
    elif n == 'len':
        v = args[0]
        q = as_seq(ex, st, v)
        if q is not None: yield st, q.len
        elif isinstance(v, Tup): yield st, len(v.xs)
        elif isinstance(v, SymTup): yield st, v.n
        elif isinstance(v, str): yield st, len(v)
        elif isinstance(v, Ref) and v.cls == 'list': yield st, st.get(v, 'L').n
        elif isinstance(v, Ref) and (v.cls, '__len__') in ATTR:
            for y in ATTR[v.cls, '__len__'](ex, st, v): yield y
        elif isinstance(v, Ref):
            c, f = ex.w.method(v.cls, '__len__')
            if f is None: raise Unsupported('len of %s' % v.cls)
            for y in ex.call_func(f, st, [v], {}): yield y
        elif v is None or isint(v): yield st, Exc('TypeError')
        elif isinstance(v, Opq) and (v.cls, '__len__') in OATTR:
            for y in OATTR[v.cls, '__len__'](ex, st, v): yield y
        else: raise Unsupported('len of %r' % (v,))
    elif n in ('max', 'min'):
        if len(args) == 1 and isinstance(args[0], Tup): args = list(args[0].xs)
        if not all(isint(x) or isbool(x) for x in args): raise Unsupported('max of objects')
        r = args[0]
        for x in args[1:]:
            r = simp(Ite((zi(x) > zi(r)) if n == 'max' else (zi(x) < zi(r)), x, r))
        yield st, r
    elif n == 'noop': yield st, None
    elif n.startswith('class.') and n.endswith('.__new__'):
        c = args[0]
        if not (isinstance(c, ClsV) and c.cls is not None): raise Unsupported('__new__ of %r' % (c,))
        yield st, alloc_obj(ex, st, c.name, c.cls)
    elif n == 'super':
        if len(args) == 2 and isinstance(args[0], ClsV) and args[0].cls is not None: yield st, SuperV(args[0].cls, args[1])
        elif not args and ex.current is not None and ex.current.cls is not None:
            yield st, SuperV(ex.w.find_class(ex.current.cls, ex.current.mod) if isinstance(ex.current.cls, str) else ex.current.cls, st.env[ex.current.params[0][0]])
        else: raise Unsupported('super')
    elif n == 'sum':
        v = args[0]
        if isinstance(v, Ref) and v.cls == 'list' and st.get(v, 'L').sum is not None and len(args) == 1: yield st, st.get(v, 'L').sum
        else: raise Unsupported('sum')
    elif n == 'bool': yield st, ex.truth(args[0], st) if args else False
    elif n == 'abs': yield st, simp(Ite(zi(args[0]) < 0, -zi(args[0]), args[0]))
    elif n == 'divmod':
        for s, q in ex.binop('//', args[0], args[1], st, None):
            if isinstance(q, Exc):
                yield s, q
                continue
            for s2, r in ex.binop('%', args[0], args[1], s, None): yield s2, Tup([q, r])
    elif n == 'getattr' and len(args) in (2, 3) and isinstance(args[1], str) and isinstance(args[0], Ref):
        o, a = args[:2]
        if a in st.heap[o.id] or ex.w.method(o.cls, a)[1] is not None or ex.w.class_attr(o.cls, a)[1] is not None or len(args) == 2:
            for y in ex.getattr_(st, o, a): yield y
        else: yield st, args[2]
    elif n == 'getattr' and len(args) == 2 and isinstance(args[1], str) and isinstance(args[0], Opq):
        for y in ex.getattr_(st, args[0], args[1]): yield y
    elif n in ('hasattr', 'issubclass') and len(args) == 2 and isinstance(args[0], Opq) and (args[0].cls, n) in OATTR:
        for y in OATTR[args[0].cls, n](ex, st, args[0], args[1]): yield y
    elif n == 'isinstance':
        yield st, simp(isinst(ex, st, args[0], args[1]))
    elif n in ('range', 'xrange'):
        if len(args) == 1: lo, hi, step = 0, args[0], 1
        elif len(args) == 2: lo, hi, step = args[0], args[1], 1
        elif len(args) == 3: lo, hi, step = args
        if conc(step) == 1: ln = simp(Z.If(zi(hi) > zi(lo), zi(hi) - zi(lo), 0))
        else:
            ln = ufn('RANGELEN', INT, INT, INT, INT)(zi(lo), zi(hi), zi(step))
            st.pc.append(ln >= 0)
        def item(s, i):
            x = simp(zi(lo) + zi(i) * zi(step))
            for a, b, c, m in s.ghost.get('indices', ()):
                if c is step: s.pc.append(Implies(And(zi(i) >= 0, zi(i) < zi(ln)), And(zi(x) >= 0, zi(x) < zi(m))))
            return x
        yield st, SymTup(ln, item)
    elif n == 'type':
        v = args[0]
        if isinstance(v, Ref): yield st, ClsV(v.cls, ex.w.find_class(v.cls))
        elif v is None: yield st, ClsV('NoneType')
        elif isinstance(v, (bytes, Seq)): yield st, ClsV('bytes')
        elif isinstance(v, str): yield st, ClsV('str')
        elif isbool(v): yield st, ClsV('bool')
        elif isint(v): yield st, ClsV('int')
        else: raise Unsupported('type of %r' % (v,))
    elif n in ('bytes', 'bytearray', 'str', 'int', 'float', 'tuple', 'list', 'object'):
        for y in construct(ex, ClsV(n), st, args, kw): yield y
    elif n in ('repr',): yield st, '<repr>'
    elif n == 'id': yield st, fresh('id')
    elif n == 'set' and len(args) == 1 and isinstance(args[0], Tup) and len(args[0].xs) <= 1: yield st, args[0]
    elif n == 'abs' and len(args) == 1 and isint(args[0]): yield st, simp(Ite(zi(args[0]) < 0, -zi(args[0]), zi(args[0])))
    elif n == 'enumerate' and len(args) == 1 and isinstance(args[0], Tup) and not kw: yield st, Tup([Tup([i, x]) for i, x in enumerate(args[0].xs)])
    elif n == 'enumerate' and len(args) == 1 and isinstance(args[0], Ref) and args[0].cls == 'list' and conc(st.get(args[0], 'L').n) is not None and conc(st.get(args[0], 'L').n) <= 8 and not kw:
        yield st, Tup([Tup([i, st.get(args[0], 'L').item(st, i)]) for i in range(conc(st.get(args[0], 'L').n))])
    elif n.startswith('method.bytes.') or n.startswith('method.str.') or n.startswith('method.'):
        for y in method_call(ex, n, b, st, args, kw): yield y
    else:
        raise Unsupported('call of %s' % n)

def base_of(ex, st, store, frm=0):
    "(base name, delta) when the store is a contiguous piece of a named base, through covering copies"
    d = 0
    for _ in range(20):
        if not store.ents: return (store.base, d) if store.base is not None else (None, None)
        lo, hi, c = store.ents[0]
        if c[0] != 'copy' or not ex.known(st, And(zi(lo) <= zi(frm), zi(hi) >= zi(store.len))): return None, None
        d = simp(zi(d) + zi(c[2]))
        frm = simp(zi(frm) + zi(c[2]))
        store = c[1]
    return None, None
def no_newline(st, name, lo, hi):
    st.ghost = dict(st.ghost, nn=st.ghost.get('nn', ()) + ((name, lo, hi),))
def nn_at(st, name, t):
    "the recorded 'no newline in [lo, hi)' facts at index t"
    return And(*[Implies(And(zi(lo) <= zi(t), zi(t) < zi(hi)), ufn('at_' + name, INT, INT)(zi(t)) != 10) for nm, lo, hi in st.ghost.get('nn', ()) if nm == name])
def utf8(st, nm, a, n):
    "(is valid, decoded) of n bytes at a of the named buffer"
    k = (Z.StringVal(nm), zi(a), zi(n))
    ok, val = ufn('UTF8_OK', Z.StringSort(), INT, INT, BOOL)(*k), ufn('UTF8', Z.StringSort(), INT, INT, OV)(*k)
    e = Z.Const('UTF8_EMPTY', OV)
    st.pc.append(Implies(zi(n) == 0, And(ok, val == e)) if conc(n) != 0 else And(ok, val == e))
    return ok, val
PURE = ('strip', 'lstrip', 'rstrip', 'split', 'rsplit', 'partition', 'rpartition', 'startswith', 'endswith', 'lower', 'upper')      # of strings that are known
def method_call(ex, n, b, st, args, kw):
    o = b.self_
    if n.startswith(('method.bytes.', 'method.str.')) and n.split('.')[2] in PURE and type(o) in (bytes, str) and not kw and all(type(x) in (bytes, str, int) for x in args):
        try: r = getattr(o, n.split('.')[2])(*args)
        except (TypeError, ValueError) as e: r = Exc(type(e).__name__)
        yield st, (Tup(list(r)) if type(r) in (list, tuple) else r)
        return
    if n == 'method.slice.indices' and len(args) == 1:
        a, z, c = fresh('start'), fresh('stop'), fresh('step')
        m = args[0]
        st.pc.append(And(c != 0, c >= I64[0], c <= I64[1], a >= -1, a <= zi(m), z >= -1, z <= zi(m)))
        # range(*slice.indices(m)) only selects positions of a sequence of length m (Python)
        st.ghost = dict(st.ghost, indices=st.ghost.get('indices', ()) + ((a, z, c, m),))
        yield st, Tup([a, z, c])
        return
    if n == 'method.list.append':
        L = st.get(o, 'L')
        st.heap[o.id] = dict(st.heap[o.id], L=L.append(ex, st, args[0]))
        yield st, None
        return
    if n == 'method.bytes.join' and o == b'' and len(args) == 1:
        v = args[0]
        if isinstance(v, Ref) and v.cls == 'list' and st.get(v, 'L').cat is not None:
            yield st, st.get(v, 'L').cat
            return
        if isinstance(v, Tup):
            r = b''
            for x in v.xs:
                if not isinstance(x, (Seq, bytes)): raise Unsupported('join')
                r = x if r == b'' and isinstance(r, bytes) else ex.concat(r, x)
            yield st, r
            return
    if n in ('method.str.encode', 'method.bytes.decode') and args and isinstance(args[0], str) and args[0].lower() not in ('utf-8', 'utf8'):
        # another codec: some other value
        yield st.fork(), Exc('UnicodeError')
        if n.endswith('decode'): yield st, Opq(eng.fresho('decoded'), 'str')
        else:
            k = fresh('len')
            st.pc.append(k >= 0)
            yield st, Seq(k, Store(k, 'encoded_%d' % next(eng._n)))
        return
    if n == 'method.str.encode' and args in (['utf-8'], ('utf-8',)) and hasattr(o, 'utf8'):
        yield st.fork(), Exc('UnicodeEncodeError')
        yield st, o.utf8
        return
    if n == 'method.bytes.decode' and args in (['utf-8'], ('utf-8',)):
        q = as_seq(ex, st, o)
        if conc(q.len) == 0:
            yield st, Opq(utf8(st, '', 0, 0)[1], 'str')
            return
        nm, d = base_of(ex, st, q.store)
        if nm is None: raise Unsupported('decode of a composed string')
        ok, val = utf8(st, nm, d, q.len)
        for s, y in ex.branch(st, ok): yield s, (Opq(val, 'str') if y else Exc('UnicodeDecodeError'))
        return
    if n == 'method.bytes.find' and args and args[0] == b'\n' and len(args) <= 2:
        q = as_seq(ex, st, o)
        i = args[1] if len(args) > 1 else 0
        nm, d = base_of(ex, st, q.store, i if ex.known(st, zi(i) >= 0) else 0)
        if nm is None: raise Unsupported('find in an unknown string')
        for s, neg in ex.branch(st, zi(i) < 0):
            if neg: i = simp(Ite(zi(i) + zi(q.len) < 0, 0, zi(i) + zi(q.len)))
            r = fresh('find')
            at = ufn('at_' + nm, INT, INT)
            for s2, found in ex.branch(s, freshb('found')):
                if found:
                    s2.pc.append(And(zi(i) <= r, r < zi(q.len), at(r + zi(d)) == 10))
                    if not ex.feasible(s2): continue
                    no_newline(s2, nm, simp(zi(i) + zi(d)), simp(r + zi(d)))
                    yield s2, r
                else:
                    no_newline(s2, nm, simp(zi(i) + zi(d)), simp(zi(q.len) + zi(d)))
                    yield s2, -1
        return
    raise Unsupported('call of %s' % n)

def construct(ex, c, st, args, kw):
    n = c.name
    h = CONSTRUCT.get(n)
    if h is not None:
        for y in h(ex, st, c, args, kw): yield y
        return
    if n in ('bytes', 'binary_type'):
        if len(args) == 1:
            q = as_seq(ex, st, args[0])
            if q is not None:
                yield st, q
                return
            if isint(args[0]):
                for s, ok in ex.branch(st, zi(args[0]) >= 0):
                    yield s, (Seq(args[0], Store(args[0])) if ok else Exc('ValueError'))
                return
        elif not args:
            yield st, b''
            return
        raise Unsupported('bytes(%r)' % (args,))
    if n == 'bytearray':
        if not args:
            yield st, new_bytearray(st, Store(0))
            return
        if isint(args[0]):
            for s, ok in ex.branch(st, zi(args[0]) >= 0):
                yield s, (new_bytearray(s, Store(args[0])) if ok else Exc('ValueError'))
            return
        q = as_seq(ex, st, args[0])
        if q is not None:
            yield st, new_bytearray(st, q.store)
            return
        raise Unsupported('bytearray')
    if n in ('tuple', 'list'):
        if not args: yield st, Tup([])
        elif isinstance(args[0], (Tup, SymTup)): yield st, args[0]
        elif isinstance(args[0], Ref) and args[0].cls == 'list': yield st, SymTup(st.get(args[0], 'L').n, st.get(args[0], 'L').item)
        else: raise Unsupported('tuple()')
        return
    if n == 'int' and len(args) == 1 and (isint(args[0]) or isbool(args[0])):
        yield st, simp(zi(args[0]))
        return
    if n == 'int' and len(args) == 1 and eng.is_intlike(args[0]):
        yield st, simp(eng.int_of(args[0]))
        return
    if n in eng.EXC_BASES:
        yield st, Opq(fresho('exc'), n)
        return
    if c.cls is not None and len(args) == 1 and ex.w.isa(n, 'BaseEnum'):
        if not isint(args[0]): raise Unsupported('enum of %r' % (args[0],))
        yield st, Opq(ufn('ENUM_' + n, INT, OV)(zi(args[0])), 'enum')
        return
    if c.cls is not None:
        # an ordinary class: allocate, run __cinit__ / __init__
        ms = []
        for m in ('__cinit__', '__init__'):
            k, f = ex.w.method(n, m)
            if f is not None: ms.append(f)
        o = alloc_obj(ex, st, n, c.cls)
        def rec(s, ms):
            if not ms:
                yield s, o
                return
            for s2, r in ex.call_func(ms[0], s, [o] + list(args), kw):
                if isinstance(r, Exc): yield s2, r
                else:
                    for y in rec(s2, ms[1:]): yield y
        for y in rec(st, ms): yield y
        return
    raise Unsupported('construction of %s' % n)

def alloc_obj(ex, st, n, cls):
    "C attributes start at zero / None"
    o = st.new(n)
    k, seen = cls, 0
    while k is not None and seen < 10:
        for a, ct in k.ctypes.items():
            if a in k.methods or a in k.props: continue
            if a not in st.heap[o.id]: st.heap[o.id][a] = None if ct is None else (0 if ct.kind in ('int', 'bool') else NULL)
        k, seen = ex.w.base_of(k), seen + 1
    return o
def slice_assign(ex, st, vs, t, v):
    "bytearray slice assignment ba[lo:hi] = v"
    o, rest = vs[0], list(vs[1:])
    lo = rest.pop(0) if t.a[1] is not None else 0
    hi = rest.pop(0) if t.a[2] is not None else None
    if not (isinstance(o, Ref) and o.cls == 'bytearray'): raise Unsupported('slice assignment to %r' % (o,))
    q = as_seq(ex, st, v)
    if q is None:
        if isinstance(v, str) or v is None or isint(v):
            yield st, ('raise', 'TypeError')
            return
        raise Unsupported('slice assignment of %r' % (v,))
    sid = st.get(o, 'sid')
    n = zi(st.stores[sid].len)
    def norm(s, x):
        for s2, neg in ex.branch(s, zi(x) < 0):
            if neg:
                for s3, under in ex.branch(s2, zi(x) + n < 0): yield s3, (0 if under else simp(zi(x) + n))
            else:
                for s3, over in ex.branch(s2, zi(x) > n): yield s3, (simp(n) if over else x)
    for s1, a in norm(st, lo):
        for s2, b in (norm(s1, hi) if hi is not None else [(s1, simp(n))]):
            for s3, empty in ex.branch(s2, zi(b) <= zi(a)):
                bb = a if empty else b
                width = simp(zi(bb) - zi(a))
                for s4, same in ex.branch(s3, zi(width) == zi(q.len)):
                    b0 = s4.stores[sid]
                    if same:
                        end = simp(zi(a) + zi(q.len))
                        s4.stores[sid] = b0.write(a, end, ('copy', q.store, simp(-zi(a))))
                        ex.touch(s4, sid, a, end)
                    else:
                        # the tail moves: new contents in one piece
                        nl = simp(n - zi(width) + zi(q.len))
                        end = simp(zi(a) + zi(q.len))
                        s4.stores[sid] = Store(nl, None, ((a, end, ('copy', q.store, simp(-zi(a)))), (end, nl, ('copy', b0, simp(zi(bb) - zi(end)))), (0, a, ('copy', b0, 0))))
                        ex.touch(s4, sid, 0, simp(Ite(nl > n, nl, n)))
                    yield s4, None

def bytearray_extend(ex, st, ba, v):
    "ba += v: the statement outcome"
    sid = st.get(ba, 'sid')
    q = as_seq(ex, st, v)
    if q is None:
        if isinstance(v, ZerosV):
            b0 = st.stores[sid]
            st.stores[sid] = Store(simp(zi(b0.len) + zi(v.n)), b0.base, ((b0.len, simp(zi(b0.len) + zi(v.n)), ('zero',)),) + b0.ents)
            yield st, None
            return
        yield st, ('raise', 'TypeError')
        return
    b0 = st.stores[sid]
    n = simp(zi(b0.len) + zi(q.len))
    c = ('zero',) if q.store.base is None and not q.store.ents else ('copy', q.store, simp(-zi(b0.len)))
    st.stores[sid] = Store(n, b0.base, ((b0.len, n, c),) + b0.ents)
    ex.touch(st, sid, b0.len, n)
    yield st, None
class ZerosV(object): pass

def _list_index(ex, s, o, i):
    L = s.get(o, 'L')
    return ex.index(s, SymTup(L.n, L.item), i)
INDEX['list'] = _list_index
def _list_iter(ex, s, o):
    L = s.get(o, 'L')
    yield s, (L.n, L.item)
ITER['list'] = _list_iter

# ------------------------------------------------------------------ capnpy.type.Types: the table is read by running capnpy/type.py itself
_types = {}
def types_table(root):
    if root not in _types:
        import runpy, os
        g = runpy.run_path(os.path.join(root, 'capnpy', 'type.py'))
        T = g['Types']
        _types[root] = dict((n, (getattr(T, n).name, getattr(T, n).fmt, getattr(T, n).ifmt, getattr(T, n).calcsize() if getattr(T, n).fmt else None)) for n in [x if isinstance(x, str) else x.name for x in T.__all__])
    return _types[root]
def types_attr(ex, s, n):
    t = types_table(ex.w.root)
    if n not in t: raise Unsupported('Types.%s' % n)
    return Opq(Z.Const('Types.' + n, OV), 'BuiltinType')
def _bt(i):
    def h(ex, s, o):
        n = str(o.t)
        if not n.startswith('Types.'): raise Unsupported('attribute of a type')
        yield s, types_table(ex.w.root)[n[6:]][i]
    return h
def late_types():
    def cs(ex, st, args, kw):
        n = types_table(ex.w.root)[str(args[0].t)[6:]][3]
        yield st, Exc('TypeError') if n is None else n
    CALLS['BuiltinType.calcsize'] = cs
    OATTR['BuiltinType', 'calcsize'] = lambda ex, s, o: iter([(s, Builtin('BuiltinType.calcsize', o))])
    OATTR['BuiltinType', 'name'], OATTR['BuiltinType', 'fmt'], OATTR['BuiltinType', 'ifmt'] = _bt(0), _bt(1), _bt(2)
