"""Symbolic execution of the intermediate form and generation of obligations (integers are mathematical; every C operation and
conversion carries an obligation that it does not overflow or truncate)."""
import struct, z3, os, time, itertools
from ir import *

Z = z3
TIMEOUT = 4000      # ms per query (raised in the thorough tier)

class Budget(Exception): pass

# ---------------------------------------------------------------------------------------------------------- values
class Exc(object):
    def __init__(self, cls): self.cls = cls
    def __repr__(self): return 'Exc(%s)' % self.cls
class Ref(object):
    def __init__(self, cls, id): self.cls, self.id = cls, id
    def __repr__(self): return '<%s #%s>' % (self.cls, self.id)
class Tup(object):
    def __init__(self, xs): self.xs = tuple(xs)
    def __repr__(self): return 'Tup%r' % (self.xs,)
class SymTup(object):
    "a tuple/list of symbolic length; item(i) gives the i-th value"
    def __init__(self, n, item): self.n, self.item = n, item
class Lst(object):
    "contents of a mutable list: length, item(s, i), and what appends accumulate: the concatenation (items are bytes) and the sum (items are integers)"
    def __init__(self, n, item, cat=None, sum=None): self.n, self.item, self.cat, self.sum = n, item, cat, sum
    def append(self, ex, s, v):
        n0, it0 = self.n, self.item
        def item(s, i):
            if conc(i) is not None and conc(n0) is not None: return v if conc(i) == conc(n0) else it0(s, i)
            if isint(v) or isbool(v): return simp(Z.If(zi(i) == zi(n0), zi(v), zi(it0(s, i)))) if conc(n0) != 0 else v
            if ex.known(s, zi(i) == zi(n0)): return v
            if ex.known(s, zi(i) < zi(n0)): return it0(s, i)
            raise Unsupported('element of a list')
        cat = sm = None
        if isinstance(v, (Seq, bytes)) and self.cat is not None: cat = ex.concat(self.cat, v) if conc(n0) != 0 else (seq_of(v) if isinstance(v, bytes) else v)
        if isint(v) and self.sum is not None: sm = simp(zi(self.sum) + zi(v))
        return Lst(simp(zi(n0) + 1), item, cat, sm)
def empty_list():
    def item(s, i): raise Unsupported('element of an empty list')
    return Lst(0, item, Seq(0, Store(0)), 0)
class Mod(object):
    def __init__(self, name): self.name = name
class FnV(object):
    def __init__(self, func, self_=None): self.func, self.self_ = func, self_
class SuperV(object):
    def __init__(self, cls, self_): self.cls, self.self_ = cls, self_
class Builtin(object):
    def __init__(self, name, self_=None): self.name, self.self_ = name, self_
    def __repr__(self): return '<builtin %s>' % self.name
class ClsV(object):
    def __init__(self, name, cls=None): self.name, self.cls = name, cls
class Opq(object):
    "opaque value: equal to another one iff the same term"
    def __init__(self, t, cls=None): self.t, self.cls = t, cls
    def __repr__(self): return 'Opq(%s)' % self.t
class Ptr(object):
    "C pointer into a byte region: base is a Seq (immutable bytes) or an allocation id in st.stores"
    def __init__(self, base, off): self.base, self.off = base, off
    def __repr__(self): return 'Ptr(%s,%s)' % (self.base, self.off)
class Box(object):
    "a local variable whose address is taken: the value is in heap[id]['v']"
    def __init__(self, id): self.id = id
class Addr(object):
    def __init__(self, box): self.box = box
NULL = object()
LEFT_OUT = object()
FV = Z.DeclareSort('FloatVal')
OV = Z.DeclareSort('Obj')
FZERO = Z.Const('fzero', FV)

def isint(v): return (isinstance(v, int) and not isinstance(v, bool)) or (isinstance(v, Z.ArithRef) and v.is_int())
def isbool(v): return isinstance(v, bool) or isinstance(v, Z.BoolRef)
def isfloat(v): return isinstance(v, float) or (isinstance(v, Z.ExprRef) and v.sort() == FV)
def zi(v):
    if isinstance(v, bool): return Z.IntVal(int(v))
    if isinstance(v, int): return Z.IntVal(v)
    if isinstance(v, Z.BoolRef): return Z.If(v, Z.IntVal(1), Z.IntVal(0))
    return v
def zb(v):
    if isinstance(v, bool): return Z.BoolVal(v)
    return v
def conc(v):
    "concrete int or None"
    if isinstance(v, bool): return int(v)
    if isinstance(v, int): return v
    if isinstance(v, Z.ArithRef):
        s = Z.simplify(v)
        if Z.is_int_value(s): return s.as_long()
    return None
def simp(v):
    if isinstance(v, Z.ArithRef):
        s = Z.simplify(v)
        if Z.is_int_value(s): return s.as_long()
        return v
    if isinstance(v, Z.BoolRef):
        s = Z.simplify(v)
        if Z.is_true(s): return True
        if Z.is_false(s): return False
        return v
    return v
def And(*xs):
    xs = [x for x in xs if x is not True]
    if any(x is False for x in xs): return False
    if not xs: return True
    return Z.And(*[zb(x) for x in xs])
def Or(*xs):
    xs = [x for x in xs if x is not False]
    if any(x is True for x in xs): return True
    if not xs: return False
    return Z.Or(*[zb(x) for x in xs])
def Not(x): return (not x) if isinstance(x, bool) else Z.Not(x)
def Implies(a, b): return Or(Not(a), b)
def Ite(c, a, b):
    if isinstance(c, bool): return a if c else b
    return Z.If(c, zi(a), zi(b))

_n = itertools.count()
def fresh(name='v'): return Z.Int('%s!%d' % (name, next(_n)))
def freshb(name='b'): return Z.Bool('%s!%d' % (name, next(_n)))
def freshf(name='f'): return Z.Const('%s!%d' % (name, next(_n)), FV)
def fresho(name='o'): return Z.Const('%s!%d' % (name, next(_n)), OV)

# ---------------------------------------------------------------------------------------------------------- byte stores
SIZE_OF = dict(b=1, B=1, h=2, H=2, i=4, I=4, q=8, Q=8, f=4, d=8, c=1)
def krange(k):
    n = SIZE_OF[k] * 8
    return (-(1 << (n - 1)), (1 << (n - 1)) - 1) if k.islower() else (0, (1 << n) - 1)

_fn = {}
def ufn(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    if k not in _fn: _fn[k] = Z.Function(name, *sorts)
    return _fn[k]
INT, BOOL = Z.IntSort(), Z.BoolSort()

def xor_const(x, c, s):
    "x ^ c for a constant c: an involution that stays within the range of any machine type that holds both"
    if c == 0: return simp(zi(x))
    if c == -1: return simp(-zi(x) - 1)
    f = ufn('bitxor', INT, INT, INT)
    x, y = zi(x), Z.IntVal(c)
    if Z.is_app(x) and x.decl().eq(f) and x.arg(1).eq(y): return simp(x.arg(0))
    v = f(x, y)
    if c > 0 and c & (c - 1) == 0: s.pc.append(v == Z.If((x / c) % 2 == 1, x - c, x + c))
    s.pc.append(f(v, y) == x)
    for w in (8, 16, 32, 64):
        for lo, hi in ((0, (1 << w) - 1), (-(1 << (w - 1)), (1 << (w - 1)) - 1)):
            if lo <= c <= hi: s.pc.append(Z.And(x >= lo, x <= hi) == Z.And(v >= lo, v <= hi))
    return v
def float_bytes(kind, v):
    try: return struct.pack('<' + kind, v)
    except OverflowError: return None
def tofv(v):
    "a Python float as a term"
    if not isinstance(v, float): return v
    b = struct.pack('<d', v)
    return FZERO if b == bytes(8) else Z.Const('float_' + b.hex(), FV)
def fbits(n, v, s):
    "the n-byte float v as an unsigned integer of its bits"
    if isinstance(v, float):
        b = float_bytes('f' if n == 4 else 'd', v)
        if b is not None: return int.from_bytes(b, 'little')
        v = tofv(v)
    elif v.eq(FZERO): return 0
    r = ufn('F%dBITS' % (8 * n), FV, INT)(v)
    s.pc.append(Z.And(r >= 0, r < 1 << (8 * n), ufn('F%dOF' % (8 * n), INT, FV)(r) == v))
    return r
def fof(n, u, s):
    "the float with these bits"
    r = ufn('F%dOF' % (8 * n), INT, FV)(zi(u))
    s.pc.append(ufn('F%dBITS' % (8 * n), FV, INT)(r) == zi(u))
    return r
def encb(kind, v, i):
    "byte i of the encoding of v (two's complement, little endian)"
    n = SIZE_OF[kind]
    if kind in 'fd':
        b = float_bytes(kind, v) if isinstance(v, float) else None
        if b is not None:
            r = Z.IntVal(b[-1])
            for k in range(n - 1): r = Z.If(zi(i) == k, b[k], r)
            return Z.simplify(r)
        r = ufn('enc_' + kind, FV, INT, INT)(tofv(v), zi(i))
        return Z.If(tofv(v) == FZERO, 0, r)
    if n == 1: return Z.If(zi(v) < 0, zi(v) + 256, zi(v))
    c = conc(v)
    if c == 0: return Z.IntVal(0)
    if c is not None: return ufn('enc%d' % n, INT, INT, INT)(Z.IntVal(c % (1 << (8 * n))), zi(i))
    return Z.If(zi(v) == 0, 0, ufn('enc%d' % n, INT, INT, INT)(Z.If(zi(v) < 0, zi(v) + (1 << (8 * n)), zi(v)), zi(i)))

class Store(object):
    """bytes [0, len): a base (named uninterpreted content, or zeros) under a list of later writes, newest first.
    content: ('enc', kind, v) ('zero',) ('copy', Store, delta)"""
    def __init__(self, ln, base=None, ents=(), live=True):
        self.len, self.base, self.ents, self.live = ln, base, tuple(ents), live
    def write(self, lo, hi, content, ln=None):
        return Store(self.len if ln is None else ln, self.base, ((lo, hi, content),) + self.ents, self.live)
    def with_len(self, ln): return Store(ln, self.base, self.ents, self.live)
    def basebyte(self, j):
        if self.base is None: return Z.IntVal(0)
        return ufn('at_' + self.base, INT, INT)(zi(j))
    def at(self, j):
        r = self.basebyte(j)
        for lo, hi, c in reversed(self.ents):
            if c[0] == 'enc': v = encb(c[1], c[2], zi(j) - zi(lo))
            elif c[0] == 'zero': v = Z.IntVal(0)
            else: v = c[1].at(zi(j) + zi(c[2]))
            r = Z.If(Z.And(zi(lo) <= zi(j), zi(j) < zi(hi)), v, r)
        return r
    def dec(self, ex, st, kind, off):
        n = SIZE_OF[kind]
        for ent, (lo, hi, c) in enumerate(self.ents):
            if ex.known(st, Or(zi(off) + n <= zi(lo), zi(off) >= zi(hi))): continue
            if c[0] == 'enc' and SIZE_OF[c[1]] == n and (c[1] in 'fd') == (kind in 'fd') and ex.known(st, And(zi(off) == zi(lo), zi(hi) == zi(lo) + n)):
                if kind in 'fd' or c[1] == kind: return c[2]
                a, b = krange(kind)
                v = zi(c[2])
                return Z.If(v > b, v - (1 << 8 * n), Z.If(v < a, v + (1 << 8 * n), v))
            if c[0] == 'enc' and n >= 4 and SIZE_OF[c[1]] == n and (c[1] in 'fd') != (kind in 'fd') and ex.known(st, And(zi(off) == zi(lo), zi(hi) == zi(lo) + n)):
                if kind in 'fd':
                    v = zi(c[2])
                    return fof(n, v if c[1].isupper() else simp(Z.If(v < 0, v + (1 << 8 * n), v)), st)
                v = fbits(n, c[2], st)
                return v if kind.isupper() else Z.If(v >= (1 << (8 * n - 1)), v - (1 << 8 * n), v)
            if ex.known(st, And(zi(off) >= zi(lo), zi(off) + n <= zi(hi))):
                if c[0] == 'zero': return FZERO if kind in 'fd' else 0
                if c[0] == 'copy': return c[1].dec(ex, st, kind, simp(zi(off) + zi(c[2])))
            if c[0] == 'enc' and SIZE_OF[c[1]] == n and c[1] not in 'fd' and kind not in 'fd' and ex.known(st, Or(zi(off) + n <= zi(lo), zi(off) >= zi(hi), And(zi(off) == zi(lo), zi(hi) == zi(lo) + n))):
                # the same item or another one
                a, b = krange(kind)
                v = zi(c[2])
                if c[1] != kind: v = Z.If(v > b, v - (1 << 8 * n), Z.If(v < a, v + (1 << 8 * n), v))
                rest = Store(self.len, self.base, self.ents[ent + 1:], self.live)
                return Z.If(zi(off) == zi(lo), v, zi(rest.dec(ex, st, kind, off)))
            st.ghost['approx'] = 'a read that overlaps earlier writes partially'
            r = freshf() if kind in 'fd' else fresh('approx')
            if kind not in 'fd':
                a, b = krange(kind)
                st.pc.append(Z.And(r >= a, r <= b))
            return r
        if self.base is None: return FZERO if kind in 'fd' else 0
        if kind in 'fd': return ufn('f%d_%s' % (8 * n, self.base), INT, FV)(zi(off))
        u = self.basebyte(off) if n == 1 else ufn('u%d_%s' % (8 * n, self.base), INT, INT)(zi(off))
        st.pc.append(Z.And(u >= 0, u < (1 << 8 * n)))
        return u if kind.isupper() or kind == 'c' else Z.If(u >= (1 << (8 * n - 1)), u - (1 << 8 * n), u)

class Opt(object):
    "special when cond holds, value otherwise"
    def __init__(self, cond, special, value): self.cond, self.special, self.value = cond, special, value
    def pick(self, ex, s):
        r = self
        while isinstance(r, Opt):
            if ex.known(s, r.cond): r = r.special
            elif ex.known(s, Not(r.cond)): r = r.value
            else: break
        return r
class Seq(object):
    "immutable Python bytes"
    def __init__(self, ln, store): self.len, self.store = ln, store
    def __repr__(self): return '<Seq %s>' % self.len

def seq_of(b):
    st = Store(len(b))
    for i, c in enumerate(b): st = st.write(i, i + 1, ('enc', 'B', c))
    return Seq(len(b), st)

def bases_fact(name):
    "bytes are between 0 and 255: instantiated where needed"
    return None

# ---------------------------------------------------------------------------------------------------------- state
class St(object):
    __slots__ = ('env', 'pc', 'heap', 'stores', 'facts', 'ghost')
    def __init__(self):
        self.env, self.pc, self.heap, self.stores, self.facts, self.ghost = {}, [], {}, {}, [], {}
    def fork(self, *conds):
        s = St.__new__(St)
        s.env, s.pc = dict(self.env), list(self.pc)
        s.heap = dict((k, dict(v)) for k, v in self.heap.items())
        s.stores, s.facts, s.ghost = dict(self.stores), list(self.facts), dict(self.ghost)
        for c in conds:
            if c is not True: s.pc.append(zb(c))
        return s
    def new(self, cls, **attrs):
        i = next(_n)
        self.heap[i] = dict(attrs)
        return Ref(cls, i)
    def get(self, ref, a): return self.heap[ref.id][a]
    def set(self, ref, a, v): self.heap[ref.id][a] = v

EXC_BASES = {'IndexError': 'LookupError', 'KeyError': 'LookupError', 'LookupError': 'Exception', 'OverflowError': 'ArithmeticError', 'ZeroDivisionError': 'ArithmeticError',
             'ArithmeticError': 'Exception', 'ValueError': 'Exception', 'TypeError': 'Exception', 'AssertionError': 'Exception', 'struct.error': 'Exception', 'EOFError': 'Exception',
             'StopIteration': 'Exception', 'NotImplementedError': 'RuntimeError', 'RuntimeError': 'Exception', 'AttributeError': 'Exception', 'Exception': 'BaseException',
             'UnicodeDecodeError': 'ValueError', 'UnboundLocalError': 'NameError', 'NameError': 'Exception', 'ImportError': 'Exception'}
def exc_isa(c, base):
    c = c.split('.')[-1] if c not in EXC_BASES else c
    while c is not None:
        if c == base or c == base.split('.')[-1] and base not in EXC_BASES: return True
        c = EXC_BASES.get(c)
    return False

class Ob(object):
    def __init__(self, name, status, secs, detail=None, backend='z3', model=None):
        self.name, self.status, self.secs, self.detail, self.backend, self.model = name, status, secs, detail, backend, model

# ---------------------------------------------------------------------------------------------------------- contracts
CONTRACTS = {}     # (mode, key) -> Contract
LOOPS = {}         # (mode, key, ordinal) -> LoopSpec
class Contract(object):
    modes = ('py', 'pyx')
    prop = None
    trusted = False
def contract(key, modes=('py', 'pyx'), props=()):
    def dec(cls):
        c = cls()
        c.key, c.modes, c.props = key, modes, props
        for m in modes: CONTRACTS[m, key] = c
        return cls
    return dec
def is_intlike(v): return isinstance(v, Opq) and (v.cls, '__int__') in BM.OATTR
def int_of(v): return BM.OATTR[v.cls, '__int__'](v)
def opq_eq(a, b):
    return str(a.t) == str(b.t) if a.cls == b.cls == 'BuiltinType' and str(a.t)[:6] == str(b.t)[:6] == 'Types.' else a.t == b.t
def pure(e): return e.op in ('name', 'const') or e.op == 'attr' and pure(e.a[0])
class LoopSpec(object):
    "inv(ex, st0, st, k) -> list of (name, formula); havoc(ex, st0, st, k): replaces what the body may change (beyond locals)"
    inv = havoc = facts = cands = None
    unfold = None       # unfold(ex, st0, st, k): definitions the first iterations need
    values = {}         # local -> value(ex, st): any value the local can have at the start of an iteration (inv has to say what it is)
    split = None        # split(ex, st0, h, k): the cases (covering everything) an arbitrary iteration is divided into
def loop(key, ordinal=0, modes=('py', 'pyx')):
    def dec(cls):
        for m in modes: LOOPS[m, key, ordinal] = cls()
        return cls
    return dec

# ---------------------------------------------------------------------------------------------------------- world
FILES = {}
MODCACHE = {}
class World(object):
    def base_of(self, c):
        for bn in c.bases:
            bn = bn.split('.')[-1]
            e = c.mod.names.get(bn)
            if e is not None and e[0] == 'from':
                m = self.module(e[1])
                b = m.classes.get(e[2]) if m is not None else None
            else: b = self.find_class(bn, c.mod)
            if b is not None and b is not c: return b
        return None
    def __init__(self, root, mode):
        self.root, self.mode, self.mods = root, mode, {}
    PYX = {'capnpy.segment.base': 'segment/base.pyx', 'capnpy.segment.builder': 'segment/builder.pyx', 'capnpy.ptr': 'ptr.pyx', 'capnpy.packing': 'packing.pyx', 'capnpy._hash': '_hash.pyx',
           'capnpy.segment.endof': 'segment/endof.py', 'capnpy.segment.segment': 'segment/segment.py', 'capnpy.message': 'message.py', 'capnpy.list': 'list.py', 'capnpy.struct_': 'struct_.py',
           'capnpy.blob': 'blob.py', 'capnpy.buffered': 'buffered.py', 'capnpy.filelike': 'filelike.py', 'capnpy.type': 'type.py', 'capnpy.enum': 'enum.py'}
    def module(self, name):
        if name in self.mods: return self.mods[name]
        k = (self.root, self.mode, name)
        if k not in MODCACHE: MODCACHE[k] = self.module2(name)
        self.mods[name] = MODCACHE[k]
        return self.mods[name]
    def module2(self, name):
        m = None
        if name.split('.')[0] == 'gen':
            p = os.path.join(os.environ.get('DV_GEN', '/nonexistent'), name[4:] + ('.pyx' if self.mode == 'pyx' else '.py'))
            if os.path.exists(p): m = CyFront(name, p, self.root).m if self.mode == 'pyx' else PyFront(name, p, static={'PYX': False}).m
        if name.split('.')[0] == 'capnpy':
            base = os.path.join(self.root, 'capnpy')
            if self.mode == 'pyx' and name in self.PYX:
                m = CyFront(name, os.path.join(base, self.PYX[name]), self.root).m
            else:
                p = os.path.join(base, *name.split('.')[1:]) + '.py'
                if not os.path.exists(p): p = os.path.join(base, *name.split('.')[1:], '__init__.py')
                if os.path.exists(p): m = PyFront(name, p, static={'PYX': self.mode == 'pyx', 'IS_PYPY': self.mode == 'py'}).m
        return m
    def function(self, key):
        mod, q = key.split(':')
        m = self.module(mod)
        if m is None: raise Unsupported('no module ' + mod)
        if '.' in q:
            c, f = q.split('.')
            if c not in m.classes: raise Unsupported('no class %s' % key)
            cl = m.classes[c]
            if f in cl.methods: return cl.methods[f]
            if f in cl.props: return cl.props[f]
            raise Unsupported('no method %s' % key)
        if q not in m.funcs: raise Unsupported('no function %s' % key)
        return m.funcs[q]
    def find_class(self, name, prefer=None):
        if prefer is not None and name in prefer.classes: return prefer.classes[name]
        for m in self.mods.values():
            if m is not None and name in m.classes: return m.classes[name]
        home = {'BaseSegment': 'capnpy.segment.base', 'Segment': 'capnpy.segment.segment', 'MultiSegment': 'capnpy.segment.segment', 'SegmentBuilder': 'capnpy.segment.builder',
                'Struct': 'capnpy.struct_', 'List': 'capnpy.list', 'Blob': 'capnpy.blob', 'BufferedStream': 'capnpy.buffered', 'FileLike': 'capnpy.filelike'}
        if name in home:
            m = self.module(home[name])
            return m.classes.get(name)
        return None
    def method(self, clsname, name):
        c = self.find_class(clsname)
        seen = 0
        while c is not None and seen < 10:
            if name in c.methods: return c, c.methods[name]
            if name in c.props: return c, c.props[name]
            c, seen = self.base_of(c), seen + 1
        return None, None
    def class_attr(self, clsname, name):
        c = self.find_class(clsname)
        seen = 0
        while c is not None and seen < 10:
            if name in c.attrs: return c, c.attrs[name]
            c, seen = self.base_of(c), seen + 1
        return None, None
    def field_ct(self, clsname, name):
        c = self.find_class(clsname)
        seen = 0
        while c is not None and seen < 10:
            if name in c.ctypes: return c.ctypes[name]
            c, seen = self.base_of(c), seen + 1
        return None
    def isa(self, clsname, base):
        c = self.find_class(clsname)
        seen = 0
        if clsname == base: return True
        while c is not None and seen < 10:
            if c.name == base: return True
            if any(b.split('.')[-1] == base for b in c.bases): return True
            c, seen = self.base_of(c), seen + 1
        return False

# ---------------------------------------------------------------------------------------------------------- executor
import sys as _sys
import builtins_model as BM

class Ex(object):
    def __init__(self, world, where, deadline=None, timeout=None):
        self.w, self.mode, self.where = world, world.mode, where
        self.obs, self.local = [], {}            # local: contracts of this task only
        self.deadline = deadline
        self.timeout = timeout or TIMEOUT
        self.depth = 0
        self.inlined, self.used, self.trusted = set(), set(), set()
        self.counts = {}
        self.current = None
        self.stack = []
        self.cmode = self.mode == 'pyx'
        self.paths = 0
        self.cut, self.unroll_bound = False, 0     # was a loop cut by an invariant; diagnosis: iterations to follow
        self.unfolds = False     # the contract needs definitions that a LoopSpec unfolds
        self.cross = 0           # milliseconds for cvc5 on each obligation (thorough tier)

    # ---- solver
    def _check(self, assertions, timeout):
        if self.deadline and time.time() > self.deadline: raise Budget()
        s = Z.Solver()
        s.set('timeout', timeout)
        s.add(*assertions)
        return s.check(), s
    def feasible(self, st, *extra):
        ex = [zb(x) for x in extra if x is not True]
        if any(Z.is_false(Z.simplify(x)) for x in ex): return False
        r, _ = self._check(st.pc + ex, 1500)
        return r != Z.unsat
    def known(self, st, c):
        c = simp(c) if not isinstance(c, bool) else c
        if c is True: return True
        if c is False: return False
        r, _ = self._check(st.pc + [Z.Not(c)], 1500)
        return r == Z.unsat
    def name(self, kind):
        k = (self.where, kind)
        self.counts[k] = self.counts.get(k, 0) + 1
        return '%s/%s#%d' % (self.where, kind, self.counts[k])
    def ob(self, kind, st, goal, detail=None):
        t = time.time()
        if getattr(self, 'trial', 0): return True
        if isinstance(goal, bool): goal = Z.BoolVal(goal)
        nm = self.name(kind)
        r, s = self._check(st.pc + [Z.Not(goal)], self.timeout)
        if r == Z.unknown:
            # a second attempt with another strategy
            s2 = Z.SolverFor('QF_UFNIA') if False else Z.Tactic('smt').solver()
            s2.set('timeout', self.timeout)
            s2.add(*(st.pc + [Z.Not(goal)]))
            r = s2.check(); s = s2
        status = 'proved' if r == Z.unsat else 'refuted' if r == Z.sat else 'unknown'
        d, m, be = detail, None, 'z3'
        if self.cross and status != 'refuted':
            import cross
            c = cross.ask(s, self.cross)
            if c == 'unsat': status, be = 'proved', 'z3+cvc5' if status == 'proved' else 'cvc5'
            elif c == 'sat' and status == 'proved': status, d = 'unknown', 'z3 and cvc5 disagree'
            elif c == 'unread': be = 'z3 (not read by cvc5)'
        if status == 'refuted' and (st.ghost.get('approx') or 'approx!' in goal.sexpr()):
            status, d = 'unknown', 'over-approximated: %s' % st.ghost.get('approx')
        if status == 'refuted':
            m = s.model()
            d = '%s; counter-model: %s' % (detail or str(Z.simplify(goal))[:300], str(m)[:1500])
        self.obs.append(Ob(nm, status, time.time() - t, d, be, m))
        return status == 'proved'

    def ob_c(self, kind, st, goal):
        "well-formedness of a C operation evaluated on bit vectors.  An overflow wraps (-fno-strict-overflow), as it does in the evaluation: no error by itself"
        n = len(self.obs)
        self.ob(kind, st, goal)
        if 'no-overflow' in kind and len(self.obs) > n and self.obs[-1].status == 'refuted': self.obs.pop()

    # ---- branching helper
    def branch(self, st, cond):
        "yields (state, bool)"
        cond = simp(cond) if not isinstance(cond, bool) else cond
        if isinstance(cond, bool):
            yield st, cond
            return
        a = self.feasible(st, cond)
        b = self.feasible(st, Not(cond))
        if a and b:
            s2 = st.fork(cond)
            yield s2, True
            s3 = st.fork(Not(cond))
            yield s3, False
        elif a: yield st, True
        elif b: yield st, False

    def truth(self, v, st):
        if isinstance(v, bool) or isinstance(v, Z.BoolRef): return v
        if v is None or v is NULL: return False
        if isint(v): return simp(zi(v) != 0)
        if isinstance(v, (bytes, str, float)): return bool(v)
        if isinstance(v, Seq): return simp(zi(v.len) != 0)
        if isinstance(v, Tup): return bool(v.xs)
        if isinstance(v, SymTup): return simp(zi(v.n) != 0)
        if isinstance(v, Ref):
            if v.cls in ('bytearray',): return simp(zi(st.stores[st.get(v, 'sid')].len) != 0)
            if v.cls == 'list': return simp(zi(st.get(v, 'L').n) != 0)
            return True
        if isinstance(v, (FnV, Builtin, ClsV, Mod, Ptr)): return True
        if isinstance(v, Opq) and BM.OATTR.get((v.cls, '__bool__')) is True: return True
        if isinstance(v, Opq) and BM.OATTR.get((v.cls, '__bool__')) == 'int': return simp(int_of(v) != 0)
        if isinstance(v, Opq) and callable(BM.OATTR.get((v.cls, '__bool__'))): return BM.OATTR[v.cls, '__bool__'](v)
        raise Unsupported('truth of %r' % (v,))

    # ---- expressions: generators of (state, value)
    def evs(self, es, st):
        if not es:
            yield st, []
            return
        for s1, v in self.ev(es[0], st):
            if isinstance(v, Exc):
                yield s1, v
                continue
            for s2, vs in self.evs(es[1:], s1):
                yield s2, (vs if isinstance(vs, Exc) else [v] + vs)

    def ev(self, e, st):
        m = getattr(self, 'x_' + {'or': 'or_', 'and': 'and_', 'not': 'not_', 'if': 'if_'}.get(e.op, e.op), None)
        if m is None: raise Unsupported('expression %s %s' % (e.op, e.a[0] if e.a else ''))
        return m(e, st)

    def x_const(self, e, st):
        v = e.a[0]
        if v is Ellipsis: raise Unsupported('...')
        yield st, v
    def x_modv(self, e, st): yield st, Mod(e.a[0])
    def x_null(self, e, st): yield st, NULL
    def x_name(self, e, st):
        n = e.a[0]
        if n in st.env:
            v = st.env[n]
            if isinstance(v, Opt): v = v.pick(self, st)
            yield st, (st.heap[v.id]['v'] if isinstance(v, Box) else v)
            return
        if len(e.a) > 1 and e.a[1]:
            cm = self.current.mod if self.current is not None else None
            if cm is not None and cm.name.startswith('gen.') and n in cm.names: v = self.global_(n, cm)
            else: v = self.global_(n, self.w.module(e.a[1]) if e.a[1].startswith(('capnpy', 'gen.')) else None, e.a[1])
        elif self.current is not None and n in self.current.locals and n in [p for p in self.current.locals] and not self.is_global(n):
            ct = self.current.locals[n][0]
            if ct is not None and isinstance(ct.array, int):
                # a local C array; reading an element that was not written is an obligation
                st.env[n] = st.new('carray')
                st.heap[st.env[n].id]['len'] = ct.array
                yield st, st.env[n]
                return
            yield st, Exc('UnboundLocalError')
            return
        else:
            v = self.global_(n, self.current.mod if self.current else None)
        for x in self.force(v, st): yield x
    def is_global(self, n):
        m = self.current.mod
        return n in m.names or n in BM.BUILTINS
    def x_cname(self, e, st):
        n, modq, cn = e.a
        if modq in ('__builtin__', 'builtins'): yield st, Builtin(n)
        elif modq.startswith(('capnpy', 'gen.')):
            m = self.w.module(modq)
            if BM.has(modq, n): yield st, Builtin('%s.%s' % (modq, n))
            elif m is not None and n in m.funcs: yield st, FnV(m.funcs[n])
            elif m is None and n.startswith('__') and self.w.module(modq.rpartition('.')[0]) is not None and '_%s%s' % (modq.rpartition('.')[2], n) in getattr(self.w.module(modq.rpartition('.')[0]).classes.get(modq.rpartition('.')[2]), 'methods', ()):
                yield st, FnV(self.w.module(modq.rpartition('.')[0]).classes[modq.rpartition('.')[2]].methods['_%s%s' % (modq.rpartition('.')[2], n)])
            elif m is None and self.w.module(modq.rpartition('.')[0]) is not None and n in getattr(self.w.module(modq.rpartition('.')[0]).classes.get(modq.rpartition('.')[2]), 'methods', ()):
                yield st, FnV(self.w.module(modq.rpartition('.')[0]).classes[modq.rpartition('.')[2]].methods[n])
            else: yield st, Builtin('c.' + n)
        else:
            yield st, Builtin('c.' + n)
    def force(self, v, st):
        "module-level values given by an expression are evaluated where they are used"
        if isinstance(v, tuple) and v[0] == 'expr':
            cur = self.current
            self.current = Func(v[2], '<module>', [], [])
            env = st.env
            st.env = {}
            try: res = list(self.ev(v[1], st))
            finally: self.current = cur
            for s, x in res:
                s.env = env
                yield s, x
        else:
            yield st, v
    def global_(self, n, mod, modq=None, seen=0):
        if seen > 6: raise Unsupported('import cycle ' + n)
        if mod is not None and n in mod.names:
            k = mod.names[n]
            if k[0] == 'func':
                if BM.has(mod.name, n): return Builtin('%s.%s' % (mod.name, n))
                return FnV(k[1])
            if k[0] == 'class': return ClsV(n, k[1])
            if k[0] == 'mod': return Mod(k[1])
            if k[0] == 'expr':
                if BM.has(mod.name, n): return Builtin('%s.%s' % (mod.name, n))
                return ('expr', k[1], mod)
            if k[0] == 'from':
                full = '%s.%s' % (k[1], k[2])
                if full in ('capnpy.blob.PYX', 'capnpy.type.PYX'): return mod.mode == 'pyx'
                if full == 'six.PY3': return True
                if k[1] == 'six.moves' and k[2] in BM.BUILTINS: return Builtin(k[2])
                if BM.has(k[1], k[2]): return Builtin(full)
                if k[1] in BM.VALUES and k[2] in BM.VALUES[k[1]]: return BM.VALUES[k[1]][k[2]]
                if k[1] and k[1].startswith('capnpy'):
                    sub = self.w.module(full)
                    if sub is not None: return Mod(full)
                    m = self.w.module(k[1])
                    if m is not None: return self.global_(k[2], m, None, seen + 1)
                raise Unsupported('import of %s' % full)
        if modq and BM.has(modq, n): return Builtin('%s.%s' % (modq, n))
        if modq in BM.VALUES and n in BM.VALUES[modq]: return BM.VALUES[modq][n]
        for q in (mod.name if mod else None,):
            if q in BM.VALUES and n in BM.VALUES[q]: return BM.VALUES[q][n]
        if n in BM.BUILTINS: return Builtin(n)
        if n in EXC_BASES: return ClsV(n)
        if mod is not None and mod.mode == 'pyx':
            # cimported names: look at the other compiled modules
            if n == 'ptr': return Mod('capnpy.ptr')
            if n == '_hash': return Mod('capnpy._hash')
            c = self.w.find_class(n, mod)
            if c is not None: return ClsV(n, c)
            for q in ('capnpy.ptr',):
                if BM.has(q, n): return Builtin('%s.%s' % (q, n))
            for q in ('capnpy.segment.endof', 'capnpy.packing', 'capnpy.segment.base', 'capnpy.segment.builder', 'capnpy.message', 'capnpy.struct_'):
                m2 = self.w.module(q)
                if m2 is not None and n in m2.funcs: return FnV(m2.funcs[n])
        raise Unsupported('name %s' % n)

    def x_attr(self, e, st):
        for s, o in self.ev(e.a[0], st):
            if isinstance(o, Exc):
                yield s, o
                continue
            for x in self.getattr_(s, o, e.a[1]): yield x
    def getattr_(self, s, o, n):
        if isinstance(o, Mod):
            if BM.has(o.name, n):
                yield s, Builtin('%s.%s' % (o.name, n))
                return
            if o.name in BM.VALUES and n in BM.VALUES[o.name]:
                yield s, BM.VALUES[o.name][n]
                return
            if o.name.startswith('capnpy'):
                sub = self.w.module(o.name + '.' + n) if not (self.w.module(o.name) and n in self.w.module(o.name).names) else None
                if sub is not None:
                    yield s, Mod(o.name + '.' + n)
                    return
                v = self.global_(n, self.w.module(o.name), o.name)
                for x in self.force(v, s): yield x
                return
            if o.name == 'struct' and n == 'error':
                yield s, ClsV('struct.error')
                return
            yield s, Builtin('%s.%s' % (o.name, n))
            return
        if isinstance(o, SuperV):
            for bn in o.cls.bases:
                b = self.w.find_class(bn.split('.')[-1], o.cls.mod)
                if b is None: continue
                c, f = self.w.method(b.name, n)
                if f is not None:
                    yield s, FnV(f, o.self_)
                    return
                if n == '__init__' and self.w.method(b.name, '__cinit__')[1] is not None:
                    yield s, Builtin('noop')
                    return
            if n == '__init__':
                yield s, Builtin('noop')
                return
            h = self.local.get('super.' + n)
            if h is not None:
                yield s, Builtin('super.' + n, (o.cls, o.self_, h))
                return
            raise Unsupported('super().%s' % n)
        if n == '__class__' and (isinstance(o, Ref) or isint(o) or isbool(o) or isinstance(o, (Seq, bytes, str))):
            for x in BM.builtin_call(self, 'type', None, s, [o], {}, None): yield x
            return
        if isinstance(o, Ref):
            h = s.heap[o.id]
            if n in h:
                yield s, h[n]
                return
            hook = BM.ATTR.get((o.cls, n))
            if hook is not None:
                for x in hook(self, s, o): yield x
                return
            c, f = self.w.method(o.cls, n)
            if f is not None:
                if n in c.props:
                    for x in self.call_func(f, s, [o], {}): yield x
                else:
                    yield s, FnV(f, o)
                return
            c, a = self.w.class_attr(o.cls, n)
            if a is not None:
                for x in self.force(('expr', a, c.mod), s): yield x
                return
            if BM.has('method', '%s.%s' % (o.cls, n)):
                yield s, Builtin('method.%s.%s' % (o.cls, n), o)
                return
            raise Unsupported('attribute %s of %s' % (n, o.cls))
        if isinstance(o, (Seq, bytes)):
            yield s, (Exc('AttributeError') if n == 'encode' else Builtin('method.bytes.' + n, o))
            return
        if isinstance(o, str) or isinstance(o, Opq) and o.cls == 'str' and hasattr(o, 'utf8'):
            yield s, Builtin('method.str.' + n, o)
            return
        if hasattr(o, 'dv_parts'):
            yield s, Builtin('text.' + n, o)
            return
        if isbool(o) or isint(o):
            h = self.local.get('int.' + n)
            if h is not None:
                for x in h(self, s, o): yield x
                return
        if isinstance(o, ClsV):
            if n == '__name__':
                yield s, o.name
                return
            if o.name == 'Types':
                yield s, BM.types_attr(self, s, n)
                return
            if o.cls is not None:
                c, f = self.w.method(o.cls.name, n)
                if f is not None:
                    yield s, FnV(f, o if f.kind == 'classmethod' or getattr(f, 'classmethod', False) else None)
                    return
            if o.cls is not None and n in o.cls.attrs:
                for x in self.force(('expr', o.cls.attrs[n], o.cls.mod), s): yield x
                return
            yield s, Builtin('class.%s.%s' % (o.name, n), o)
            return
        if isinstance(o, Opq):
            hook = BM.OATTR.get((o.cls, n))
            if hook is not None:
                for x in hook(self, s, o): yield x
                return
            # objects known through their contracts only: what else their classes define
            for k in BM.OATTR.get((o.cls, 'dv_classes'), ()):
                c = self.w.module(k.split(':')[0]).classes.get(k.split(':')[1]) if self.w.module(k.split(':')[0]) is not None else None
                f = c.methods.get(n) if c is not None else None
                if f is not None and n not in c.props:
                    yield s, FnV(f, o)
                    return
        if isinstance(o, Opq) and o.cls == 'slice':
            yield s, Builtin('method.slice.' + n, o)
            return
        if o is None:
            yield s, Exc('AttributeError')
            return
        if isinstance(o, SymTup) or isinstance(o, Tup):
            yield s, Builtin('method.tuple.' + n, o)
            return
        if isinstance(o, Builtin) and o.name.startswith('class.') and o.name.endswith('.__tag__'):
            yield s, Builtin('%s.%s' % (o.name, n))
            return
        raise Unsupported('attribute %s of %r' % (n, o))
    def x_cmeth(self, e, st):
        for s, o in self.ev(e.a[0], st):
            if isinstance(o, Exc):
                yield s, o
                continue
            for x in self.getattr_(s, o, e.a[1]): yield x
    def x_nonecheck(self, e, st):
        for s, v in self.ev(e.a[0], st):
            if v is None: v = Exc('AttributeError' if 'Attr' in str(e.a[1]) else 'TypeError')
            yield s, v
    def x_typetest(self, e, st):
        for s, v in self.ev(e.a[0], st):
            t = e.a[1]
            if isinstance(v, Exc): yield s, v
            elif v is None: yield s, (Exc('TypeError') if e.a[2] else v)
            elif isinstance(v, Opt) and v.special is None and not e.a[2]: yield s, v
            elif isinstance(v, Ref):
                yield s, (v if v.cls == t or self.w.isa(v.cls, t) else Exc('TypeError'))
            elif isinstance(v, (Seq, bytes)): yield s, (v if t == 'bytes' else Exc('TypeError'))
            elif isinstance(v, (Tup,)) and t == 'tuple': yield s, v
            elif isinstance(v, ClsV) and t == 'type': yield s, v
            elif isinstance(v, Opq) and (v.cls == t or v.cls in self.local.get('any_class', ())): yield s, v
            elif hasattr(v, 'dv_parts') and t in ('str', 'unicode'): yield s, v
            elif isinstance(v, SymTup) and t in ('tuple', 'list'): yield s, v
            elif isint(v) or isbool(v) or isfloat(v): yield s, (v if t in ('int', 'bool', 'float') else Exc('TypeError'))
            elif isinstance(v, str): yield s, (v if t in ('str', 'unicode') else Exc('TypeError'))
            else: raise Unsupported('type test %s of %r' % (t, v))
    def x_typecast(self, e, st):
        return self.ev(e.a[0], st)
    def x_let(self, e, st):
        for s, v in self.ev(e.a[1], st):
            if isinstance(v, Exc):
                yield s, v
                continue
            s.env['$%d' % e.a[0]] = v
            for x in self.ev(e.a[2], s): yield x
    def x_ref(self, e, st): yield st, st.env['$%d' % e.a[0]]
    def x_topy(self, e, st): return self.ev(e.a[0], st)
    def x_bool(self, e, st):
        for s, v in self.ev(e.a[0], st):
            if isinstance(v, Exc): yield s, v
            else: yield s, self.truth(v, s)
    def x_frompy(self, e, st):
        ct = e.a[0]
        for s, v in self.ev(e.a[1], st):
            if isinstance(v, Exc):
                yield s, v
                continue
            for x in self.frompy(ct, v, s): yield x
    def frompy(self, ct, v, s):
        if ct.kind == 'bool':
            yield s, self.truth(v, s)
        elif ct.kind == 'int':
            if isbool(v): v = simp(zi(v))
            if not isint(v):
                if v is None or isinstance(v, (Seq, bytes, str, Tup, Ref, float)) or isfloat(v):
                    if isfloat(v): raise Unsupported('float to int')
                    yield s, Exc('TypeError')
                    return
                raise Unsupported('conversion of %r to %s' % (v, ct))
            for s2, ok in self.branch(s, And(zi(v) >= ct.lo, zi(v) <= ct.hi)):
                yield s2, (v if ok else Exc('OverflowError'))
        elif ct.kind == 'float':
            if isfloat(v): yield s, v
            elif conc(v) is not None and isint(v): yield s, float(conc(v))
            elif isint(v): yield s, ufn('int2float', INT, FV)(zi(v))
            else: yield s, Exc('TypeError')
        elif ct.kind == 'ptr':
            if isinstance(v, (Seq,)): yield s, Ptr(v, 0)
            elif isinstance(v, bytes): yield s, Ptr(seq_of(v), 0)
            else: raise Unsupported('pointer from %r' % (v,))
        else:
            raise Unsupported('conversion to %s' % ct)
    def x_cast(self, e, st):
        ct = e.a[0]
        explicit = len(e.a) > 2 and e.a[2]
        for s, v in self.ev(e.a[1], st):
            if isinstance(v, Exc):
                yield s, v
                continue
            yield s, self.ccast(ct, v, s, explicit, e)
    def ccast(self, ct, v, s, explicit, e=None):
        if ct.kind == 'ptr' or ct.kind == '?' or ct.kind == 'func': return v
        if ct.kind == 'bool': return self.truth(v, s)
        if ct.kind == 'float':
            if isint(v) or isbool(v): return ufn('int2float', INT, FV)(zi(v))
            if ct.bits == 32 and isinstance(v, float) and float_bytes('f', v): return struct.unpack('<f', struct.pack('<f', v))[0]
            if ct.bits == 32 and isfloat(v): return v
            return v
        if ct.kind == 'void': return v
        if isbool(v): return simp(zi(v))
        if isinstance(v, Ptr): raise Unsupported('pointer to integer')
        if not isint(v): raise Unsupported('cast of %r to %s' % (v, ct))
        c = conc(v)
        if c is not None:
            if ct.lo <= c <= ct.hi: return c
            return (c - ct.lo) % (1 << ct.bits) + ct.lo
        inr = And(zi(v) >= ct.lo, zi(v) <= ct.hi)
        if explicit:
            if self.known(s, inr): return v
            return (zi(v) - ct.lo) % (1 << ct.bits) + ct.lo
        if e is not None and e.a[1].ct is not None and e.a[1].ct.kind == 'int' and ct.lo <= e.a[1].ct.lo and e.a[1].ct.hi <= ct.hi: return v
        self.ob('no-truncation', s, inr, 'value converted to %s: %s' % (ct, e.a[1].src if e is not None else ''))
        s.pc.append(zb(inr))
        return v

    def x_and_(self, e, st): return self.boolop(list(e.a[0]), st, True, e)
    def x_or_(self, e, st): return self.boolop(list(e.a[0]), st, False, e)
    def boolop(self, xs, st, isand, e):
        for s, v in self.ev(xs[0], st):
            if isinstance(v, Exc) or len(xs) == 1:
                yield s, v
                continue
            t = self.truth(v, s)
            if isinstance(t, Z.BoolRef):
                # keep it a formula when the rest has no effects and cannot fail
                r = self.pure_bool(xs[1:], s, t if isand else Not(t), isand)
                if r is not None:
                    yield s, (And if isand else Or)(t, r)
                    continue
            for s2, b in self.branch(s, t):
                if b == isand:
                    for y in self.boolop(xs[1:], s2, isand, e): yield y
                else:
                    yield s2, (v if not isbool(v) else b)
    def pure_bool(self, xs, s, guard, isand):
        "value of the rest as one formula, if it evaluates without forking"
        out = []
        s2 = s.fork(guard)
        n = len(s2.pc)
        nob = len(self.obs)
        cnt = dict(self.counts)
        try:
            for x in xs:
                r = list(self.ev(x, s2))
                if len(r) != 1 or isinstance(r[0][1], Exc) or r[0][0] is not s2: raise Unsupported('')
                v = r[0][1]
                t = self.truth(v, s2)
                if not isbool(v) : raise Unsupported('')
                out.append(t)
        except Unsupported:
            del self.obs[nob:]
            self.counts = cnt
            return None
        for f in s2.pc[n:]: s.pc.append(Z.Implies(zb(guard), f))
        return (And if isand else Or)(*out)
    def x_not_(self, e, st):
        for s, v in self.ev(e.a[0], st):
            yield s, (v if isinstance(v, Exc) else simp(Not(self.truth(v, s))))
    def x_if_(self, e, st):
        for s, v in self.ev(e.a[0], st):
            if isinstance(v, Exc):
                yield s, v
                continue
            for s2, b in self.branch(s, self.truth(v, s)):
                for y in self.ev(e.a[1] if b else e.a[2], s2): yield y

    def x_cmp(self, e, st):
        op = e.a[0]
        for s, vs in self.evs([e.a[1], e.a[2]], st):
            if isinstance(vs, Exc):
                yield s, vs
                continue
            a, b = vs
            # comparison of C integers of different signedness happens in the unsigned type
            ca, cb = e.a[1].ct, e.a[2].ct
            if ca is not None and cb is not None and ca.kind == cb.kind == 'int' and ca.signed != cb.signed:
                u = ca if not ca.signed else cb
                sg = cb if u is ca else ca
                if u.bits >= sg.bits and u.bits >= 32:
                    v = b if u is ca else a
                    if conc(v) is None or conc(v) < 0:
                        self.ob('no-sign-mixup', s, zi(v) >= 0, 'signed value compared with an unsigned one')
                        s.pc.append(zi(v) >= 0)
            r = self.compare(op, a, b, s)
            if isinstance(r, Z.ExprRef) or isinstance(r, (bool, Exc)): yield s, simp(r) if not isinstance(r, Exc) else r
            else:
                for y in r: yield y
    def compare(self, op, a, b, s):
        h = self.local.get('compare')
        if h is not None:
            r = h(self, s, op, a, b)
            if r is not None: return r
        if op in ('is', 'isnot'):
            if isinstance(b, Opt): a, b = b, a
            if isinstance(a, Opt): r = Z.If(zb(a.cond), zb(self.compare('is', a.special, b, s)), zb(self.compare('is', a.value, b, s)))
            elif any(isinstance(x, Opq) and x.cls == 'Undefined' for x in (a, b)): r = all(isinstance(x, Opq) and x.cls == 'Undefined' for x in (a, b))
            elif a is None or b is None or a is NULL or b is NULL: r = a is b if (a is None or b is None) else a is b
            elif isinstance(a, (bool, Z.BoolRef)) and isinstance(b, (bool, Z.BoolRef)): r = zb(a) == zb(b)
            elif isinstance(a, ClsV) and isinstance(b, ClsV): r = a.name == b.name
            elif isinstance(a, Ref) and isinstance(b, Ref): r = a.id == b.id
            elif isint(a) and isint(b) and self.mode == 'py' : r = zi(a) == zi(b)
            elif isinstance(a, Opq) and isinstance(b, Opq): r = opq_eq(a, b)
            else: raise Unsupported('is: %r %r' % (a, b))
            return r if op == 'is' else Not(r)
        if op not in ('in', 'notin') and any(is_intlike(x) for x in (a, b)) and all(is_intlike(x) or isint(x) or isbool(x) for x in (a, b)): a, b = [int_of(x) if is_intlike(x) else x for x in (a, b)]
        if (isint(a) or isbool(a)) and (isint(b) or isbool(b)):
            x, y = zi(a), zi(b)
            return {'==': lambda: x == y, '!=': lambda: x != y, '<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y}[op]()
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
        if op in ('==', '!='):
            if a is None or b is None or a is NULL or b is NULL:
                r = a is b
                return r if op == '==' else not r
            if isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)): r = a == b
            elif isinstance(a, (Seq, bytes)) and isinstance(b, (Seq, bytes)): r = self.seq_eq(a, b)
            elif isinstance(a, ClsV) and isinstance(b, ClsV): r = a.name == b.name
            elif any(isinstance(x, (Opq, Ref)) and x.cls in BM.OEQ for x in (a, b)): r = BM.OEQ[[x.cls for x in (a, b) if isinstance(x, (Opq, Ref)) and x.cls in BM.OEQ][0]](self, s, a, b)
            elif isinstance(a, Tup) and isinstance(b, Tup):
                if len(a.xs) != len(b.xs): r = False
                else: r = And(*[self.compare('==', x, y, s) for x, y in zip(a.xs, b.xs)])
            elif isinstance(a, Opq) and isinstance(b, Opq) and a.cls == b.cls == 'item': r = ufn('EQ', OV, OV, BOOL)(a.t, b.t)
            elif isinstance(a, Opq) and isinstance(b, Opq): r = opq_eq(a, b)
            elif isinstance(a, (Ptr,)) and isinstance(b, Ptr) and a.base is b.base: r = zi(a.off) == zi(b.off)
            elif isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id: r = True
            elif (isint(a) and isinstance(b, (str, bytes, Seq))) or (isint(b) and isinstance(a, (str, bytes, Seq))): r = False
            else: raise Unsupported('== %r %r' % (a, b))
            return r if op == '==' else Not(r)
        if op in ('in', 'notin'):
            if isinstance(b, Tup):
                r = Or(*[self.compare('==', a, y, s) for y in b.xs])
                return r if op == 'in' else Not(r)
            if isinstance(b, (str, bytes)) and isinstance(a, (str, bytes)): return (a in b) == (op == 'in')
            if isinstance(b, Ref) and b.cls == 'dict' and isinstance(a, (str, bytes)): return (a in s.heap[b.id]['items']) == (op == 'in')
            if isinstance(b, Ref) and b.cls == 'list' and conc(s.get(b, 'L').n) is not None and conc(s.get(b, 'L').n) <= 8: return self.compare(op, a, Tup([s.get(b, 'L').item(s, i) for i in range(conc(s.get(b, 'L').n))]), s)
        raise Unsupported('%s %r %r' % (op, a, b))
    def seq_eq(self, a, b):
        if isinstance(a, bytes): a = seq_of(a)
        if isinstance(b, bytes): b = seq_of(b)
        if conc(a.len) is not None and conc(a.len) <= 64 or conc(b.len) is not None and conc(b.len) <= 64:
            n = conc(a.len) if conc(a.len) is not None else conc(b.len)
            return And(zi(a.len) == zi(b.len), *[a.store.at(i) == b.store.at(i) for i in range(n)])
        raise Unsupported('comparison of byte strings')

    def x_fmtmod(self, e, st):
        # the text of messages is of no interest, except to the contracts that are about text
        if 'text' not in self.local:
            yield st, '<formatted>'
            return
        for s, vs in self.evs(e.a, st):
            if isinstance(vs, Exc): yield s, vs
            else:
                for y in self.binop('%', vs[0], vs[1], s, None): yield y
    def x_fstr(self, e, st):
        if 'text' not in self.local:
            yield st, '<fstring>'
            return
        for s, vs in self.evs(e.a[0], st):
            yield s, (vs if isinstance(vs, Exc) else self.local['text'].joined(vs))
    def x_bin(self, e, st):
        op = e.a[0]
        for s, vs in self.evs([e.a[1], e.a[2]], st):
            if isinstance(vs, Exc):
                yield s, vs
                continue
            for y in self.binop(op, vs[0], vs[1], s, e.ct, e.src): yield y

    def crange(self, s, v, ct, what):
        "obligation: a C operation does not overflow its type"
        if ct is None or ct.kind != 'int': return v
        c = conc(v)
        if c is not None:
            if ct.lo <= c <= ct.hi: return c
        g = And(zi(v) >= ct.lo, zi(v) <= ct.hi)
        n = len(self.obs)
        self.ob('no-overflow', s, g, '%s in %s: %s' % (what, ct, str(Z.simplify(zi(v)))[:200]))
        if len(self.obs) > n and self.obs[-1].status == 'refuted':
            # it does overflow: C integers wrap (the extensions are compiled with -fno-strict-overflow), and whether that matters is for the postconditions to say
            self.obs.pop()
            M = ct.hi - ct.lo + 1
            if what in ('+', '-', 'unary -'): return simp(Z.If(zi(v) > ct.hi, zi(v) - M, Z.If(zi(v) < ct.lo, zi(v) + M, zi(v))))
            return simp(ct.lo + (zi(v) - ct.lo) % M)
        s.pc.append(zb(g))
        return v

    def binop(self, op, a, b, s, ct, src=None):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            p, o = (a, b) if isinstance(a, Ptr) else (b, a)
            esz = 1
            if ct is not None and ct.kind == 'ptr' and ct.to is not None and ct.to.bits: esz = ct.to.bits // 8
            if op == '+' and isint(o):
                yield s, Ptr(p.base, simp(zi(p.off) + zi(o) * esz))
                return
            if op == '-' and isint(b):
                yield s, Ptr(a.base, simp(zi(a.off) - zi(b) * esz))
                return
            raise Unsupported('pointer %s' % op)
        if isbool(a) and isbool(b) and op in ('&', '|', '^'):
            p, q = zb(a), zb(b)
            yield s, simp({'&': Z.And(p, q), '|': Z.Or(p, q), '^': Z.Xor(p, q)}[op])
            return
        if type(a) is float and type(b) is float and op in '+-*':
            yield s, {'+': a + b, '-': a - b, '*': a * b}[op]
            return
        if isbool(a): a = simp(zi(a))
        if isbool(b): b = simp(zi(b))
        if isint(a) and isint(b):
            x, y, ca, cb = zi(a), zi(b), conc(a), conc(b)
            if op in '+-*':
                v = simp({'+': x + y, '-': x - y, '*': x * y}[op])
                yield s, self.crange(s, v, ct, op)
                return
            if op in ('//', '%', 'c/', 'c%'):
                for s2, zero in self.branch(s, y == 0):
                    if zero:
                        if op in ('c/', 'c%'): self.ob('no-division-by-zero', s2, False)
                        else: yield s2, Exc('ZeroDivisionError')
                        continue
                    if cb is not None and cb > 0:
                        q, r = x / y, x % y
                        if op in ('c/', 'c%'):
                            q = Z.If(Z.Or(x >= 0, r == 0), q, q + 1)
                            r = x - q * y
                    else:
                        for s3, pos in self.branch(s2, y > 0):
                            q, r = x / y, x % y      # z3: r >= 0
                            if not pos: q, r = Z.If(r == 0, q, q - 1), Z.If(r == 0, r, r + y)
                            if op in ('c/', 'c%'): raise Unsupported('C division by a variable')
                            yield s3, self.crange(s3, simp(q if op == '//' else r), ct, op)
                        continue
                    yield s2, self.crange(s2, simp(q if op in ('//', 'c/') else r), ct, op)
                return
            if ca is not None and cb is not None:
                v = {'&': lambda: ca & cb, '|': lambda: ca | cb, '^': lambda: ca ^ cb, '<<': lambda: ca << cb if cb >= 0 else None, '>>': lambda: ca >> cb if cb >= 0 else None,
                     '**': lambda: ca ** cb if 0 <= cb < 200 else None}[op]()
                if v is not None:
                    yield s, self.crange(s, v, ct, op)
                    return
            if op == '<<' and cb is not None and cb >= 0:
                yield s, self.crange(s, simp(x * (1 << cb)), ct, op)
                return
            if op == '>>' and cb is not None and cb >= 0:
                yield s, simp(x / (1 << cb))
                return
            if op in ('<<', '>>'):
                # a small shift count: one case per value
                lo, hi = (0, 64)
                if self.known(s, And(y >= 0, y < 64)):
                    for k in range(64):
                        if self.feasible(s, y == k):
                            s2 = s.fork(y == k)
                            for z in self.binop(op, a, k, s2, ct, src): yield z
                    return
                raise Unsupported('shift by a variable')
            if op == '&':
                if ca is not None: x, y, ca, cb = y, x, cb, ca
                if cb is not None and cb >= 0 and (cb + 1) & cb == 0:
                    yield s, simp(x % (cb + 1))
                    return
                if cb is not None and cb < 0 and (-cb) & (-cb - 1) == 0:
                    yield s, simp(x - x % (-cb))
                    return
                if cb is not None and cb > 0 and cb & (cb - 1) == 0:
                    yield s, simp(((x / cb) % 2) * cb)
                    return
            if op == '|':
                if ca is not None and cb is None: x, y, ca, cb = y, x, cb, ca
                if cb == 0:
                    yield s, simp(x)
                    return
                if cb is not None and cb > 0 and cb & (cb - 1) == 0:
                    yield s, self.crange(s, simp(Z.If((x / cb) % 2 == 1, x, x + cb)), ct, op)
                    return
                # 2^n * k | c with 0 <= c < 2^n
            if op == '^' and (ca is None) != (cb is None):
                if ca is not None: x, y, ca, cb = y, x, cb, ca
                v = xor_const(x, cb, s)
                yield s, self.crange(s, v, ct, op)
                return
            if op in '&|^':
                if op == '^' and zi(x).eq(zi(y)):
                    yield s, 0
                    return
                f = ufn('bit' + {'&': 'and', '|': 'or', '^': 'xor'}[op], INT, INT, INT)
                v = f(x, y)
                s.ghost['approx'] = 'bit operation on unknown operands'
                if op == '^':
                    # within the range of any machine type that holds both; an involution
                    s.pc.append(f(v, y) == x)
                    for w in (8, 16, 32, 64):
                        for lo, hi in ((0, (1 << w) - 1), (-(1 << (w - 1)), (1 << (w - 1)) - 1)):
                            s.pc.append(Z.Implies(Z.And(y >= lo, y <= hi), Z.And(x >= lo, x <= hi) == Z.And(v >= lo, v <= hi)))
                if ct is not None and ct.kind == 'int': s.pc.append(Z.And(v >= ct.lo, v <= ct.hi))
                if op == '&' :
                    s.pc.append(Z.Implies(Z.And(x >= 0, y >= 0), Z.And(v >= 0, v <= x, v <= y)))
                yield s, v
                return
            raise Unsupported('operator %s' % op)
        if op == '+' and isinstance(a, (Seq, bytes)) and isinstance(b, (Seq, bytes)):
            if isinstance(a, bytes) and isinstance(b, bytes):
                yield s, a + b
                return
            yield s, self.concat(a, b)
            return
        if op == '+' and isinstance(a, str) and isinstance(b, str):
            yield s, a + b
            return
        if op == '*' and isinstance(a, bytes) and len(a) == 1 and isint(b):
            n = Ite(zi(b) > 0, b, 0)
            stv = Store(n)
            if a != b'\0': stv = stv.write(0, n, ('enc', 'B', a[0])) if False else None
            if stv is None: raise Unsupported('repeat')
            yield s, Seq(n, stv)
            return
        if op == '+' and any(isinstance(x, Ref) and x.cls == 'list' for x in (a, b)) and all(isinstance(x, Tup) or isinstance(x, Ref) and x.cls == 'list' and conc(s.get(x, 'L').n) is not None for x in (a, b)):
            xs = []
            for x in (a, b): xs += list(x.xs) if isinstance(x, Tup) else [s.get(x, 'L').item(s, i) for i in range(conc(s.get(x, 'L').n))]
            yield s, s.new('list', L=Lst(len(xs), lambda s, j: xs[conc(j)]))
            return
        h = self.local.get('binop')
        if h is not None:
            r = h(self, s, op, a, b)
            if r is not None:
                yield s, r
                return
        if 'text' in self.local and (isinstance(a, str) and op in '%+' or hasattr(a, 'dv_parts')) and not (op == '+' and isinstance(a, str) and isinstance(b, str)):
            yield s, self.local['text'].binop(self, s, op, a, b)
            return
        if op == '%' and isinstance(a, (str, bytes)):
            yield s, '<formatted>'
            return
        if op == '+' and isinstance(a, Tup) and isinstance(b, Tup):
            yield s, Tup(a.xs + b.xs)
            return
        if isinstance(a, (Seq, bytes, str)) and isint(b) and op in '+-' or isinstance(b, (Seq, bytes, str)) and isint(a) and op in '+-' or a is None or b is None:
            yield s, Exc('TypeError')
            return
        raise Unsupported('%s of %r and %r' % (op, a, b))
    def concat(self, a, b):
        if isinstance(a, bytes): a = seq_of(a)
        if isinstance(b, bytes): b = seq_of(b)
        n = simp(zi(a.len) + zi(b.len))
        stv = Store(n, None, ((a.len, n, ('copy', b.store, simp(-zi(a.len)))), (0, a.len, ('copy', a.store, 0))))
        return Seq(n, stv)
    def x_un(self, e, st):
        for s, v in self.ev(e.a[1], st):
            if isinstance(v, Exc):
                yield s, v
                continue
            if isbool(v): v = zi(v)
            op = e.a[0]
            if isinstance(v, float) and op in '+-':
                yield s, (-v if op == '-' else v)
                continue
            if not isint(v): raise Unsupported('unary %s' % e.a[0])
            r = simp(-zi(v)) if op == '-' else simp(-zi(v) - 1) if op == '~' else v
            yield s, self.crange(s, r, e.ct, 'unary ' + op) if op == '-' else r
    def x_tuple(self, e, st):
        for s, vs in self.evs(e.a[0], st): yield s, (vs if isinstance(vs, Exc) else Tup(vs))
    def x_list(self, e, st):
        for s, vs in self.evs(e.a[0], st): yield s, (vs if isinstance(vs, Exc) else Tup(vs))
    def x_addr(self, e, st):
        t = e.a[0]
        if t.op == 'name':
            v = st.env.get(t.a[0])
            if not isinstance(v, Box):
                b = Box(next(_n))
                st.heap[b.id] = {'v': v}
                st.env[t.a[0]] = v = b
            yield st, Addr(v)
        else: raise Unsupported('address of')
    def x_deref(self, e, st):
        ct = e.a[0]
        for s, vs in self.evs([e.a[1], e.a[2]], st):
            if isinstance(vs, Exc):
                yield s, vs
                continue
            yield s, self.load(s, vs[0], vs[1], ct)
    def kind_of(self, ct):
        if ct.kind == 'float': return 'f' if ct.bits == 32 else 'd'
        k = {8: 'b', 16: 'h', 32: 'i', 64: 'q'}[ct.bits]
        return k if ct.signed else k.upper()
    def limit(self, s, p):
        if isinstance(p.base, Seq): return p.base.len, p.base.store
        stv = s.stores[p.base]
        if not stv.live: self.ob('no-use-after-free', s, False)
        return stv.len, stv
    def load(self, s, p, i, ct):
        if isinstance(p, Addr): return s.heap[p.box.id]['v']
        if isinstance(p, Ref) and p.cls == 'carray':
            if conc(i) is None: raise Unsupported('array index')
            ok = conc(i) in s.heap[p.id]
            self.ob('read-in-bounds', s, ok, 'element %s of a local array' % i)
            return s.heap[p.id][conc(i)] if ok else fresh('uninit')
        if not isinstance(p, Ptr): raise Unsupported('dereference of %r' % (p,))
        if ct is None or ct.kind not in ('int', 'float'): raise Unsupported('load of type %s' % ct)
        n = ct.bits // 8
        off = simp(zi(p.off) + zi(i) * n)
        lim, stv = self.limit(s, p)
        g = And(zi(off) >= 0, zi(off) + n <= zi(lim))
        self.ob('read-in-bounds', s, g, 'a %d-byte read at offset %s' % (n, off))
        s.pc.append(zb(g))
        return stv.dec(self, s, self.kind_of(ct), off)
    def store_at(self, s, p, i, ct, v):
        if isinstance(p, Addr):
            s.heap[p.box.id] = {'v': v}
            return
        if isinstance(p, Ref) and p.cls == 'carray':
            if conc(i) is None: raise Unsupported('array index')
            self.ob('write-in-bounds', s, 0 <= conc(i) < s.heap[p.id]['len'], 'element %s of a local array' % i)
            s.heap[p.id][conc(i)] = v
            return
        n = ct.bits // 8
        off = simp(zi(p.off) + zi(i) * n)
        if isinstance(p.base, Seq): raise Unsupported('write into bytes')
        lim, stv = self.limit(s, p)
        g = And(zi(off) >= 0, zi(off) + n <= zi(lim))
        self.ob('write-in-bounds', s, g, 'a %d-byte write at offset %s' % (n, off))
        s.pc.append(zb(g))
        s.stores[p.base] = stv.write(off, simp(zi(off) + n), ('enc', self.kind_of(ct), v))
        self.touch(s, p.base, off, simp(zi(off) + n))
    def touch(self, s, sid, lo, hi):
        "ghost facts about the region are dropped unless it is disjoint from their footprint"
        keep = []
        for f in s.facts:
            if f.sid != sid or f.frame(self, s, lo, hi): keep.append(f)
        s.facts = keep

    def x_index(self, e, st):
        for s, vs in self.evs([e.a[0], e.a[1]], st):
            if isinstance(vs, Exc):
                yield s, vs
                continue
            for y in self.index(s, vs[0], vs[1]): yield y
    def index(self, s, o, i):
        if o is None:
            yield s, Exc('TypeError')
            return
        if isbool(i): i = simp(zi(i))
        if isinstance(o, Ref):
            h = BM.INDEX.get(o.cls)
            if h is not None:
                for x in h(self, s, o, i): yield x
                return
            c, f = self.w.method(o.cls, '__getitem__')
            if f is not None:
                for x in self.call_func(f, s, [o, i], {}): yield x
                return
        if not isint(i): raise Unsupported('index %r' % (i,))
        if isinstance(o, Tup):
            n = len(o.xs)
            c = conc(i)
            if c is not None:
                yield s, (o.xs[c] if -n <= c < n else Exc('IndexError'))
                return
            for k in range(-n, n):
                if self.feasible(s, zi(i) == k): yield s.fork(zi(i) == k), o.xs[k]
            if self.feasible(s, Or(zi(i) < -n, zi(i) >= n)): yield s.fork(Or(zi(i) < -n, zi(i) >= n)), Exc('IndexError')
            return
        if isinstance(o, bytes): o = seq_of(o)
        if isinstance(o, (SymTup, Seq)):
            n = o.n if isinstance(o, SymTup) else o.len
            for s2, neg in self.branch(s, zi(i) < 0):
                j = simp(zi(i) + zi(n)) if neg else i
                for s3, ok in self.branch(s2, And(zi(j) >= 0, zi(j) < zi(n))):
                    if not ok: yield s3, Exc('IndexError')
                    elif isinstance(o, SymTup): yield s3, o.item(s3, j)
                    else: yield s3, o.store.dec(self, s3, 'B', j)
            return
        raise Unsupported('index of %r' % (o,))
    def x_slice(self, e, st):
        es = [e.a[0]] + [x for x in e.a[1:] if x is not None]
        for s, vs in self.evs(es, st):
            if isinstance(vs, Exc):
                yield s, vs
                continue
            o, rest = vs[0], vs[1:]
            lo = rest.pop(0) if e.a[1] is not None else 0
            hi = rest.pop(0) if e.a[2] is not None else None
            for y in self.slice_(s, o, lo, hi): yield y
    def slice_(self, s, o, lo, hi):
        if o is None:
            yield s, Exc('TypeError')
            return
        if isinstance(o, Tup):
            a, b = conc(lo), (None if hi is None else conc(hi))
            if a is None or (hi is not None and b is None): raise Unsupported('slice of a tuple')
            yield s, Tup(o.xs[a:b])
            return
        if hasattr(o, 'dv_parts'):
            if getattr(o, 'dv_symbolic', False): yield s, o.slice(lo, hi)
            elif lo is not None and conc(lo) is None or hi is not None and conc(hi) is None: raise Unsupported('slice of a text at an unknown place')
            else: yield s, o.slice(None if lo is None else conc(lo), None if hi is None else conc(hi))
            return
        if isinstance(o, str):
            yield s, o[conc(lo):(None if hi is None else conc(hi))]
            return
        if isinstance(o, bytes): o = seq_of(o)
        if isinstance(o, Ref) and o.cls == 'bytearray':
            stv = s.stores[s.get(o, 'sid')]
            o = Seq(stv.len, stv)
        if isinstance(o, Ref) and o.cls == 'list':
            L = s.get(o, 'L')
            o = SymTup(L.n, L.item)
        if isinstance(o, SymTup):
            n = zi(o.n)
            a, b = conc(lo) if lo is not None else 0, None if hi is None else conc(hi)
            if a is None or a < 0 or (hi is not None and b is None): raise Unsupported('slice of a list')
            top = n if b is None else (Z.If(n < b, n, Z.IntVal(b)) if b >= 0 else n + b)
            m = simp(top - a)
            it = o.item
            yield s, SymTup(simp(Z.If(zi(m) < 0, 0, zi(m))), it if a == 0 else (lambda s, i: it(s, simp(zi(i) + a))))
            return
        if not isinstance(o, Seq): raise Unsupported('slice of %r' % (o,))
        n = zi(o.len)
        if lo is None: lo = 0
        def norm(s, v):
            for s2, neg in self.branch(s, zi(v) < 0):
                if neg:
                    for s3, under in self.branch(s2, zi(v) + n < 0): yield s3, (0 if under else simp(zi(v) + n))
                else:
                    for s3, over in self.branch(s2, zi(v) > n): yield s3, (o.len if over else v)
        for s1, a in norm(s, lo):
            for s2, b in (norm(s1, hi) if hi is not None else [(s1, o.len)]):
                for s3, empty in self.branch(s2, zi(b) <= zi(a)):
                    if empty: yield s3, Seq(0, Store(0))
                    else:
                        ln = simp(zi(b) - zi(a))
                        yield s3, Seq(ln, Store(ln, None, ((0, ln, ('copy', o.store, a)),)))
    def x_unsupported(self, e, st): raise Unsupported(str(e.a[0]))

    # ---- calls
    def x_call(self, e, st):
        f, args, kw = e.a
        for s, fv in self.ev(f, st):
            if isinstance(fv, Exc):
                yield s, fv
                continue
            ks = list(kw)
            for s2, vs in self.evs(list(args) + [kw[k] for k in ks], s):
                if isinstance(vs, Exc):
                    yield s2, vs
                    continue
                pos, kws = vs[:len(args)], dict(zip(ks, vs[len(args):]))
                for y in self.call(fv, s2, pos, kws, e): yield y
    def x_dictcall(self, e, st):
        for s, vs in self.evs([e.a[0], e.a[1]], st):
            if isinstance(vs, Exc):
                yield s, vs
                continue
            fv, d = vs
            if not (isinstance(d, Ref) and d.cls == 'dict'): raise Unsupported('** call of %r' % (d,))
            for y in self.call(fv, s, [], dict(s.heap[d.id]['items']), e): yield y
    def x_dict(self, e, st):
        for s, vs in self.evs(list(e.a[0]) + list(e.a[1]), st):
            if isinstance(vs, Exc):
                yield s, vs
                continue
            n = len(e.a[0])
            if not all(isinstance(k, (str, bytes)) for k in vs[:n]): raise Unsupported('dict keys')
            yield s, s.new('dict', items=dict(zip(vs[:n], vs[n:])))
    def x_dictcomp(self, e, st):
        for s, v in self.ev(e.a[0], st):
            if isinstance(v, Exc):
                yield s, v
                continue
            L = s.get(v, 'L')
            if conc(L.n) is None: raise Unsupported('a dict of unknown size')
            xs = [L.item(s, i).xs for i in range(conc(L.n))]
            if not all(isinstance(k, (str, bytes)) for k, _ in xs): raise Unsupported('dict keys')
            yield s, s.new('dict', items=dict((k, x) for k, x in xs))
    def x_starcall(self, e, st):
        for s, fv in self.ev(e.a[0], st):
            if isinstance(fv, Exc):
                yield s, fv
                continue
            for s2, v in self.ev(e.a[1], s):
                if isinstance(v, Exc):
                    yield s2, v
                    continue
                if not isinstance(v, Tup): raise Unsupported('star call of %r' % (v,))
                for y in self.call(fv, s2, list(v.xs), {}, e): yield y
    def x_yield(self, e, st):
        "a value handed to the consumer of a generator: the task that puts the generator under contract says what that is"
        for s, v in self.ev(e.a[0], st):
            if isinstance(v, Exc):
                yield s, v
                continue
            if 'yield' not in self.local or self.depth > 1: raise Unsupported('generator')
            for y in self.local['yield'](self, s, v): yield y
    def x_listcomp(self, e, st):
        (target, it, elt), ifs = e.a[:3], e.a[3:]
        for s, v in self.iter_value(it, st):
            if isinstance(v, Exc):
                yield s, v
                continue
            if isinstance(v, Tup): n, item = len(v.xs), (lambda xs: lambda s, i: xs[conc(i)])(v.xs)
            else: n, item = v
            env = dict(s.env)
            def at(s1, i):
                "outcomes of one element"
                s1.env = dict(env)
                for s2, o in self.assign(target, item(s1, i), s1):
                    if o is not None: yield s2, Exc(o[1])
                    else:
                        for y in kept(s2, list(ifs)): yield y
            def kept(s2, cs):
                if not cs:
                    for y in self.ev(elt, s2): yield y
                    return
                for s3, v in self.ev(cs[0], s2):
                    if isinstance(v, Exc):
                        yield s3, v
                        continue
                    for s4, b in self.branch(s3, self.truth(v, s3)):
                        if not b: yield s4, LEFT_OUT
                        else:
                            for y in kept(s4, cs[1:]): yield y
            if ifs and not isinstance(v, Tup) and conc(n) is None: raise Unsupported('a comprehension with a condition')
            if conc(n) is not None and conc(n) <= (32 if ifs else 8):
                def rec(s1, i, acc):
                    if i >= max(conc(n), 0):
                        s1.env = dict(env)
                        yield s1, s1.new('list', L=Lst(len(acc), (lambda acc: lambda s, j: acc[conc(j)])(acc)))
                        return
                    for s2, x in at(s1, i):
                        if isinstance(x, Exc): yield s2, x
                        else:
                            for y in rec(s2, i + 1, acc + ([x] if x is not LEFT_OUT else [])): yield y
                for y in rec(s, 0, []): yield y
                continue
            k = fresh('k')
            ok = 0
            e0 = self.effects(s)
            for s2, x in at(s.fork(And(k >= 0, k < zi(n))), k):
                if isinstance(x, Exc):
                    if self.feasible(s2): yield s2, x
                    continue
                ok += 1
                if self.changed(e0, self.effects(s2)): raise Unsupported('a comprehension with effects')
            if ok > 1: raise Unsupported('a comprehension with several paths')
            def get(s1, i):
                outs = [o for o in at(s1.fork(And(zi(i) >= 0, zi(i) < zi(n))), i) if not isinstance(o[1], Exc)]
                if len(outs) != 1: raise Unsupported('element of a comprehension')
                s2, x = outs[0]
                s1.pc, s1.heap, s1.stores, s1.facts, s1.ghost = s2.pc, s2.heap, s2.stores, s2.facts, s2.ghost
                return x
            s.env = env
            yield s, s.new('list', L=Lst(simp(Z.If(zi(n) > 0, zi(n), 0)), get))
    def call(self, fv, s, args, kw, e=None):
        if isinstance(fv, FnV):
            a = ([fv.self_] if fv.self_ is not None else []) + list(args)
            return self.call_func(fv.func, s, a, kw)
        if isinstance(fv, Builtin): return BM.call(self, fv, s, args, kw, e)
        if isinstance(fv, ClsV): return BM.construct(self, fv, s, args, kw)
        if isinstance(fv, Ref):
            c, f = self.w.method(fv.cls, '__call__')
            if f is not None: return self.call_func(f, s, [fv] + list(args), kw)
        if isinstance(fv, Opq) and fv.cls in BM.OCALL: return BM.OCALL[fv.cls](self, s, fv, args, kw)
        raise Unsupported('call of %r' % (fv,))

    def bind(self, func, s, args, kw):
        "yields (state, env or Exc)"
        ps = func.params
        if len(args) > len(ps):
            yield s, Exc('TypeError')
            return
        env = {}
        todo = []
        for i, (n, ct, d, pt) in enumerate(ps):
            if i < len(args): env[n] = args[i]
            elif n in kw: env[n] = kw[n]
            elif d is not None: todo.append((n, d))
            else:
                yield s, Exc('TypeError')
                return
        names = set(p[0] for p in ps)
        if any(k not in names for k in kw):
            yield s, Exc('TypeError')
            return
        def rec(s, todo, env):
            if not todo:
                yield s, env
                return
            n, d = todo[0]
            for s2, v in self.force(('expr', d, func.mod), s):
                e2 = dict(env)
                e2[n] = v
                for y in rec(s2, todo[1:], e2): yield y
        for y in rec(s, todo, env): yield y

    def call_func(self, func, s, args, kw, inline=False):
        c = self.local.get(func.key) or CONTRACTS.get((self.mode, func.key))
        for s1, env in self.bind(func, s, args, kw):
            if isinstance(env, Exc):
                yield s1, env
                continue
            for s2, env2 in self.coerce_args(func, s1, env):
                if isinstance(env2, Exc):
                    yield s2, env2
                    continue
                if c is not None and not inline and (c.key != self.where_key or self.depth > 0 or True):
                    self.used.add(func.key)
                    if getattr(c, 'trusted', False): self.trusted.add(func.key)
                    for y in c.apply(self, s2, env2): yield y
                else:
                    for y in self.run_body(func, s2, env2): yield y
    where_key = None

    def coerce_args(self, func, s, env):
        "C parameters and typed object parameters"
        if func.mod.mode != 'pyx':
            yield s, env
            return
        def rec(s, ps, env):
            if not ps:
                yield s, env
                return
            n, ct, d, pt = ps[0]
            v = env[n]
            if ct is not None and ct.kind in ('int', 'bool', 'float'):
                ok = (isint(v) or isbool(v) or isfloat(v))
                c = conc(v) if isint(v) else None
                if isint(v) and ct.kind == 'int' and not (c is not None and ct.lo <= c <= ct.hi):
                    if not self.known(s, And(zi(v) >= ct.lo, zi(v) <= ct.hi)):
                        # callers convert before the call (frompy/cast nodes); a Python-level call converts here
                        for s2, v2 in self.frompy(ct, v, s):
                            if isinstance(v2, Exc): yield s2, v2
                            else:
                                for y in rec(s2, ps[1:], env): yield y
                        return
                elif isbool(v) and ct.kind == 'int': env = dict(env, **{n: simp(zi(v))})
                elif isint(v) and ct.kind == 'bool': env = dict(env, **{n: simp(zi(v) != 0)})
                elif not ok:
                    for s2, v2 in self.frompy(ct, v, s):
                        if isinstance(v2, Exc): yield s2, v2
                        else:
                            for y in rec(s2, ps[1:], dict(env, **{n: v2})): yield y
                    return
            elif ct is None and pt not in (None, 'object'):
                bad = None
                if v is None or isinstance(v, Opt) and v.special is None: pass
                elif isinstance(v, Ref): bad = not (v.cls == pt or self.w.isa(v.cls, pt))
                elif isinstance(v, (Seq, bytes)): bad = pt != 'bytes'
                elif isinstance(v, ClsV): bad = pt != 'type'
                elif isinstance(v, (Tup, SymTup)): bad = pt not in ('tuple', 'list')
                elif isinstance(v, Opq): bad = v.cls is not None and v.cls != pt and v.cls not in self.local.get('any_class', ()) and not self.w.isa(v.cls, pt)
                elif isint(v) or isbool(v) or isfloat(v): bad = pt not in ('int', 'float', 'bool')
                elif isinstance(v, str): bad = pt not in ('str', 'unicode')
                if bad:
                    yield s, Exc('TypeError')
                    return
            for y in rec(s, ps[1:], env): yield y
        for y in rec(s, func.params, dict(env)): yield y

    def run_body(self, func, s, env):
        if self.depth > 12 or func.key in self.stack and self.stack.count(func.key) > 1: raise Unsupported('recursion in %s needs a contract' % func.key)
        self.inlined.add(func.key)
        old, oldcur = s.env, self.current
        s.env = dict(env)
        saved_loop = getattr(self, 'loopno', 0)
        self.depth += 1
        self.stack.append(func.key)
        self.current = func
        res = []
        try:
            res = list(self.block(func.body, s))
        finally:
            self.depth -= 1
            self.stack.pop()
            self.current = oldcur
        for s2, out in res:
            s2.env = dict(old)
            self.paths += 1
            if self.paths > 6000: raise Unsupported('too many paths')
            if out is None: out = ('return', None)
            if out[0] == 'return':
                v = out[1]
                if func.mod.mode == 'pyx' and func.ret is not None and func.ret.kind == 'bool' and isint(v): v = self.truth(v, s2)
                if func.mod.mode == 'pyx' and func.ret is not None and func.ret.kind == 'int':
                    if v is None: v = 0
                    if isbool(v): v = simp(zi(v))
                    if isint(v): v = self.ccast(func.ret, v, s2, False, None)
                yield s2, v
            elif out[0] == 'raise':
                if func.mod.mode == 'pyx' and func.kind == 'cdef' and func.exc is not None and func.exc[0] is None and not func.exc[1] and func.ret is not None:
                    self.ob('no-exception-lost', s2, False, '%s raised in a noexcept function' % out[1])
                    yield s2, 0
                else:
                    yield s2, Exc(out[1])
            else:
                raise Unsupported('break outside a loop')

    # ---- statements: generators of (state, outcome); outcome None, ('return', v), ('raise', cls), ('break',), ('continue',)
    def block(self, ss, st):
        if not ss:
            yield st, None
            return
        for s, o in self.stmt(ss[0], st):
            if o is not None: yield s, o
            else:
                for y in self.block(ss[1:], s): yield y
    def stmt(self, x, st):
        m = getattr(self, 's_' + {'if': 'if_', 'while': 'while_', 'for': 'for_', 'return': 'return_', 'raise': 'raise_', 'assert': 'assert_', 'try': 'try_', 'break': 'break_',
                                  'continue': 'continue_', 'pass': 'pass_'}.get(x.op, x.op))
        return m(x, st)
    def s_unsupported(self, x, st):
        if x.a[0] in ('OverrideCheckNode', 'CythonArrayNode', 'FromImportStatNode', 'CFuncDefNode'):
            yield st, None
            return
        raise Unsupported('statement %s' % x.a[0])
    def s_expr(self, x, st):
        for s, v in self.ev(x.a[0], st): yield s, (('raise', v.cls) if isinstance(v, Exc) else None)
    def s_return_(self, x, st):
        for s, v in self.ev(x.a[0], st): yield s, (('raise', v.cls) if isinstance(v, Exc) else ('return', v))
    def s_raise_(self, x, st):
        c = x.a[0]
        if c is None: c = st.ghost.get('exc', 'Exception')
        if '.' in c and c != 'struct.error': c = c.split('.')[-1]
        yield st, ('raise', c)
    def s_assert_(self, x, st):
        for s, v in self.ev(x.a[0], st):
            if isinstance(v, Exc):
                yield s, ('raise', v.cls)
                continue
            for s2, b in self.branch(s, self.truth(v, s)): yield s2, (None if b else ('raise', 'AssertionError'))
    def s_pass_(self, x, st): yield st, None
    def s_break_(self, x, st): yield st, ('break',)
    def s_continue_(self, x, st): yield st, ('continue',)
    def s_if_(self, x, st):
        if 'merge_if' in self.local and not x.a[2]:
            r = self.local['merge_if'](self, x, st)
            if r is not None:
                for y in r: yield y
                return
        for s, v in self.ev(x.a[0], st):
            if isinstance(v, Exc):
                yield s, ('raise', v.cls)
                continue
            for s2, b in self.branch(s, self.truth(v, s)):
                for y in self.block(x.a[1] if b else x.a[2], s2): yield y
    def s_try_(self, x, st):
        body, handlers, orelse = x.a
        for s, o in self.block(body, st):
            if o is None:
                for y in self.block(orelse, s): yield y
            elif o[0] == 'raise':
                for cl, nm, hb in handlers:
                    if any(exc_isa(o[1], c) for c in cl if c):
                        if nm: s.env[nm] = Opq(fresho('exc'), 'exc')
                        s.ghost = dict(s.ghost, exc=o[1])
                        for y in self.block(hb, s): yield y
                        break
                else:
                    yield s, o
            else:
                yield s, o
    def appended(self, t):
        "is this assignment target a list that the function appends to?"
        key = t.a[0] if t.op == 'name' else t.a[1] if t.op in ('attr', 'cmeth') else None
        if key is None: return False
        if t.op in ('attr', 'cmeth'): return True
        c = self.__dict__.setdefault('_app', {})
        fk = id(self.current)
        if fk not in c:
            out = set()
            def go(v):
                if isinstance(v, E):
                    if v.op in ('attr', 'cmeth') and v.a[1] in ('append', 'extend') and isinstance(v.a[0], E) and v.a[0].op in ('name', 'nonecheck'):
                        b = v.a[0]
                        while b.op == 'nonecheck': b = b.a[0]
                        if b.op == 'name': out.add(b.a[0])
                    for y in v.a: go(y)
                elif isinstance(v, S):
                    for y in v.a: go(y)
                elif isinstance(v, (list, tuple)):
                    for y in v: go(y)
                elif isinstance(v, dict):
                    for y in v.values(): go(y)
            go(self.current.body)
            c[fk] = out
        return key in c[fk]
    def s_assign(self, x, st):
        targets, e = x.a
        if e is not None and e.op == 'list' and len(targets) == 1 and self.appended(targets[0]):
            for s, vs in self.evs(e.a[0], st):
                if isinstance(vs, Exc):
                    yield s, ('raise', vs.cls)
                    continue
                L = empty_list()
                for v in vs: L = L.append(self, s, v)
                for y in self.assign(targets[0], s.new('list', L=L), s): yield y
            return
        for s, v in self.ev(e, st):
            if isinstance(v, Exc):
                yield s, ('raise', v.cls)
                continue
            for y in self.assign_all(targets, v, s): yield y
    def assign_all(self, ts, v, s):
        if not ts:
            yield s, None
            return
        for s2, o in self.assign(ts[0], v, s):
            if o is not None: yield s2, o
            else:
                for y in self.assign_all(ts[1:], v, s2): yield y
    def assign(self, t, v, s):
        if t.op == 'name':
            ct = None
            if self.current is not None and t.a[0] in self.current.locals: ct = self.current.locals[t.a[0]][0]
            if ct is not None and ct.kind == 'int' and (isint(v) or isbool(v)): v = self.ccast(ct, v, s, False)
            elif ct is not None and ct.kind == 'bool': v = self.truth(v, s)
            if isinstance(s.env.get(t.a[0]), Box): s.heap[s.env[t.a[0]].id] = {'v': v}
            else: s.env[t.a[0]] = v
            yield s, None
        elif t.op in ('tuple', 'list'):
            if isinstance(v, Ref) and v.cls == 'list' and 'L' in s.heap[v.id]:
                L = s.get(v, 'L')
                if conc(L.n) is not None and conc(L.n) < 16: v = Tup([L.item(s, i) for i in range(conc(L.n))])
            if isinstance(v, Tup):
                if len(v.xs) != len(t.a[0]):
                    yield s, ('raise', 'ValueError')
                    return
                def rec(s, i):
                    if i == len(v.xs):
                        yield s, None
                        return
                    for s2, o in self.assign(t.a[0][i], v.xs[i], s):
                        if o is not None: yield s2, o
                        else:
                            for y in rec(s2, i + 1): yield y
                for y in rec(s, 0): yield y
            else: raise Unsupported('unpacking %r' % (v,))
        elif t.op in ('attr', 'cmeth'):
            for s2, o in self.ev(t.a[0], s):
                if isinstance(o, Exc):
                    yield s2, ('raise', o.cls)
                    continue
                if not isinstance(o, Ref): raise Unsupported('attribute assignment to %r' % (o,))
                if self.cmode:
                    ct = self.w.field_ct(o.cls, t.a[1])
                    if ct is not None and ct.kind == 'int' and isint(v): v = self.ccast(ct, v, s2, False)
                s2.heap[o.id] = dict(s2.heap[o.id], **{t.a[1]: v})
                yield s2, None
        elif t.op == 'deref':
            for s2, vs in self.evs([t.a[1], t.a[2]], s):
                if isinstance(vs, Exc):
                    yield s2, ('raise', vs.cls)
                    continue
                ct = t.a[0]
                if ct.kind == 'int':
                    # assignment converts
                    v2 = self.ccast(ct, v, s2, False) if (isint(v) or isbool(v)) else v
                else: v2 = v
                self.store_at(s2, vs[0], vs[1], ct, v2)
                yield s2, None
        elif t.op == 'slice':
            es = [t.a[0]] + [y for y in t.a[1:] if y is not None]
            for s2, vs in self.evs(es, s):
                if isinstance(vs, Exc):
                    yield s2, ('raise', vs.cls)
                    continue
                for y in BM.slice_assign(self, s2, vs, t, v): yield y
        elif t.op == 'index':
            for s2, vs in self.evs([t.a[0], t.a[1]], s):
                if isinstance(vs, Exc):
                    yield s2, ('raise', vs.cls)
                    continue
                o, i = vs
                h = BM.SETINDEX.get(o.cls) if isinstance(o, Ref) else None
                if h is None: raise Unsupported('item assignment')
                r = h(self, s2, o, i, v)
                if r is None: yield s2, None
                else:
                    for y in r: yield y
        elif t.op == 'unsupported' or True:
            raise Unsupported('assignment to %s' % t.op)
    def s_aug(self, x, st):
        op, t, e = x.a
        if t.op == 'name':
            for s, vs in self.evs([t, e], st):
                if isinstance(vs, Exc):
                    yield s, ('raise', vs.cls)
                    continue
                a, b = vs
                if isinstance(a, Ref) and a.cls == 'bytearray':
                    for y in BM.bytearray_extend(self, s, a, b): yield y
                    continue
                for s2, v in self.binop(op, a, b, s, t.ct):
                    if isinstance(v, Exc): yield s2, ('raise', v.cls)
                    else:
                        for y in self.assign(t, v, s2): yield y
        elif t.op in ('attr', 'cmeth'):
            for s, vs in self.evs([t.a[0], e], st):
                if isinstance(vs, Exc):
                    yield s, ('raise', vs.cls)
                    continue
                o, b = vs
                for s2, a in self.getattr_(s, o, t.a[1]):
                    if isinstance(a, Ref) and a.cls == 'bytearray':
                        for y in BM.bytearray_extend(self, s2, a, b): yield y
                        continue
                    ct = self.w.field_ct(o.cls, t.a[1]) if self.cmode else None
                    for s3, v in self.binop(op, a, b, s2, ct):
                        if isinstance(v, Exc): yield s3, ('raise', v.cls)
                        else:
                            s3.heap[o.id] = dict(s3.heap[o.id], **{t.a[1]: v})
                            yield s3, None
        elif t.op == 'index' and all(pure(z) for z in t.a):
            for s, vs in self.evs([t, e], st):
                if isinstance(vs, Exc):
                    yield s, ('raise', vs.cls)
                    continue
                for s2, v in self.binop(op, vs[0], vs[1], s, None):
                    if isinstance(v, Exc): yield s2, ('raise', v.cls)
                    else:
                        for y in self.assign(t, v, s2): yield y
        else:
            raise Unsupported('augmented assignment')

    # ---- loops
    def assigned(self, body):
        out = set()
        def tgt(t):
            if t.op == 'name': out.add(t.a[0])
            elif t.op in ('tuple', 'list'):
                for y in t.a[0]: tgt(y)
        def go(ss):
            for x in ss:
                if x.op == 'assign':
                    for t in x.a[0]: tgt(t)
                elif x.op == 'aug': tgt(x.a[1])
                elif x.op == 'if': go(x.a[1]); go(x.a[2])
                elif x.op == 'while': go(x.a[1]); go(x.a[2])
                elif x.op == 'for': tgt(x.a[0]); go(x.a[2]); go(x.a[3])
                elif x.op == 'try':
                    go(x.a[0])
                    for _, nm, b in x.a[1]:
                        if nm: out.add(nm)
                        go(b)
                    go(x.a[2])
        go(body)
        return out
    def names_in(self, e, out=None):
        out = set() if out is None else out
        if isinstance(e, E):
            if e.op == 'name': out.add(e.a[0])
            if e.op in ('call', 'attr', 'cmeth', 'index', 'deref', 'slice'): out.add('$effect')
            for y in e.a: self.names_in(y, out)
        elif isinstance(e, (list, tuple)):
            for y in e: self.names_in(y, out)
        return out
    def induction(self, body, mods, st):
        "variables that change by a loop-invariant amount exactly once per iteration (whatever the path, no continue before)"
        out = {}
        count = {}
        def cnt(ss):
            for x in ss:
                for n in self.assigned([x]):
                    pass
                if x.op == 'assign':
                    for t in x.a[0]:
                        for n in self.assigned([S('assign', [t], None)]): count[n] = count.get(n, 0) + 1
                elif x.op == 'aug':
                    for n in self.assigned([x]): count[n] = count.get(n, 0) + 1
                elif x.op == 'if': cnt(x.a[1]); cnt(x.a[2])
                elif x.op in ('while',): cnt(x.a[1])
                elif x.op == 'for':
                    for n in self.assigned([x]): count[n] = count.get(n, 0) + 1
                    cnt(x.a[2])
                elif x.op == 'try':
                    cnt(x.a[0])
                    for h in x.a[1]: cnt(h[2])
        cnt(body)
        before_continue = False
        def has_continue(ss):
            for x in ss:
                if x.op == 'continue': return True
                if x.op == 'if' and (has_continue(x.a[1]) or has_continue(x.a[2])): return True
                if x.op == 'try' and has_continue(x.a[0]): return True
            return False
        for x in body:
            if x.op == 'aug' and x.a[0] in '+-' and x.a[1].op == 'name': n, op, d = x.a[1].a[0], x.a[0], x.a[2]
            elif x.op == 'assign' and len(x.a[0]) == 1 and x.a[0][0].op == 'name' and x.a[1].op == 'bin' and x.a[1].a[0] in '+-' and x.a[1].a[1].op == 'name' and x.a[1].a[1].a[0] == x.a[0][0].a[0]:
                n, op, d = x.a[0][0].a[0], x.a[1].a[0], x.a[1].a[2]
            else:
                n = None
            if n is not None and not before_continue and count.get(n) == 1 and not (self.names_in(d) & (mods | {'$effect'})):
                try:
                    r = list(self.ev(d, st.fork()))
                    if len(r) == 1 and isint(r[0][1]) and isint(st.env.get(n)):
                        out[n] = r[0][1] if op == '+' else simp(-zi(r[0][1]))
                except Unsupported:
                    pass
            if has_continue([x]): before_continue = True
        return out

    def loop_index(self, x):
        "ordinal of this loop in its function"
        n = [0]
        found = []
        def go(ss):
            for y in ss:
                if y.op in ('while', 'for'):
                    if y is x: found.append(n[0])
                    n[0] += 1
                if y.op == 'while': go(y.a[1]); go(y.a[2])
                elif y.op == 'for': go(y.a[2]); go(y.a[3])
                elif y.op == 'if': go(y.a[1]); go(y.a[2])
                elif y.op == 'try':
                    go(y.a[0])
                    for h in y.a[1]: go(h[2])
                    go(y.a[2])
        go(self.current.body)
        return found[0] if found else None

    def fresh_like(self, n, v, st):
        ct = self.current.locals.get(n, (None,))[0]
        if isint(v) or isbool(v) and ct is not None:
            f = fresh(n)
            if ct is not None and ct.kind == 'int': st.pc.append(Z.And(f >= ct.lo, f <= ct.hi))
            return f
        if isbool(v): return freshb(n)
        if isinstance(v, Seq):
            k = '%s_%d' % (n, next(_n))
            ln = fresh('len_' + n)
            st.pc.append(ln >= 0)
            return Seq(ln, Store(ln, k))
        if v is None or isinstance(v, (Ref, Ptr, str, bytes)): raise Unsupported('loop changes %s' % n)
        raise Unsupported('loop changes %s' % n)

    def s_while_(self, x, st):
        cond, body, orelse = x.a
        for y in self.do_loop(x, st, cond, None, None, body, orelse): yield y
    def s_for_(self, x, st):
        target, it, body, orelse = x.a
        for s, v in self.iter_value(it, st):
            if isinstance(v, Exc):
                yield s, ('raise', v.cls)
                continue
            if isinstance(v, Tup):
                for y in self.unroll(x, s, target, list(v.xs), body, orelse): yield y
                continue
            n, item = v
            c = conc(n)
            if c is not None and c <= 20:
                for y in self.unroll(x, s, target, [item(s, i) for i in range(max(c, 0))], body, orelse): yield y
                continue
            for y in self.do_loop(x, s, None, target, (n, item), body, orelse): yield y
    def iter_value(self, it, st):
        if it.op == 'topy': it = it.a[0]
        if it.op == 'call' and it.a[0].op in ('name', 'cname') and it.a[0].a[0] in ('range', 'xrange'):
            for s, vs in self.evs(it.a[1], st):
                if isinstance(vs, Exc):
                    yield s, vs
                    continue
                if len(vs) == 1: lo, hi = 0, vs[0]
                elif len(vs) == 2: lo, hi = vs
                else: raise Unsupported('range with a step')
                n = simp(zi(hi) - zi(lo))
                yield s, (n, (lambda lo: lambda s, i: simp(zi(lo) + zi(i)))(lo))
            return
        for s, v in self.ev(it, st):
            if isinstance(v, Exc): yield s, v
            elif isinstance(v, Tup): yield s, v
            elif isinstance(v, SymTup): yield s, (v.n, v.item)
            elif v is None or isint(v): yield s, Exc('TypeError')
            elif isinstance(v, (Ref, Opq)) and v.cls in BM.ITER:
                for y in BM.ITER[v.cls](self, s, v): yield y
            else: raise Unsupported('iteration over %r' % (v,))
    def unroll(self, x, s, target, items, body, orelse):
        if not items:
            for y in self.block(orelse, s): yield y
            return
        for s1, o in self.assign(target, items[0], s):
            if o is not None:
                yield s1, o
                continue
            for s2, o2 in self.block(body, s1):
                if o2 is None or o2[0] == 'continue':
                    for y in self.unroll(x, s2, target, items[1:], body, orelse): yield y
                elif o2[0] == 'break': yield s2, None
                else: yield s2, o2

    def do_loop(self, x, st, cond, target, it, body, orelse):
        "candidate invariants (spec.cands) that do not hold at entry or are not preserved are dropped until the rest is inductive"
        if orelse: raise Unsupported('loop else')
        idx = self.loop_index(x)
        spec = LOOPS.get((self.mode, self.current.key, idx))
        self.cut = True
        if self.unroll_bound:
            for y in self.first_iterations(x, st, st, cond, target, it, body, spec, 0): yield y
            return
        live = None
        if spec is not None and spec.cands is not None:
            live = set(nm for nm, f in spec.cands(self, st, st, 0) if self.known(st, f))
            while live:
                nob, cnt, cur, stk, dep, loc = len(self.obs), dict(self.counts), self.current, list(self.stack), self.depth, st.fork()
                bad = set()
                self.trial = getattr(self, 'trial', 0) + 1
                try:
                    for _ in self.do_loop2(x, loc, cond, target, it, body, idx, spec, live, bad): pass
                finally:
                    self.trial -= 1
                    del self.obs[nob:]
                    self.counts, self.current, self.stack, self.depth = cnt, cur, stk, dep
                if not bad: break
                live -= bad
        for y in self.do_loop2(x, st, cond, target, it, body, idx, spec, live, None): yield y
    def first_iterations(self, x, st0, st, cond, target, it, body, spec, k):
        "the first iterations as they are, without an invariant; longer runs are dropped (diagnosis of a loop its invariant does not fit)"
        def enter(s):
            if it is None:
                for s1, v in self.ev(cond, s):
                    if isinstance(v, Exc):
                        yield s1, ('raise', v.cls)
                        continue
                    for s2, b in self.branch(s1, self.truth(v, s1)): yield s2, ('body' if b else 'exit')
                return
            for s1, more in self.branch(s, simp(zi(it[0]) > k)):
                if not more: yield s1, 'exit'
                elif k < self.unroll_bound:
                    for s2, o in self.assign(target, it[1](s1, k), s1): yield s2, ('body' if o is None else o)
        cases = [st]
        if spec is not None and spec.unfold is not None: spec.unfold(self, st0, st, k)
        elif self.unfolds: st.ghost['approx'] = 'the definitions are not unfolded in this loop'
        if spec is not None and spec.split is not None: cases = [y for y in (st.fork(c) for c in spec.split(self, st0, st, Z.IntVal(k))) if self.feasible(y)]
        for s, what in (y for c in cases for y in enter(c)):
            if what == 'exit': yield s, None
            elif what != 'body': yield s, what
            elif k < self.unroll_bound:
                for s2, o in self.block(body, s):
                    if o is None or o[0] == 'continue':
                        for y in self.first_iterations(x, st0, s2, cond, target, it, body, spec, k + 1): yield y
                    elif o[0] == 'break': yield s2, None
                    else: yield s2, o
    def do_loop2(self, x, st, cond, target, it, body, idx, spec, live, bad):
        lname = 'loop%s@%s' % (idx, self.current.qual)
        mods = self.assigned(body)
        tnames = self.assigned([S('for', target, None, [], [])]) if target is not None else set()
        mods |= tnames
        ind = self.induction(body, mods, st)
        st0 = st.fork()
        k = fresh('k')
        # invariant holds at entry
        def check(kind, s, kk):
            if spec is None or spec.inv is None: return
            for nm, f in spec.inv(self, st0, s, kk): self.ob('%s/%s/%s' % (lname, kind, nm), s, f)
        def check_cands(kind, s, kk):
            if not live: return
            for nm, f in spec.cands(self, st0, s, kk):
                if nm not in live: continue
                if bad is None: self.ob('%s/%s/%s' % (lname, kind, nm), s, f)
                elif nm not in bad and not self.known(s, f): bad.add(nm)
        check('init', st, 0)
        if bad is None: check_cands('init', st, 0)
        # an arbitrary iteration
        h = st.fork(k >= 0)
        for n in mods:
            if n in tnames:
                h.env.pop(n, None)
                continue
            if n in ind: h.env[n] = simp(zi(st.env[n]) + k * zi(ind[n]))
            elif spec is not None and n in spec.values: h.env[n] = spec.values[n](self, h)
            elif n in h.env: h.env[n] = self.fresh_like(n, h.env[n], h)
        may = set()
        if spec is not None and spec.havoc is not None: may = set(spec.havoc(self, st0, h, k) or ())
        if spec is None and any(n in h.env and n not in ind and n not in tnames for n in mods): h.ghost['approx'] = 'loop without an invariant: ' + lname
        eff0 = self.effects(h)
        if it is not None: h.pc.append(k <= Z.If(zi(it[0]) > 0, zi(it[0]), 0))
        for n in ind:
            ct = self.current.locals.get(n, (None,))[0]
            # the overflow obligation of the previous iteration's step gives its range
            if ct is not None and ct.kind == 'int': h.pc.append(Z.And(zi(h.env[n]) >= ct.lo, zi(h.env[n]) <= ct.hi))
        if spec is not None and spec.inv is not None:
            for nm, f in spec.inv(self, st0, h, k): h.pc.append(zb(f))
        if live:
            for nm, f in spec.cands(self, st0, h, k):
                if nm in live: h.pc.append(zb(f))
        if spec is not None and spec.facts is not None:
            for f in spec.facts(self, st0, h, k): h.facts.append(f)
        if not self.feasible(h): raise Unsupported('the invariant of %s is contradictory' % lname)
        def iterate(h):
            if it is not None:
                for s, more in self.branch(h.fork(), k < zi(it[0])):
                    if not more:
                        yield s, 'exit'
                        continue
                    for s2, o in self.assign(target, it[1](s, k), s): yield s2, ('body' if o is None else o)
            else:
                for s, v in self.ev(cond, h.fork()):
                    if isinstance(v, Exc):
                        yield s, ('raise', v.cls)
                        continue
                    for s2, b in self.branch(s, self.truth(v, s)): yield s2, ('body' if b else 'exit')
        def cases():
            if spec is None or spec.split is None:
                for y in iterate(h): yield y
                return
            cs = spec.split(self, st0, h, k)
            self.ob('%s/cases-cover' % lname, h, Or(*cs))
            for c in cs:
                h2 = h.fork(c)
                if self.feasible(h2):
                    for y in iterate(h2): yield y
        for s, what in cases():
            if what == 'exit':
                if it is not None:
                    # value of the loop variable after the loop
                    s.pc.append(k == Z.If(zi(it[0]) > 0, zi(it[0]), 0))
                    if target.op == 'name':
                        for s2, none in self.branch(s, zi(it[0]) <= 0):
                            if none:
                                if target.a[0] in st.env: s2.env[target.a[0]] = st.env[target.a[0]]
                            else: s2.env[target.a[0]] = it[1](s2, simp(zi(it[0]) - 1))
                            yield s2, None
                        continue
                yield s, None
                continue
            if what != 'body':
                yield s, what
                continue
            for s2, o in self.block(body, s):
                if o is None or o[0] == 'continue':
                    ch = self.changed(eff0, self.effects(s2)) - may
                    if ch: raise Unsupported('%s has effects its contract does not cover: %s' % (lname, sorted(map(str, ch))[:3]))
                    check('preserved', s2, k + 1)
                    check_cands('preserved', s2, k + 1)
                    for n in ind:
                        self.ob('%s/induction-variable' % lname, s2, zi(s2.env[n]) == zi(st.env[n]) + (k + 1) * zi(ind[n]))
                    if spec is not None and getattr(spec, 'facts_check', None) is not None:
                        for nm, f in spec.facts_check(self, st0, s2, k): self.ob('%s/preserved/%s' % (lname, nm), s2, f)
                elif o[0] == 'break': yield s2, None
                else: yield s2, o
    def effects(self, s):
        d = dict((('heap', i, a), v) for i, h in s.heap.items() for a, v in h.items())
        d.update((('store', i), v) for i, v in s.stores.items())
        return d
    def changed(self, a, b):
        "what existed before and differs now (values are immutable, so identity is enough; equal terms are the same)"
        def same(v, w):
            if v is w: return True
            if isinstance(v, int) and isinstance(w, int): return v == w
            if isinstance(v, Z.ExprRef) and isinstance(w, Z.ExprRef): return v.eq(w)
            return False
        return set(k for k in a if k not in b or not same(a[k], b[k]))
BM.init(_sys.modules[__name__])
BM.late_values()
BM.late_types()
