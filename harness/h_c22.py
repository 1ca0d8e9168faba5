"""C22: random schemas with constants of every type, at every scope, and imported files (some with the same base name); the values and types are read off the generated module"""
import os, sys, random, shutil, struct, tempfile
import py
from core import case, enum
import mods
from mods import PYPY
from capnpy import annotate
from capnpy.compiler.compiler import DynamicCompiler
KW = ['from', 'class', 'is', 'in', 'as', 'def', 'lambda', 'pass']
INTS = dict(Int8=(-2**7, 2**7 - 1), Int16=(-2**15, 2**15 - 1), Int32=(-2**31, 2**31 - 1), Int64=(-2**63, 2**63 - 1), UInt8=(0, 2**8 - 1), UInt16=(0, 2**16 - 1), UInt32=(0, 2**32 - 1), UInt64=(0, 2**64 - 1))
inf, nan = float('inf'), float('nan')

class Struct:
    "a struct type: path (file alias or None, names), fields [(name, type)]"
    def __init__(self, ref, path, fields): self.ref, self.path, self.fields = ref, path, fields
class Enum:
    def __init__(self, ref, path, members): self.ref, self.path, self.members = ref, path, members
def tname(t):
    if isinstance(t, str): return t
    if isinstance(t, tuple): return 'List(%s)' % tname(t[1])
    return t.ref

class Gen:
    def __init__(self, rng, refl):
        self.rng, self.refl, self.n = rng, refl, 0
        self.structs, self.enums = [], []         # those already declared, usable as types
        self.consts = []                          # (module path or None, attribute path, type, value)
    def uid(self): self.n += 1; return self.n
    def simple(self):
        r = self.rng
        return r.choice(list(INTS) + ['Bool', 'Void', 'Float32', 'Float64', 'Text', 'Data'])
    def type(self, depth=2):
        r = self.rng
        k = r.random()
        if k < 0.2 and self.structs: return r.choice(self.structs)
        if k < 0.35 and self.enums: return r.choice(self.enums)
        if k < 0.6 and depth: return ('list', self.type(depth - 1))
        return self.simple()
    def float(self, t):
        r = self.rng
        v = r.choice([0.0, -0.0, 1.0, 0.1, -1.5e10, 3.4e38, 1e-45, 5e-324, 1.7976931348623157e308, inf, -inf, nan, r.uniform(-1e6, 1e6), r.gauss(0, 1) * 10 ** r.randrange(-300, 300)])
        if t == 'Float32':
            if abs(v) < inf and abs(v) > 3.4028234e38: v = 2.5
            v = struct.unpack('<f', struct.pack('<f', v))[0]
        return v
    def value(self, t, depth=3):
        "(text, plain value)"
        r = self.rng
        if t in INTS:
            lo, hi = INTS[t]
            v = r.choice([lo, hi, 0, 1, r.randint(lo, hi), max(lo, -1), r.randint(max(lo, -5), 5)])
            return str(v), v
        if t == 'Bool': v = r.random() < 0.5; return str(v).lower(), v
        if t == 'Void': return 'void', None
        if t in ('Float32', 'Float64'): v = self.float(t); return repr(v), v
        if t == 'Text':
            v = ''.join(r.choice('ab \'"\\\n\t\x01\x7f\u00e9\u20ac\U0001f600{}%%s') for _ in range(r.choice([0, 1, 3, 8, 20])))
            return '"%s"' % ''.join({'"': '\\"', '\\': '\\\\', '\n': '\\n', '\t': '\\t', '\x01': '\\x01'}.get(c, c) for c in v), v.encode('utf-8')
        if t == 'Data':
            v = bytes(bytearray(r.randrange(256) for _ in range(r.choice([0, 1, 3, 8, 9]))))
            return ('0x"%s"' if v else '"%s"') % ' '.join('%02x' % c for c in bytearray(v)), v
        if isinstance(t, tuple):
            xs = [self.value(t[1], depth - 1) for _ in range(r.choice([0, 1, 2, 3, 9]) if depth > 0 else 0)]
            return '[%s]' % ', '.join(x[0] for x in xs), [x[1] for x in xs]
        if isinstance(t, Enum): i = r.randrange(len(t.members)); return t.members[i], i
        d, out = {}, []
        for n, ft in t.fields:
            if r.random() < (0.7 if depth > 0 else 0.0):
                s, v = self.value(ft, depth - 1)
                out.append('%s = %s' % (n, s))
            else: v = default(ft)
            d[n] = v
        return '(%s)' % ', '.join(out), d
    def body(self, alias, mod, path, depth):
        "declarations of one scope"
        r, out = self.rng, []
        dot = (alias + '.' if alias else '')
        # declarations may come in any order: what the constants use is declared before or after them
        for _ in range(r.randrange(1, 3)):
            if r.random() < 0.4:
                n = 'E%d' % self.uid()
                m = ['item%d%s' % (i, 'AbC'[:i % 4]) for i in range(r.randrange(1, 5))]
                out.append('enum %s { %s }' % (n, ' '.join('%s @%d;' % (x, i) for i, x in enumerate(m))))
                self.enums.append(Enum('.'.join([alias] * bool(alias) + path + [n]), (mod, path + [n]), m))
            else: out.append(self.struct(alias, mod, path, depth - 1))
        for _ in range(r.randrange(0, 5)):
            t = self.type()
            if not self.refl and isinstance(t, tuple): continue
            n = r.choice(KW) if r.random() < 0.06 else 'con%d' % self.uid()
            if any(c[1] == path + [n] and c[0] == mod for c in self.consts): continue
            s, v = self.value(t)
            out.append('const %s : %s = %s;' % (n, tname(local(t, alias)), s))
            self.consts.append((mod, path + [n], t, v))
        r.shuffle(out)
        return out
    def struct(self, alias, mod, path, depth):
        r = self.rng
        n = 'S%d' % self.uid()
        me = Struct('.'.join([alias] * bool(alias) + path + [n]), (mod, path + [n]), [])
        fs = [('fld%d' % i, self.type(1)) for i in range(r.randrange(1, 5))]
        if r.random() < 0.2: fs.append(('fld%d' % len(fs), ('list', me) if r.random() < 0.5 else me))
        me.fields = fs
        self.structs.append(me)
        inner = self.body(alias, mod, path + [n], depth) if depth > 0 and r.random() < 0.7 else []
        return 'struct %s {\n%s\n%s\n}' % (n, '\n'.join('%s @%d : %s;' % (f, i, tname(local(t, alias))) for i, (f, t) in enumerate(fs)), '\n'.join(inner))
def local(t, alias):
    "a type of the file being written, as it is written there"
    class L:
        pass
    if isinstance(t, tuple): return ('list', local(t[1], alias))
    if isinstance(t, str): return t
    x = L()
    x.ref = '.' + t.ref[len(alias) + 1:] if alias and t.ref.startswith(alias + '.') else ('.' + t.ref if t.path[0] is None and not alias else t.ref)
    return x
def default(t):
    if t == 'Void': return None
    if t == 'Bool': return False
    if t in INTS or isinstance(t, Enum): return 0
    if t in ('Float32', 'Float64'): return 0.0
    if isinstance(t, Struct) or isinstance(t, tuple) or t in ('Text', 'Data'): return NULL
NULL = object()

def schema(rng, refl, root):
    """files: two imported ones, perhaps with the same base name, and the main one"""
    g = Gen(rng, refl)
    tag = '%08x' % rng.getrandbits(32)
    same = rng.random() < 0.5
    names = ['a/m%s.capnp' % tag, ('b/m%s.capnp' if same else 'b/n%s.capnp') % tag]
    if rng.random() < 0.2: names.append('m%s.capnp' % tag)
    ids = set()
    def fid():
        i = rng.getrandbits(63) | 1 << 63
        while i in ids: i = rng.getrandbits(63) | 1 << 63
        ids.add(i)
        return '@0x%x;' % i
    uses = []
    for i, n in enumerate(names):
        alias = 'Imp%d' % i
        # a file sees its own types and builtin ones
        s, e = g.structs, g.enums
        g.structs, g.enums = [], []
        body = g.body(alias, n, [], 2)
        g.structs, g.enums = s + g.structs, e + g.enums
        write(root, n, [fid()] + body)
        uses.append('using %s = import "/%s";' % (alias, n))
    main = 'main%s.capnp' % tag
    body = g.body('', None, [], 2) + g.body('', None, [], 2)
    write(root, main, [fid()] + uses + body)
    return g, main
def write(root, n, lines):
    p = os.path.join(root, n)
    if not os.path.isdir(os.path.dirname(p)): os.makedirs(os.path.dirname(p))
    with open(p, 'wb') as f: f.write('\n'.join(lines).encode('utf-8'))

def attr(m, path):
    for n in path: m = getattr(m, n + '_' if n in KW else n)
    return m
class Reader:
    def __init__(self, T, mod, comp, pyx):
        self.T, self.main, self.comp, self.pyx = T, mod, comp, pyx
    def module(self, n): return self.main if n is None else self.comp.load_schema(importname='/' + n, pyx=self.pyx)
    def cls(self, t): return attr(self.module(t.path[0]), t.path[1])
    def same(self, got, t, v, what):
        T = self.T
        if isinstance(v, float) and v != v: T.ok(isinstance(got, float) and got != got, what + ': not a number', repr(got))
        elif v is NULL: T.ok(got is None, what + ': null', repr(got))
        elif isinstance(t, tuple):
            T.eq(len(got), len(v), what + ': length')
            for i, x in enumerate(v): self.same(got[i], t[1], x, what + '[]')
        elif isinstance(t, Struct):
            T.ok(type(got) is self.cls(t), what + ': class', repr(type(got)))
            for n, ft in t.fields: self.same(getattr(got, n), ft, v[n], what + '.field')
        elif isinstance(t, Enum):
            T.eq(int(got), v, what + ': enumerant')
        elif t in ('Float32', 'Float64'): T.ok(struct.pack('<d', got) == struct.pack('<d', v), what + ': float', repr((got, v)))
        else:
            T.eq(got, v, what + ' ' + t)
            if t != 'Void': T.ok(type(got) is (bool if t == 'Bool' else bytes if t in ('Text', 'Data') else type(got)), what + ': type', repr(got))

def run(T, rng, pyx, refl):
    root = tempfile.mkdtemp(prefix='dvc22-')
    try:
        g, main = schema(rng, refl, root)
        comp = DynamicCompiler([py.path.local(root)])
        comp._tmpdir = py.path.local(tempfile.mkdtemp(prefix='b', dir=root))
        src = open(os.path.join(root, main), 'rb').read().decode('utf-8')
        T.note(src)
        opts = annotate.Options.from_dict(dict(convert_case=False, include_reflection_data=refl))
        mod = quiet(lambda: comp.load_schema(importname='/' + main, pyx=pyx, options=opts))
        R = Reader(T, mod, comp, pyx)
        for m, path, t, v in g.consts:
            # a file that is imported is compiled with the default options, when it is used
            if m is None: R.same(attr(mod, path), t, v, 'constant %s' % ('nested' if len(path) > 1 else 'top-level'))
        used = set(t.path[0] for t in g.structs + g.enums if t.path[0])
        for m, path, t, v in g.consts:
            if m in used and refl: R.same(attr(R.module(m), path), t, v, 'constant of an imported file')
        # the types fields have are those of the file they come from, also through a message that is written and read back
        for s in g.structs:
            if s.path[0] is not None: continue
            c = R.cls(s)
            for n, t in s.fields:
                if t == 'Void' or unwritable(t): continue                 # not an argument
                v = instance(R, rng, t)
                o = c(**{n: v})
                for x in (o, c.loads(o.dumps())):
                    check(T, R, getattr(x, n), t, v)
        T.nontrivial(src)
    finally: shutil.rmtree(root, True)
def unwritable(t):
    "capnpy does not write lists of booleans or of nothing"
    return isinstance(t, tuple) and (t[1] in ('Bool', 'Void') or unwritable(t[1]))
def instance(R, rng, t):
    if isinstance(t, Struct): return R.cls(t)()
    if isinstance(t, Enum): return rng.randrange(len(t.members))
    if isinstance(t, tuple): return [instance(R, rng, t[1]) for _ in range(2)]
    if t in INTS: return 1
    return {'Bool': True, 'Void': None, 'Float32': 0.5, 'Float64': 0.5, 'Text': b'x', 'Data': b'y'}[t]
def check(T, R, got, t, v):
    if isinstance(t, Struct): T.ok(type(got) is R.cls(t), 'class of a field', repr((type(got), t.ref)))
    elif isinstance(t, Enum):
        T.ok(type(got) is R.cls(t), 'enum of a field', repr((type(got), t.ref)))
        T.eq(int(got), v, 'enum field')
    elif isinstance(t, tuple):
        T.eq(len(got), len(v), 'length of a list field')
        for i, x in enumerate(v): check(T, R, got[i], t[1], x)
    else: T.eq(got, v, 'field')
def quiet(f):
    os.environ.setdefault('CFLAGS', '-O0')
    fd, nul, fd2 = os.dup(1), os.open(os.devnull, os.O_WRONLY), os.dup(2)
    os.dup2(nul, 1); os.dup2(nul, 2)
    try: return f()
    finally:
        os.dup2(fd, 1); os.dup2(fd2, 2)
        for x in (fd, fd2, nul): os.close(x)

@case('C22', 6)
def generated(T): run(T, T.rng, False, T.rng.random() < 0.75)
if not PYPY:
    @case('C22', 0.05, modes=('cpy',))
    def compiled(T): run(T, T.rng, True, T.rng.random() < 0.75)
    @enum('C22', modes=('cpy',))
    def compiled_fixed(T):
        for i in range(2): yield 'schema %d' % i, lambda i=i: run(T, random.Random(1000 + i), True, True)
