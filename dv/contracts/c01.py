"""C01: the pointer codec, on bit vectors. py: capnpy/ptr.py on unbounded integers; pyx: the macros of capnpy/ptr.h under the C types
given to them by ptr.pxd, and the Python-level wrappers of ptr.pyx."""
import re
from vc import *
import bvexec as B
PTR = 'capnpy.ptr'

# ---- the encoding, written from the Cap'n Proto encoding specification: name -> (msb, lsb, signed)
FIELDS = dict(kind=(1, 0, 0), offset=(31, 2, 1), struct_data_size=(47, 32, 0), struct_ptrs_size=(63, 48, 0), list_size_tag=(34, 32, 0), list_item_count=(63, 35, 0),
              far_landing_pad=(2, 2, 0), far_offset=(31, 3, 0), far_target=(63, 32, 0), extra=None)
# constructor -> [(argument lo, hi, msb, lsb)] in argument order, and the kind
CONS = dict(new_struct=(0, [(-1 << 29, (1 << 29) - 1, 31, 2, 'offset'), (0, 0xffff, 47, 32, 'struct_data_size'), (0, 0xffff, 63, 48, 'struct_ptrs_size')]),
            new_list=(1, [(-1 << 29, (1 << 29) - 1, 31, 2, 'offset'), (0, 7, 34, 32, 'list_size_tag'), (0, (1 << 29) - 1, 63, 35, 'list_item_count')]),
            new_far=(2, [(0, 1, 2, 2, 'far_landing_pad'), (0, (1 << 29) - 1, 31, 3, 'far_offset'), (0, (1 << 32) - 1, 63, 32, 'far_target')]))
CONSTS = dict(STRUCT=0, LIST=1, FAR=2, LIST_SIZE_VOID=0, LIST_SIZE_BIT=1, LIST_SIZE_8=2, LIST_SIZE_16=3, LIST_SIZE_32=4, LIST_SIZE_64=5, LIST_SIZE_PTR=6, LIST_SIZE_COMPOSITE=7)
ITEMLEN = {0: 0, 2: 1, 3: 2, 4: 4, 5: 8, 6: 8}

def field_of(word, f, width):
    hi, lo, sg = FIELDS[f]
    x = Z.Extract(hi, lo, word)
    return (Z.SignExt if sg else Z.ZeroExt)(width - (hi - lo + 1), x)

class PyImpl(object):
    W = B.W
    def __init__(self, t):
        self.ev = B.PyEval(t.w.module(PTR), B.EXT)
        B.SIDE[:] = []
    def arg(self, bv, mag): return B.V(bv, mag)
    def call(self, name, *args):
        r = self.ev.value(name, list(args))
        return r.t
    def word(self, r): return Z.Extract(63, 0, r)
    def side(self):
        for nm, g in B.SIDE: yield nm, Z.BoolVal(True), g
    def const(self, n): return B.const_of(self.ev.ev(E('name', n), {}, []))
class CImpl(object):
    W = 64
    def __init__(self, t):
        self.pxd = open(os.path.join(t.w.root, 'capnpy', 'ptr.pxd')).read()
        src = open(os.path.join(t.w.root, 'capnpy', 'ptr.h')).read() + '\n'
        for ret, nm, mac, ps in re.findall(r'^\s+(\w+) (\w+) "(\w+)" \(([^)]*)\)', self.pxd, re.M):
            args = ', '.join(p.strip().split()[-1] for p in ps.split(','))
            src += '%s f_%s(%s) { return %s(%s); }\n' % (ret, nm, ps, mac, args)
        for nm, mac in re.findall(r'^\s+cdef int (\w+) "(\w+)"', self.pxd, re.M): src += 'int c_%s(void) { return %s; }\n' % (nm, mac)
        self.ev = B.CEval(B.c_functions(src))
    def arg(self, bv, mag): return B.CV(bv, True)
    def call(self, name, *args):
        if 'f_' + name not in self.ev.f: raise Unsupported('ptr.pxd does not declare %s' % name)
        return self.ev.value('f_' + name, list(args)).t
    def word(self, r): return r
    def side(self): return self.ev.side
    def const(self, n):
        v = Z.simplify(self.ev.value('c_' + n, []).t)
        return v.as_signed_long()

def impl(t): return CImpl(t) if t.pyx else PyImpl(t)
def finish(t, st, I):
    t.normal = 1
    for nm, pc, g in I.side(): t.ex.ob_c('wellformed/' + nm, st, Z.Implies(pc, g))
def words(I):
    "a 64-bit word as the implementation gets it: signed (as read by the segments) and, in Python, also unsigned"
    w = Z.BitVec('word', 64)
    if I.W == 64: return w, [('signed', I.arg(w, 64))]
    return w, [('signed', I.arg(Z.SignExt(I.W - 64, w), 64)), ('unsigned', I.arg(Z.ZeroExt(I.W - 64, w), 65))]

for _f in FIELDS:
    if FIELDS[_f] is None: continue
    @task('%s:%s' % (PTR, _f), ['C01'])
    def accessor(t, f=_f):
        st, I = t.st(), impl(t)
        w, args = words(I)
        for nm, a in args: t.ex.ob('ensures/%s-word' % nm, st, I.call(f, a) == field_of(w, f, I.W))
        finish(t, st, I)
@task(PTR + ':deref', ['C01'])
def deref(t):
    st, I = t.st(), impl(t)
    w, args = words(I)
    ofs = Z.BitVec('ofs', I.W)
    st.pc.append(And(ofs >= -(1 << 61), ofs <= 1 << 61))
    for nm, a in args: t.ex.ob('ensures/%s-word' % nm, st, I.call('deref', a, I.arg(ofs, 63)) == ofs + 8 * (field_of(w, 'offset', I.W) + 1))
    finish(t, st, I)
for _c in CONS:
    @task('%s:%s' % (PTR, _c), ['C01'])
    def constructor(t, c=_c):
        st, I = t.st(), impl(t)
        kind, spec = CONS[c]
        args = []
        for i, (lo, hi, m, l, f) in enumerate(spec):
            a = Z.BitVec('a%d' % i, I.W)
            st.pc.append(Z.And(a >= lo, a <= hi))
            args.append(a)
        r = I.call(c, *[I.arg(a, 40) for a in args])
        t.ex.ob('ensures/kind', st, Z.Extract(1, 0, I.word(r)) == kind)
        for (lo, hi, m, l, f), a in zip(spec, args): t.ex.ob('ensures/field-' + f, st, Z.Extract(m, l, I.word(r)) == Z.Extract(m - l, 0, a))
        for f, want in [('kind', Z.BitVecVal(kind, I.W))] + [(x[4], a) for x, a in zip(spec, args)]:
            t.ex.ob('ensures/roundtrip-' + f, st, I.call(f, I.arg(r, 65)) == want)
        finish(t, st, I)
for _c in CONS:
    @task('%s:%s' % (PTR, _c), ['C03'], modes=('py',), name='%s:%s (int64)' % (PTR, _c))
    def constructor_int64(t, c=_c):
        "the word is an int64, as the builder's write_int64 requires"
        st, I = t.st(), impl(t)
        args = []
        for i, (lo, hi, m, l, f) in enumerate(CONS[c][1]):
            a = Z.BitVec('a%d' % i, I.W)
            st.pc.append(Z.And(a >= lo, a <= hi))
            args.append(a)
        r = I.call(c, *[I.arg(a, 40) for a in args])
        t.ex.ob('ensures/int64', st, r == Z.SignExt(I.W - 64, Z.Extract(63, 0, r)))
        finish(t, st, I)
@task(PTR + ':constants', ['C01'])
def constants(t):
    st, I = t.st(), impl(t)
    for n, v in sorted(CONSTS.items()): t.ex.ob('ensures/' + n, st, bool(I.const(n) == v))
    t.normal = 1
@task(PTR + ':round_up_to_word', ['C01'])
def round_up(t):
    st, I = t.st(), impl(t)
    x = Z.BitVec('pos', I.W)
    st.pc.append(Z.And(x >= 0, x <= 1 << 61))
    r = I.call('round_up_to_word', I.arg(x, 63))
    t.ex.ob('ensures/multiple-of-8', st, Z.Extract(2, 0, r) == 0)
    t.ex.ob('ensures/smallest', st, Z.And(r >= x, r - x < 8))
    finish(t, st, I)
@task(PTR + ':list_item_length', ['C01'], variants=(0, 2, 3, 4, 5, 6))
def item_length(t):
    st = t.st()
    t.expect(t.run(st, [t.variant]), ret=lambda s, v: [('bytes', zi(v) == ITEMLEN[t.variant])])
WRAP = [f for f in FIELDS if FIELDS[f]] + ['deref']
for _f in WRAP + sorted(CONS):
    @task('%s:_%s' % (PTR, _f), ['C01'], modes=('pyx',))
    def wrapper(t, f=_f):
        "the functions Python code calls in compiled mode are those macros, applied to the same arguments"
        st = t.st()
        n = 1 if f in FIELDS else 2 if f == 'deref' else 3
        args = [fresh('x') for _ in range(n)]
        for a in args: st.pc.append(inss(a))
        if f == 'deref': st.pc.append(And(args[1] >= -(1 << 61), args[1] <= 1 << 61))
        if f in CONS:
            for a, (lo, hi, m, l, g) in zip(args, CONS[f][1]): st.pc.append(And(a >= lo, a <= hi))
        def ret(s, v):
            if f in CONS:
                yield 'kind', zi(BM.P('kind', v, s)) == CONS[f][0]
                short = dict(offset='offset', struct_data_size='dsz', struct_ptrs_size='psz', list_size_tag='ltag', list_item_count='lcnt', far_landing_pad='fland', far_offset='foff', far_target='ftgt')
                for a, (lo, hi, m, l, g) in zip(args, CONS[f][1]): yield 'field-' + g, zi(BM.P(short[g], v, s)) == a
            elif f == 'deref': yield 'value', zi(v) == args[1] + 8 * (zi(BM.P('offset', args[0], s)) + 1)
            else:
                short = dict(kind='kind', offset='offset', struct_data_size='dsz', struct_ptrs_size='psz', list_size_tag='ltag', list_item_count='lcnt', far_landing_pad='fland', far_offset='foff', far_target='ftgt')
                yield 'value', zi(v) == zi(BM.P(short[f], args[0], s))
        t.expect(t.run(st, args), ret=ret)
