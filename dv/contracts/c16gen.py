"""C16 for the keyed structs of every schema: what Node__Struct._emit_key_maybe (and _emit_fash_hash) write for a key of two members, the first of any kind, whose offsets are
unknown, and a member that is not in the key.  The text is read as the class body it is, as in c11gen.py, and its _key and __hash__ are proved against the contracts of c16.py:
the tuple of the members in the order of the annotation, and the hash of that tuple.
Assumed: as in c11gen.py; keys of one and two members are what is executed, the loop over the members of longer keys is that of the corpus (c16.py)."""
from vc import *
from contracts import c16 as K, c11gen as A, gencode as GC
from contracts.c10 import *
NS = 'capnpy.compiler.struct_:Node__Struct'
class Keyed(Contract):
    key, modes = A.M_ + 'ModuleGenerator.has_annotation', ('py',)
    def __init__(self, text): self.text = text
    def apply(self, ex, s, env):
        if not (isinstance(env['anncls'], ClsV) and env['anncls'].name == 'key'): raise Unsupported('another annotation')
        yield s, Opq(fresho('ann'), 'KeyAnn')
def hash_text(t, r, texts):
    class H(Contract):
        def __init__(self): self.key = '_hash_text'
        def apply(self, ex, st, env):
            if env['self'].id != r.id: raise Unsupported('another object')
            for off, (v, bad) in texts:
                if ex.known(st, zi(env['offset']) == off): break
            else:
                ex.ob('hash-text/pre/a-text-field', st, Or(*[zi(env['offset']) == off for off, _ in texts]) if len(texts) == 1 else False)
                if len(texts) != 1: return
                v, bad = texts[0][1]
            for s, b in ex.branch(st, bad): yield s, (Exc('ValueError') if b else simp(Z.If(zb(v.cond), zi(env['default_']), zi(K.hash_of(ex, s, v.value)))))
    return H()
def field(n, k):
    off = fresh('offset')
    f = A.F_(t=fresho('field_' + n), name=n, type=None if k == 'group' else A.ty_of(k), kind=k, in_union=False, tag=None, default=0, raw=off)
    f.is_group = k == 'group'
    f.offset = A.BoolOff(off, 0) if k == 'bool' else off
    return f, And(off >= 0, off < 1 << 16)
def setup(me, ms, text, t1):
    O = BM.OATTR
    by = lambda o: [f for f in ms if f.t.eq(o.t)][0]
    O['GNode', 'dv_classes'] = (NS, 'capnpy.compiler.node:Node')
    for n, v in (('is_slot', lambda o: not by(o).is_group), ('is_group', lambda o: by(o).is_group), ('which', lambda o: Opq(o.t, 'TAG:Field.' + ('group' if by(o).is_group else 'slot')))):
        A.method_of('GField', n, lambda ex, s, args, kw, v=v: iter([(s, v(args[0]))]))
    O['GField', 'name'] = lambda ex, s, o: iter([(s, by(o).name.encode())])
    A.chain('KeyAnn', 'annotation', 'KeyAnn1'); A.chain('KeyAnn1', 'value', 'KeyAnn2')
    O['KeyAnn2', 'text'] = lambda ex, s, o: iter([(s, text)])
    A.method_of('KeyAnn2', 'is_text', lambda ex, s, args, kw: iter([(s, True)]))
    t1.ex.local[Keyed.key] = Keyed(text)
    A.method_of('GNode', 'get_struct_fields', lambda ex, s, args, kw: iter([(s, Tup([Opq(f.t, 'GField') for f in ms]))]))
KEYS = ((b'q, p', 'qp'), (b' p,q ', 'pq'), (b'p', 'p'), (b' *', 'pqz'))
def key_task(k, tt):
    v = 'any' + ('_u' if tt == 'unicode' else '')
    @task(NS + '._emit_key_maybe', ['C16'], variants=('%s:%s' % (v, k),), name='any-schema:' + NS + '._emit_key_maybe', weight=4)
    def run(t):
        for text, order in KEYS:
            for second in ('int32',) + ((k,) if k == 'text' else ()):
                one(t, v, k, tt, text, order, second)
def one(t, v, k, tt, text, order, second):
    ms, pcs = [], []
    for n, kk in (('p', k), ('q', second), ('z', 'uint64')):
        f, pc = field(n, kk)
        ms.append(f); pcs.append(pc)
    if second == 'text': pcs.append(ms[0].raw != ms[1].raw)
    node = fresho('node')
    def call(t1, s, m, f, lines):
        if f is not ms[0]: return [(s, None)]
        setup(node, ms, text, t1)
        for n in ('annotate', 'schema'): t1.w.module('capnpy.' + n)
        return t1.run(s, [Opq(node, 'GNode'), m], key=NS + '._emit_key_maybe')
    for facts, lines in A.stage1(t, 'int8', ms, pcs, tt, call=call):
        txt = A.Text(ms, facts, t)
        body = []
        for f in ms: body += ['property %s:' % f.name, '    def __get__(self):', '        return None'] if t.pyx else ['@property', 'def %s(self):' % f.name, '    return None']
        m = A.module(t, v, body + txt.lines(lines), '0', txt)
        t.ex.ob('generated/is-a-class-body', St(), m is not None)
        if m is None: continue
        t.w.mods['gen.dvany'] = m
        by = {f.name: f for f in ms}
        t.gen = m
        where = t.ex.where
        for what in ('_key', '__hash__'):
            st = t.st()
            st.pc += facts
            r = mkstruct(t, st, False, cls='DvC')[0]
            vals, texts = {}, []
            for n in order:
                f = by[n]
                x, bad = K.field_value(t, st, None, f, tt == 'unicode'), freshb(n + '_raises')
                if not f.is_group and not f.type.is_ptr: bad = False
                vals[n] = x, bad
                t.ex.local['gen.dvany:DvC.' + n] = K.Field(n, r, x, bad)
                if f.kind == 'text': texts.append((8 * zi(f.raw), (x, bad)))
            for n in ('_hash_text_bytes', '_hash_text_unicode'):
                if (n == '_hash_text_unicode') == (tt == 'unicode'): t.ex.local[ST + '.' + n] = hash_text(t, r, texts)
            want = [vals[n][0] for n in order]
            raises = [(b, ('ValueError',)) for _, b in vals.values() if b is not False]
            t.ex.where = where + '/' + order + '/' + what
            if what == '_key':
                def ret(s, v):
                    yield 'tuple', isinstance(v, Tup) and len(v.xs) == len(want)
                    if not isinstance(v, Tup): return
                    for n, x, w in zip(order, v.xs, want): yield 'key-' + n, K.pick_same(t, s, x, w)
                t.expect(t.method(st, r, '_key', []), raises=raises, ret=ret)
            else:
                if not t.pyx:
                    t.ex.local[ST + '._key'] = t.ex.local['gen.dvany:DvC._key'] = K.KeyContract(r, {n: (x, b if b is not False else Z.BoolVal(False)) for n, (x, b) in vals.items()}, list(order))
                w = K.tuph(st, [K.hash_of(t.ex, st, x) for x in want])
                t.expect(t.method(st, r, '__hash__', []), raises=raises, ret=lambda s, v: [('hash-of-key-tuple', zi(v) == w if isint(v) else False)])
        t.ex.where = where
for _k in A.KINDS + ['group'] if isinstance(A.KINDS, list) else tuple(A.KINDS) + ('group',):
    if _k in ('interface', 'anyPointer', 'list', 'void'): continue
    key_task(_k, 'bytes')
    if _k == 'text': key_task(_k, 'unicode')
