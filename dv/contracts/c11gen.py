"""C11 / C13 (and C10, for pointers) for the members of every schema.  gencode.py proves the accessors the compiler generates for the corpus of schemas; here the
generator itself (Field.emit, Field__Slot._emit and what they call, ModuleGenerator.def_property, Node__Struct._emit_union_tag) is executed symbolically on a member whose
offset, default value, union tag and discriminant offset are unknown.  The text it writes has literal pieces and pieces that stand for those numbers; that text is then
read as the class body it is, in both modes, and its accessors are proved against the same contracts as those of the corpus, for all values of the unknowns.
What is fixed per task: the kind of the member, the sign of the default, the bit of a bool within its byte, whether the member is in a union (bools of a union: two bits).
Assumed: the names of the members and types are identifiers, the generator uses them as such; the class header is that of the corpus (gencode.py)."""
import os, itertools, tempfile
from vc import *
from contracts.c22 import *
from contracts import gencode as GC
FD = 'capnpy.compiler.field:'; SX = 'capnpy.schema_extended:'

# ---- `with ns.block(...)` of pypytools' Code
def _block(ex, s, args, kw):
    o = args[0]
    if len(args) > 2: raise Unsupported('block arguments')
    auto = kw.pop('autopass', True) if 'autopass' in kw else True
    r = s.new('scope', **dict(scope_attrs(s, o), dv_code=s.heap[o.id]['dv_code'], **kw))
    yield s, s.new('blockctx', scope=r, text=args[1] if len(args) == 2 else None, auto=auto)
def _enter(ex, s, args, kw):
    h = s.heap[args[0].id]
    r = h['scope']
    c = s.heap[r.id]['dv_code']
    if h['text'] is not None: emit(s, r, fmt(ex, s, r, h['text'], {}))
    s.heap[c.id] = dict(s.heap[c.id], indent=s.heap[c.id].get('indent', 0) + 4)
    s.heap[args[0].id] = dict(s.heap[args[0].id], n=len(s.heap[c.id]['lines']))
    yield s, r
def _exit(ex, s, args, kw):
    h = s.heap[args[0].id]
    c = s.heap[h['scope'].id]['dv_code']
    if h['auto'] and h['n'] == len(s.heap[c.id]['lines']): emit(s, h['scope'], 'pass')
    s.heap[c.id] = dict(s.heap[c.id], indent=s.heap[c.id]['indent'] - 4)
    yield s, None
BM.ATTR['scope', 'block'] = lambda ex, s, o: iter([(s, Builtin('scope.block', o))])
BM.CALLS['scope.block'] = _block
for _n, _f in (('__enter__', _enter), ('__exit__', _exit)):
    BM.ATTR['blockctx', _n] = lambda ex, s, o, _n=_n: iter([(s, Builtin('blockctx.' + _n, o))])
    BM.CALLS['blockctx.' + _n] = _f
BM.ATTR['ModuleGenerator', 'block'] = lambda ex, s, o: iter([(s, Builtin('scope.block', s.heap[o.id]['code']))])

# ---- members of the schema, as the generator sees them
def kinds_compare(ex, s, op, a, b):
    "members of Type.__tag__ and Field.__tag__ are compared by their numbers"
    def num(x):
        if isinstance(x, Opq) and str(x.cls).startswith('TAG:'): return x.cls[4:].split('.')
        if isinstance(x, Builtin) and x.name.startswith(('class.Type.__tag__.', 'class.Field.__tag__.')): return [x.name.split('.')[1], x.name.split('.')[3]]
        if isinstance(x, Builtin) and x.name.startswith(('class.Type__tag__.', 'class.Field__tag__.')) and x.name.count('.') == 2: return [x.name.split('.')[1][:-7], x.name.split('.')[2]]
    def const(x):
        "a constant of the schema of schemas, which schema_extended.py is run in"
        if isinstance(x, Builtin) and x.name.startswith('class.Field.') and x.name.count('.') == 2:
            c = ex.w.module('capnpy.schema').classes['Field'].attrs.get(x.name.split('.')[2])
            if c is not None and c.op == 'const': return c.a[0]
        return x
    a2, b2 = const(a), const(b)
    if (a2 is not a or b2 is not b) and isint(a2) and isint(b2) and op in ('==', '!='): return simp((zi(a2) == zi(b2)) if op == '==' else zi(a2) != zi(b2))
    p, q = num(a), num(b)
    if isinstance(a, str) and a in KINDS and q and q[0] == 'Type': p = ['Type', a]
    if isinstance(b, str) and b in KINDS and p and p[0] == 'Type': q = ['Type', b]
    if p is None or q is None: return ttcompare(ex, s, op, a, b)
    if p[0] != q[0]: raise Unsupported('comparison of tags')
    order = KINDS if p[0] == 'Type' else ['slot', 'group']
    i, j = order.index(p[1]), order.index(q[1])
    return {'<': i < j, '<=': i <= j, '>': i > j, '>=': i >= j, '==': i == j, '!=': i != j, 'is': i == j, 'isnot': i != j}[op]
NAMEOF = ufn('PY_FIELD_NAME', OV, OV)
class PyName(Contract):
    key, modes = M_ + 'ModuleGenerator.py_field_name', ('py',)
    def apply(self, ex, s, env):
        f = env['field']
        if not (isinstance(f, Opq) and f.cls == 'GField'): raise Unsupported('name of a field')
        yield s, Opq(NAMEOF(f.t), 'CodeName')
class FieldOptions(Contract):
    key, modes = M_ + 'ModuleGenerator.options', ('py',)
    def apply(self, ex, s, env):
        yield s, Opq(Z.Const('the options', OV), 'ItemOptions')
class NoAnnotation(Contract):
    "members without $Py annotations (nullable groups and groups of members are those of the corpus)"
    key, modes = M_ + 'ModuleGenerator.has_annotation', ('py',)
    def apply(self, ex, s, env): yield s, None
SIGNED = dict(int8=8, int16=16, int32=32, int64=64)
UNSIGNED = dict(uint8=8, uint16=16, uint32=32, uint64=64)
PTRS = ('text', 'data', 'struct', 'list', 'anyPointer')
class BoolOff(object):
    def __init__(self, q, r): self.q, self.r = q, r
    def __floordiv__(self, n): return self.q
    def __mod__(self, n): return self.r
    def __divmod__(self, n): return self.q, self.r
class Ty(object):
    "the type, as gencode's contracts see it"
    def __init__(self, kind, **kw):
        self.kind, self.is_ptr = kind, kind in ('text', 'data', 'struct', 'list', 'any')
        self.__dict__.update(kw)
class F_(object):
    is_group, annotations = False, ()
    def __init__(self, **kw): self.__dict__.update(kw)
class N__(object):
    def __init__(self, **kw): self.__dict__.update(kw)
ITEM = Ty('prim', name='int32', bits=32)
class FakeSchema(object):
    nodes = {1: N__(name='DvEnum'), 2: N__(name='DvSub')}
def ty_of(k):
    if k == 'void': return Ty('void')
    if k == 'enum': return Ty('enum', type_id=1)
    if k == 'struct': return Ty('struct', type_id=2)
    if k == 'list': return Ty('list', elem=ITEM)
    if k == 'anyPointer': return Ty('any')
    if k in ('text', 'data'): return Ty(k)
    return Ty('prim', name=k, bits=1 if k == 'bool' else int(k.strip('uintfloa')))
def cases(k):
    "the members of the class: (name, default, bit)"
    if k == 'void' or k in PTRS: return [('f', 'zero', 0)]
    if k == 'bool': return [('f%d%d' % (r, d), d, r) for r in range(8) for d in (0, 1)]
    if k in SIGNED: return [('f', 'zero', 0), ('fp', 'pos', 0), ('fn', 'neg', 0)]
    return [('f', 'zero', 0), ('fp', 'pos', 0)]
def members(k):
    "the members, with the facts about their numbers"
    out, pcs = [], []
    for n, d, r in cases(k):
        for u in ((False, True) if k != 'bool' or r in (0, 5) else (False,)):
            nm = n + ('u' if u else '')
            t = fresho('field_' + nm)
            f = F_(t=t, name=nm, type=ty_of(k), in_union=u, tag=fresh('tag') if u else None, kind=k)
            if u: pcs.append(And(f.tag >= 0, f.tag < 1 << 15))
            off = fresh('offset')
            pcs.append(And(off >= 0, off < 1 << 16))
            f.raw = off
            f.offset = BoolOff(off, r) if k == 'bool' else off
            if k == 'bool': f.raw = 8 * off + r
            if d in (0, 1) and k == 'bool': f.default = d
            elif d == 'zero': f.default = 0
            else:
                D = fresh('default')
                if k in SIGNED: pcs.append(And(D > 0, D < 1 << SIGNED[k] - 1) if d == 'pos' else And(D < 0, D >= -(1 << SIGNED[k] - 1)))
                elif k in UNSIGNED: pcs.append(And(D > 0, D < 1 << UNSIGNED[k]))
                elif k == 'enum': pcs.append(And(D > 0, D < 1 << 15))
                else: pcs.append(And(D > 0, D < 1 << (32 if k == 'float32' else 64)))
                f.default = D
            out.append(f)
    return out, pcs
def setup(w1, ms, tt):
    by = lambda o: [f for f in ms if f.t.eq(o.t)][0]
    O, me = BM.OATTR, lambda n, g: method_of('GField', n, lambda ex, s, args, kw: iter([(s, g(args[0]))]))
    O['GField', 'dv_classes'] = (FD + 'Field__Slot', FD + 'Field', SX + 'Field')
    chain('GField', 'slot', 'GSlot'); chain('GField', 'id', 'GId')
    O['GField', 'discriminantValue'] = lambda ex, s, o: iter([(s, by(o).tag if by(o).in_union else 65535)])
    me('which', lambda o: Opq(o.t, 'TAG:Field.slot')); me('is_slot', lambda o: True); me('is_group', lambda o: False)
    O['GSlot', 'dv_classes'] = (SX + 'Field_slot',)
    O['GSlot', 'offset'] = lambda ex, s, o: iter([(s, by(o).raw)])
    O['GSlot', 'hadExplicitDefault'] = lambda ex, s, o: iter([(s, not (type(by(o).default) is int and by(o).default == 0))])
    O['GSlot', 'type'] = lambda ex, s, o: iter([(s, Opq(o.t, 'type:' + by(o).kind))])
    chain('GSlot', 'defaultValue', 'GValue')
    method_of('GValue', 'as_pyobj', lambda ex, s, args, kw: iter([(s, bool(by(args[0]).default) if by(args[0]).kind == 'bool' else 0.0 if by(args[0]).kind in ('float32', 'float64') else None if by(args[0]).kind in PTRS + ('void',) else by(args[0]).default)]))
    # float32_to_bits / float64_to_bits of the default value: the raw bits the schema holds
    method_of('GSlot', 'get_default_bits', lambda ex, s, args, kw: iter([(s, by(args[0]).default)]))
    for i, k in enumerate(KINDS):
        method_of('type:' + k, 'is_pointer', lambda ex, s, args, kw, r=k in PTRS: iter([(s, r)]))
        method_of('type:' + k, 'as_type', lambda ex, s, args, kw, k=k: iter([(s, BM.types_attr(ex, s, k))]))
        if k in ('struct', 'enum'): method_of('type:' + k, 'runtime_name', lambda ex, s, args, kw: iter([(s, Opq(CNAME(NODEOF(args[0].t)), 'CodeName'))]))
    method_of('Overrides', 'get', lambda ex, s, args, kw: iter([(s, None)]))
def stage1(t, k, ms, pcs, tt, call=None):
    "[(facts, lines)]: what Field.emit (or call) writes for the members, one after the other"
    w1 = G.World(t.w.root, 'py')
    t1 = T(w1, t.key, t.variant, 'stage 1', t.ex.deadline, t.ex.timeout)
    t1.ex.where, t1.gen_pyx = t.ex.where, t.pyx
    mode, G.CONTRACTS_MODE = G.CONTRACTS_MODE, 'py'
    try:
        base_setup(t1)
        t1.ex.local['compare'] = kinds_compare
        for c in (PyName, FieldOptions, NoAnnotation): t1.ex.local[c.key] = c()
        setup(w1, ms, tt)
        st = St()
        st.pc += pcs
        st.ghost['text_type'] = Opq(Z.Const('TT_' + tt, OV), 'TT:' + tt)
        m, lines = generator(t1, st, pyx=t.pyx, field_override=Opq(fresho('overrides'), 'Overrides'))
        code = st.heap[m.id]['code']
        st.heap[code.id] = dict(st.heap[code.id], cpdef='cpdef' if t.pyx else 'def')
        todo = [st]
        for f in ms:
            nxt = []
            for s in todo:
                for s2, v in (call(t1, s, m, f, lines) if call else t1.run(s, [Opq(f.t, 'GField'), m, Opq(fresho('node'), 'GNode')], key=FD + 'Field.emit')):
                    if not t1.ex.feasible(s2): continue
                    if isinstance(v, Exc):
                        t.ex.ob('generated', s2, False)
                        continue
                    nxt.append(s2)
            todo = nxt
        t.ex.inlined |= t1.ex.inlined
        t.ex.used |= t1.ex.used
        return [(list(s.pc), lines(s)) for s in todo]
    finally: G.CONTRACTS_MODE = mode
MAGIC = 99500000
class Text(object):
    "the class body as source text: every unknown number is a literal of its own"
    def __init__(self, ms, pcs, t):
        self.ms, self.map, self.t, self.pcs = ms, {}, t, pcs
        self.names = [(NAMEOF(f.t), f.name) for f in ms]
    def number(self, v, neg):
        e = zi(v)
        e = Z.simplify(-e if neg else e)
        for k, x in self.map.items():
            if x.eq(e): return '-%d' % k if neg else str(k)
        k = MAGIC + 1 + len(self.map)
        self.map[k] = e
        return '-%d' % k if neg else str(k)
    def part(self, p):
        if isinstance(p, str): return p
        v = p.v
        if isinstance(v, Opq) and v.cls == 'CodeName' and p.conv in 'sr':
            for x, n in self.names:
                if v.t.eq(x): return n if p.conv == 's' else repr(n)
        if isinstance(v, Opq) and v.cls == 'CodeName' and p.conv == 's':
            d = v.t.decl().name()
            if d == CNAME(v.t).decl().name(): return 'DvEnum' if self.ms[0].kind == 'enum' else 'DvSub'
            if d == 'LIST_ITEM_TYPE': return '_DvItem'
        # formats of capnpy.type.Types: native strings, which the engine holds as bytes
        if isinstance(v, bytes) and len(v) == 1 and p.conv == 'r': return repr(v.decode('ascii'))
        if isint(v):
            c = conc(v)
            if c is not None: return str(c)
            s = St(); s.pc += self.pcs
            if not self.t.ex.feasible(s, Not(zi(v) >= 0)): return self.number(v, False)
            if not self.t.ex.feasible(s, Not(zi(v) < 0)): return self.number(v, True)
        raise Unsupported('a piece of the generated text: %r' % (v,))
    def lines(self, ls):
        return [''.join(self.part(p) for p in as_text(l).p) for l in ls]
def subst(x, mp):
    "the numbers the literals stand for"
    if isinstance(x, (E_, S_)):
        if isinstance(x, E_) and x.op == 'const' and type(x.a[0]) is int:
            v = x.a[0]
            if -v in mp and v < 0: mp = {v: simp(-mp[-v])}
            if v in mp: x.a = (mp[v],) + tuple(x.a[1:]) if isinstance(x.a, tuple) else [mp[v]] + list(x.a[1:])
            elif abs(v) > 5 * 10**7 and abs(v) < 1 << 31: raise Unsupported('arithmetic on a number of the schema, done by the front end: %d' % v)
            return
        subst(x.a, mp)
    elif isinstance(x, (list, tuple)):
        for y in x: subst(y, mp)
    elif isinstance(x, dict):
        for y in x.values(): subst(y, mp)
import ir
E_, S_ = ir.E, ir.S
def header(pyx):
    p = os.path.join(os.environ.get('DV_GEN', '/nonexistent'), 'main.pyx' if pyx else 'main.py')
    if not os.path.exists(p): raise Unsupported('the corpus was not generated')
    out = []
    for l in open(p):
        if l.startswith('__capnpy_id__'): break
        if 'main_tmp' not in l: out.append(l.rstrip('\n'))
    return out
def module(t, tag, body, tagoff, txt, more=(), own_tag=False):
    cd = 'cdef class' if t.pyx else 'class'
    src = header(t.pyx) + ['class DvEnum(_BaseEnum):', "    __members__ = ('a', 'b',)", '    @staticmethod', '    def _new(x):', '        return DvEnum(x)', '',
        'class DvC__tag__(_BaseEnum):', "    __members__ = ('a', 'b',)", '    @staticmethod', '    def _new(x):', '        return DvC__tag__(x)', '',
        '%s DvSub(_Struct):' % cd, '    pass', '', '_DvItem = _PrimitiveItemType(_Types.int32)', '', '%s DvC(_Struct):' % cd] + ([] if own_tag else ['    __tag__ = DvC__tag__', '    __tag_offset__ = %s' % tagoff])
    src += ['    ' + l if l.strip() else '' for l in body] + list(more)
    d = tempfile.mkdtemp(prefix='dvc11-')
    try:
        p = os.path.join(d, 'dvany.pyx' if t.pyx else 'dvany.py')
        with open(p, 'w') as f: f.write('\n'.join(src) + '\n')
        if os.environ.get('DV_SHOW'): print('\n'.join(src[len(header(t.pyx)):]))
        try: m = ir.CyFront('gen.dvany', p, t.w.root).m if t.pyx else ir.PyFront('gen.dvany', p, static={'PYX': False}).m
        except SyntaxError: return None
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)
    for fn in m.funcs.values():
        if fn.qual.startswith('write_'): subst(fn.body, txt.map)
    for c in m.classes.values():
        for fs in (c.methods, c.props):
            for f in fs.values():
                if f.qual.split('.')[-1] in ('__reduce_cython__', '__setstate_cython__'): continue     # generated by Cython, with checksums
                subst(f.body, txt.map); subst([x[2] for x in f.params], txt.map)
        subst(c.attrs, txt.map)
    return m
def gen_task(k, tt):
    v = 'any' + ('_u' if tt == 'unicode' else '')
    for kind in (V2 if k == 'struct' else ('single',)):
        @task(FD + 'Field.emit', ['C11', 'C13'] + (['C10'] if kind == 'multi' else []), variants=('%s:%s,%s' % (v, k, kind),), name='any-schema:' + FD + 'Field.emit', weight=8)
        def run(t):
            multi = kind == 'multi'
            ms, pcs = members(k)
            disc = fresh('discriminantOffset')
            pcs.append(And(disc >= 0, disc < 1 << 16))
            for facts, lines in stage1(t, k, ms, pcs, tt):
                txt = Text(ms, facts, t)
                body = txt.lines(lines)
                m = module(t, v, body, txt.number(2 * disc, False), txt)
                t.ex.ob('generated/is-a-class-body', St(), m is not None)
                if m is None: continue
                t.w.mods['gen.dvany'] = m
                S = FakeSchema()
                union = [f for f in ms if f.in_union]
                c = N__(S=S, name='DvC', node=N__(union=union, disc_off=disc, fields=ms, name='DvC'))
                t.gen, t.st = m, (lambda: (lambda s: (s.pc.extend(facts), s)[1])(St()))
                for f in ms:
                    t.ex.where = t.where + '/' + f.name
                    GC.getter(t, c, f, multi)
                    if k in PTRS and not multi: GC.has_(t, c, f)
                    if k in PTRS and k != 'anyPointer': GC.getter(t, c, f, multi, get=True)
        run
for _k in KINDS:
    if _k == 'interface': continue
    gen_task(_k, 'bytes')
    if _k == 'text': gen_task(_k, 'unicode')

# ---- the tag of a union: Node__Struct._emit_union_tag
NS = 'capnpy.compiler.struct_:Node__Struct'
@task(NS + '._emit_union_tag', ['C13'], variants=('any:tag',), name='any-schema:' + NS + '._emit_union_tag', weight=2)
def union_tag(t):
    "a union of three members whose order in the schema is not that of their tags, and a field outside of the union"
    disc = fresh('discriminantOffset')
    pcs = [And(disc >= 0, disc < 1 << 16)]
    ms = [F_(t=fresho('field_' + n), name=n, type=ty_of('int8'), kind='int8', in_union=g is not None, tag=g, default=0, raw=0, offset=0) for n, g in (('c', 2), ('a', 0), ('x', None), ('b', 1))]
    me = fresho('union')
    CN = ufn('NODE_NAME', OV, OV)
    def call(t1, s, m, f, lines):
        if f is not ms[0]: return [(s, None)]
        O = BM.OATTR
        O['GNode', 'dv_classes'] = (NS, 'capnpy.compiler.node:Node')
        chain('GNode', 'struct', 'GStruct')
        O['GStruct', 'discriminantCount'] = lambda ex, s, o: iter([(s, 3)])
        O['GStruct', 'discriminantOffset'] = lambda ex, s, o: iter([(s, disc)])
        # the members in the order of their tags: for the corpus, by the members of the tag class (gencode.py)
        method_of('GNode', '_get_enum_items', lambda ex, s, args, kw: iter([(s, Tup([Opq(NAMEOF(x.t), 'CodeName') for x in sorted((x for x in ms if x.in_union), key=lambda x: x.tag)]))]))
        method_of('GNode', 'compile_name', lambda ex, s, args, kw: iter([(s, Opq(CN(args[0].t), 'CodeName'))]))
        return t1.run(s, [Opq(me, 'GNode'), m], key=NS + '._emit_union_tag')
    for facts, lines in stage1(t, 'int8', ms, pcs, 'bytes', call=call):
        txt = Text(ms, facts, t)
        txt.names.append((CN(me), 'DvC'))
        m = module(t, 'any', txt.lines(lines), None, txt, own_tag=True)
        t.ex.ob('generated/is-a-class-body', St(), m is not None)
        if m is None: continue
        t.w.mods['gen.dvany'] = m
        c = N__(S=FakeSchema(), name='DvC', node=N__(union=[f for f in ms if f.in_union], disc_off=disc, fields=ms, name='DvC'))
        t.gen, t.st = m, (lambda: (lambda s: (s.pc.extend(facts), s)[1])(St()))
        for w in ['__which__', 'which'] + ['is_' + f.name for f in c.node.union]:
            t.ex.where = t.where + '/' + w
            GC.tag_(t, c, w)
