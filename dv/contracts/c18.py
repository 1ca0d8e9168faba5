"""C18: the effective options.  OWN(e, o) is what an entity (file, struct, group, enum, field, enumerant) makes of the options o of the scope around it: o combined with its own
annotation, if there is one.  EFF(e, o, d) is the value for an entity d in the tree below e: OWN(e, o) for e itself, otherwise EFF(c, OWN(e, o), d) for the child c of e (nested node,
field, enumerant) whose tree holds d - the annotation of the nearest scope wins, unset options inherit.  Contracts, for an arbitrary entity d (a skolem constant):
  combine(a, b)              every option of the Options struct (as the capnp tool reports them) is b's when b sets it, else a's; nothing else is passed on
  compute_options_generic    table[id(e)] = OWN(e, o); no other entry changes
  compute_options            table[id(d)] = EFF(e, o, d) for d in the tree of e, unchanged otherwise (by induction on the tree: the recursive calls are used through this contract)
  compute_all_options        the same for the files, from the default given to the compiler
Assumed: ids are distinct (capnp's node ids; (node id, name) for fields and enumerants); each entity has one parent; an Options object reads back the arguments it was built from (C12);
as_struct(Options) gives the annotation's value (C11)."""
from vc import *
from contracts.c10 import *
from contracts import gencode as GC
import cgr
OWN = ufn('OWN', OV, OV, OV)
EFF = ufn('EFF', OV, OV, OV, OV)
COMB, HASANN, ANN = ufn('COMBINE', OV, OV, OV), ufn('HAS_OPTIONS', OV, BOOL), ufn('OPTIONS_OF', OV, OV)
KINDS = ('node', 'field', 'enumerant', 'file')
CHILD = {k: ufn('CHILD_' + k, OV, INT, OV) for k in KINDS}
NCH = {k: ufn('NCHILD_' + k, OV, INT) for k in KINDS}
AT = {k: ufn('INDEX_OF_SUBTREE_' + k, OV, OV, INT) for k in KINDS}     # which child's tree holds d, -1 if none
SUB = ufn('IN_TREE', OV, OV, BOOL)                                    # d is e or below it
G_ = 'capnpy.compiler.'
ARR = Z.ArraySort(OV, OV)

def seq_of_children(s, e, k):
    n = NCH[k](e)
    s.pc.append(n >= 0)
    def item(s2, i): return Opq(CHILD[k](e, zi(i)), 'Entity')
    return SymTup(n, item)
def tree_facts(st, e, xs, kinds):
    "e's subtree is e and the disjoint subtrees of its children, for the entities xs"
    for x in xs:
        here = x == e
        st.pc.append(Z.And(*[Z.And(AT[k](e, x) >= -1, AT[k](e, x) < NCH[k](e), NCH[k](e) >= 0) for k in kinds]))
        st.pc.append(Z.Implies(here, Z.And(*[AT[k](e, x) == -1 for k in kinds])))
        if len(kinds) == 2: st.pc.append(Z.Or(AT[kinds[0]](e, x) == -1, AT[kinds[1]](e, x) == -1))
        st.pc.append(SUB(e, x) == Z.Or(here, *[AT[k](e, x) >= 0 for k in kinds]))
        for k in kinds:
            j = AT[k](e, x)
            st.pc.append(Z.Implies(j >= 0, SUB(CHILD[k](e, j), x)))
def eff_def(st, e, o, x, kinds):
    r = EFF(e, OWN(e, o), x)
    for k in kinds: r = Z.If(AT[k](e, x) >= 0, EFF(CHILD[k](e, AT[k](e, x)), OWN(e, o), x), r)
    r = Z.If(x == e, OWN(e, o), r)
    st.pc.append(EFF(e, o, x) == r)
def child_in(s, e, k, j, x):
    "x is in the tree of child j of e exactly when j is the index"
    s.pc.append(SUB(CHILD[k](e, zi(j)), x) == (AT[k](e, x) == zi(j)))
def own(s, e, o):
    v = Z.If(HASANN(e), COMB(o, ANN(e)), o)
    s.pc.append(OWN(e, o) == v)
    return v

def table(s): return s.heap[s.ghost['c18']['tab'].id]['arr']
def settable(s, a): s.heap[s.ghost['c18']['tab'].id] = dict(arr=a)
BM.INDEX['opttable'] = lambda ex, s, o, i: iter([(s, Opq(Z.Select(s.heap[o.id]['arr'], i.t), 'Options'))])
def _settab(ex, s, o, i, v):
    if not (isinstance(i, Opq) and isinstance(v, Opq) and v.cls == 'Options'): raise Unsupported('option table entry')
    s.heap[o.id] = dict(arr=Z.Store(s.heap[o.id]['arr'], i.t, v.t))
BM.SETINDEX['opttable'] = _settab
BM.INDEX['childmap'] = lambda ex, s, o, i: iter([(s, seq_of_children(s, i.t, 'node'))])
BM.INDEX['nodemap'] = lambda ex, s, o, i: iter([(s, Opq(i.t, 'Entity'))])
BM.OATTR['Entity', 'id'] = lambda ex, s, o: iter([(s, Opq(o.t, 'id'))])
def method_of(name, cls, f):
    BM.OATTR[cls, name] = lambda ex, s, o: iter([(s, Builtin('%s.%s' % (cls, name), o))])
    BM.CALLS['%s.%s' % (cls, name)] = f
def _children(k):
    def f(ex, s, args, kw):
        e = args[0].t
        for s2, none in ex.branch(s, NCH[k](e) < 0 if False else ufn('NO_' + k, OV, BOOL)(e)):
            if none:
                s2.pc.append(NCH[k](e) == 0)
                yield s2, (None if k == 'field' else Tup([]))
            else: yield s2, seq_of_children(s2, e, k)
    return f
method_of('get_struct_fields', 'Entity', _children('field'))
method_of('get_enum_enumerants', 'Entity', lambda ex, s, args, kw: iter([(s, seq_of_children(s, args[0].t, 'enumerant'))]))
def _compute(ex, s, args, kw):
    "the contract of compute_options, on any entity"
    e, m, o = args
    if not (isinstance(m, Ref) and m.id == s.ghost['c18']['m'].id and isinstance(o, Opq) and o.cls == 'Options'): raise Unsupported('compute_options arguments')
    T0 = table(s)
    T1 = Z.Const('table_%s' % fresh('t'), ARR)
    for x in s.ghost['c18']['xs']: s.pc.append(Z.Select(T1, x) == Z.If(SUB(e.t, x), EFF(e.t, o.t, x), Z.Select(T0, x)))
    settable(s, T1)
    yield s, None
method_of('compute_options', 'Entity', _compute)
BM.OATTR['Options', 'combine'] = lambda ex, s, o: iter([(s, Builtin('Options.combine', o))])
BM.CALLS['Options.combine'] = lambda ex, s, args, kw: iter([(s, Opq(COMB(args[0].t, args[1].t), 'Options'))])

class Generic(Contract):
    def apply(self, ex, st, env):
        e, o = env['entity'], env['parent_opt']
        settable(st, Z.Store(table(st), e.t, own(st, e.t, o.t)))
        yield st, None
contract(G_ + 'module:ModuleGenerator.compute_options_generic', modes=('py',))(Generic)
def setup(t, kinds, cls='ModuleGenerator'):
    for n in ('module', 'node', 'struct_', 'enum', 'field'): t.w.module(G_ + n)
    st = t.st()
    tab = st.new('opttable', arr=Z.Const('table', ARR))
    m = st.new(cls, _node_options=tab, children=st.new('childmap'), allnodes=st.new('nodemap'), default_options=Opq(fresho('default'), 'Options'))
    e, d, o = fresho('e'), fresho('d'), fresho('opt')
    t.ex.unfolds = True
    st.ghost['c18'] = dict(m=m, tab=tab, e=e, d=d, o=o, xs=(e, d))
    tree_facts(st, e, (e, d), kinds)
    eff_def(st, e, o, d, kinds)
    own(st, e, o)
    return st, m, Opq(e, 'Entity'), Opq(o, 'Options'), d
def cells(s, T0, e, o, xs, sub, eff): return [('entry-%d' % i, Z.Select(table(s), x) == Z.If(sub(x), eff(x), Z.Select(T0, x))) for i, x in enumerate(xs)]
class Children(LoopSpec):
    "after k children: their trees are done, nothing else changed"
    kind = 'node'
    def inv(self, ex, st0, st, k):
        g = st.ghost['c18']
        e, T0, o = g['e'], table(st0), g.get('own')
        if o is None: o = OWN(e, g['o'])
        out = []
        for i, x in enumerate(g['xs']):
            j = AT[self.kind](e, x)
            out.append(('done-%d' % i, Z.Select(table(st), x) == Z.If(Z.And(j >= 0, j < zi(k)), EFF(CHILD[self.kind](e, j), o, x), Z.Select(T0, x))))
        return out
    def unfold(self, ex, st0, st, k):
        g = st.ghost['c18']
        for x in g['xs']: child_in(st, g['e'], self.kind, Z.IntVal(k), x)
    def havoc(self, ex, st0, st, k):
        g = st.ghost['c18']
        settable(st, Z.Const('table_%s' % fresh('h'), ARR))
        for x in g['xs']: child_in(st, g['e'], self.kind, k, x)
        return {('heap', g['tab'].id, 'arr')}
class Fields(Children): kind = 'field'
class Enumerants(Children): kind = 'enumerant'
class Files(Children): kind = 'file'
loop(G_ + 'node:Node.compute_options', 0, modes=('py',))(Children)
loop(G_ + 'struct_:Node__Struct.compute_options', 0, modes=('py',))(Fields)
loop(G_ + 'enum:Node__Enum.compute_options', 0, modes=('py',))(Enumerants)
loop(G_ + 'module:ModuleGenerator.compute_all_options', 0, modes=('py',))(Files)

def result(t, st, m, e, o, d, kinds):
    T0 = table(st)
    def ret(s, v):
        for x, nm in ((d, 'any-entity'), (e.t, 'itself')):
            want = EFF(e.t, o.t, x) if x is d else OWN(e.t, o.t)
            yield nm, Z.Select(table(s), x) == Z.If(SUB(e.t, x), want, Z.Select(T0, x))
    return ret
def node_task(key, kinds, super_=None):
    def run(t):
        st, m, e, o, d = setup(t, kinds)
        if super_:
            # the class of struct and enum nodes is a subclass of Node that adds nothing of its own here
            ext = t.w.module('capnpy.schema_extended')
            me = key.split(':')[1].split('.')[0]
            c0 = ext.classes.get(me)
            if c0 is None or list(c0.bases) != ['Node'] or 'compute_options' in c0.methods: raise Unsupported('class %s' % me)
            BM.VALUES['capnpy.schema'] = {me: ClsV(me, c0)}
            def sup(ex, s, cls, self_, args, kw):
                "Node.compute_options, discharged below: e itself and its nested nodes"
                if self_.t is not e.t and not Z.is_true(simp(self_.t == e.t)): raise Unsupported('super of another object')
                T0 = table(s)
                own(s, e.t, args[1].t)
                T1 = Z.Const('table_%s' % fresh('t'), ARR)
                for x in s.ghost['c18']['xs']:
                    j = AT['node'](e.t, x)
                    s.pc.append(Z.Select(T1, x) == Z.If(x == e.t, OWN(e.t, args[1].t), Z.If(j >= 0, EFF(CHILD['node'](e.t, j), OWN(e.t, args[1].t), x), Z.Select(T0, x))))
                settable(s, T1)
                yield s, None
            t.ex.local['super.compute_options'] = sup
        t.expect(t.run(st, [e, m, o]), ret=result(t, st, m, e, o, d, kinds))
    task(key, ['C18'], modes=('py',))(run)
node_task(G_ + 'node:Node.compute_options', ('node',))
node_task(G_ + 'struct_:Node__Struct.compute_options', ('node', 'field'), True)
node_task(G_ + 'enum:Node__Enum.compute_options', ('node', 'enumerant'), True)
node_task(G_ + 'field:Field.compute_options', ())
node_task(G_ + 'enum:Enumerant.compute_options', ())
@task(G_ + 'module:ModuleGenerator.compute_all_options', ['C18'], modes=('py',))
def all_options(t):
    st, m, e, o, d = setup(t, ('file',))
    dflt = st.heap[m.id]['default_options']
    g = st.ghost['c18']
    g['own'] = dflt.t
    files = seq_of_children(st, e.t, 'file')
    r = st.new('request', requestedFiles=files)
    st.heap[m.id]['request'] = r
    T0 = table(st)
    def ret(s, v):
        j = AT['file'](e.t, d)
        yield 'any-entity', Z.Select(table(s), d) == Z.If(j >= 0, EFF(CHILD['file'](e.t, j), dflt.t, d), Z.Select(T0, d))
    t.expect(t.run(st, [m]), ret=ret)
@task(G_ + 'module:ModuleGenerator.compute_options_generic', ['C18'], modes=('py',))
def generic(t):
    st, m, e, o, d = setup(t, ())
    T0 = table(st)
    class HasAnn(Contract):
        key = 'has_annotation'
        def apply(self, ex, s, env):
            if not (isinstance(env['obj'], Opq) and isinstance(env['anncls'], ClsV) and env['anncls'].name == 'options'): raise Unsupported('has_annotation')
            for s2, y in ex.branch(s, HASANN(env['obj'].t)): yield s2, (Opq(env['obj'].t, 'Ann') if y else None)
    t.ex.local[G_ + 'module:ModuleGenerator.has_annotation'] = HasAnn()
    t.expect(t.run(st, [m, e, o]), ret=lambda s, v: [('own', Z.Select(table(s), e.t) == OWN(e.t, o.t)), ('frame', Z.Implies(d != e.t, Z.Select(table(s), d) == Z.Select(T0, d)))])
def chain(cls, n, to): BM.OATTR[cls, n] = lambda ex, s, o: iter([(s, Opq(o.t, to))])
BM.OATTR['Ann', '__bool__'] = True          # a struct object defines no __bool__ and no __len__
chain('Ann', 'annotation', 'Ann1'); chain('Ann1', 'value', 'Ann2'); chain('Ann2', 'struct', 'Ann3')
def _as_struct(ex, s, args, kw):
    if not (isinstance(args[1], ClsV) and args[1].name == 'Options'): raise Unsupported('as_struct')
    yield s, Opq(ANN(args[0].t), 'Options')
method_of('as_struct', 'Ann3', _as_struct)
@task(G_ + 'module:ModuleGenerator.options', ['C18'], modes=('py',))
def options(t):
    st, m, e, o, d = setup(t, ())
    t.expect(t.run(st, [m, e]), ret=lambda s, v: [('entry', v.t == Z.Select(table(s), e.t) if isinstance(v, Opq) else False)])

# ---- combine
def snake(n): return ''.join('_' + c.lower() if c.isupper() else c for c in n)
def option_fields(root):
    S = cgr.Schema(os.path.join(root, 'capnpy', 'annotate.capnp'), [root])
    return {snake(f.name): S.nodes[f.type.type_id].name for f in S.by_name['Options'].fields}
NOTSET = {n: Z.Const('notset_' + n, OV) for n in ('BoolOption', 'TextType')}
# an option is an int (BaseEnum): two of one class are equal when the ints are; which int is notset is read from the schema
ORD = ufn('option_int', OV, INT)
def notset_ordinal(root, n):
    S = cgr.Schema(os.path.join(root, 'capnpy', 'annotate.capnp'), [root])
    return S.by_name[n].enumerants.index('notset')
BM.OATTR['TextType', '__bool__'] = 'int'        # BoolOption has a __bool__ of its own
for _n in NOTSET:
    BM.OATTR[_n, '__int__'] = lambda o: ORD(o.t)
    BM.OATTR[_n, '__class__'] = lambda ex, s, o, _n=_n: iter([(s, Opq(Z.Const('class_' + _n, OV), 'cls:' + _n))])
    BM.OATTR['cls:' + _n, 'notset'] = lambda ex, s, o, _n=_n: iter([(s, Opq(NOTSET[_n], _n))])
    BM.OATTR['cls:' + _n, 'issubclass'] = lambda ex, s, o, c: iter([(s, isinstance(c, ClsV) and c.name == 'BaseEnum')])
    BM.OATTR['cls:' + _n, 'hasattr'] = lambda ex, s, o, c: iter([(s, c == 'notset')])
@task('capnpy.annotate_extended:Options.combine', ['C18'], modes=('py',))
def combine(t):
    want = option_fields(t.w.root)
    F = {n: ufn('OPT_' + n, OV, OV) for n in want}
    got = []
    st = t.st()
    for n, c in want.items(): BM.OATTR['OptObj', n] = lambda ex, s, o, n=n, c=c: iter([(s, Opq(F[n](o.t), c))])
    c, fields = t.w.class_attr('Options', 'FIELDS') if t.w.module('capnpy.annotate_extended') else (None, None)
    def attr_fields(ex, s, o):
        for x in ex.force(('expr', t.w.module('capnpy.annotate_extended').classes['Options'].attrs['FIELDS'], t.w.module('capnpy.annotate_extended')), s): yield x
    BM.OATTR['OptObj', 'FIELDS'] = attr_fields
    BM.OATTR['OptObj', '__class__'] = lambda ex, s, o: iter([(s, Opq(Z.Const('Options', OV), 'OptCls'))])
    def make(ex, s, fv, args, kw):
        if args: raise Unsupported('Options positional arguments')
        yield s, Built(kw)
    class Built(object):
        def __init__(self, kw): self.kw = kw
    BM.OCALL['OptCls'] = make
    for c in sorted(NOTSET): st.pc.append(ORD(NOTSET[c]) == notset_ordinal(t.w.root, c))
    a, b = Opq(fresho('a'), 'OptObj'), Opq(fresho('b'), 'OptObj')
    def ret(s, v):
        ok = isinstance(v, Built)
        yield 'an-Options-object', ok
        if not ok: return
        yield 'all-options', set(v.kw) == set(want)
        for n, c in want.items():
            x = v.kw.get(n)
            yield n, (ORD(x.t) == Z.If(ORD(F[n](b.t)) != ORD(NOTSET[c]), ORD(F[n](b.t)), ORD(F[n](a.t))) if isinstance(x, Opq) and x.cls == c else False)
    t.expect(t.run(st, [a, b]), ret=ret)
