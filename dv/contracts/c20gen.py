"""C20 for the structs of every schema: what Node__Struct._emit_repr (and _shortrepr_for_field) write for a struct of five members - one of any kind, the same in a union, with
the first tag and with another, a group and a nullable group -, read as the class body it is (c11gen.py) and proved against the contract of shortrepr (c20.py): which members
appear, under the names of the schema, with which text.
Assumed: as in c11gen.py; more members are further statements of the same form."""
from vc import *
from contracts import c20 as R, c11gen as A, gencode as GC
NS = 'capnpy.compiler.struct_:Node__Struct'
CAPNAME = ufn('CAPNP_FIELD_NAME', OV, OV)
class CapName(Contract):
    key, modes = A.M_ + 'ModuleGenerator.capnp_field_name', ('py',)
    def apply(self, ex, s, env): yield s, Opq(CAPNAME(env['field'].t), 'CodeName')
class Nullable(Contract):
    key, modes = A.M_ + 'ModuleGenerator.has_annotation', ('py',)
    def __init__(self, f): self.f = f
    def apply(self, ex, s, env):
        if not (isinstance(env['anncls'], ClsV) and env['anncls'].name == 'nullable'): raise Unsupported('another annotation')
        yield s, (Opq(Z.Const('the nullable annotation', OV), 'NullAnn') if isinstance(env['obj'], Opq) and env['obj'].t.eq(self.f.t) else None)
BM.OATTR['NullAnn', '__bool__'] = True
def five(k):
    ms, pcs = [], []
    for n, kk, tag in (('x', k, None), ('u0', k, 0), ('u1', k, fresh('tag')), ('g', 'group', None), ('n', 'group', None)):
        f = A.F_(t=fresho('field_' + n), name=n, type=None if kk == 'group' else A.ty_of(kk), kind=kk, in_union=tag is not None, tag=tag, default=0, raw=fresh('offset'))
        f.is_group, f.offset = kk == 'group', f.raw
        f.pyname, f.name = n + '_py', n + 'Py'
        if n == 'u1': pcs.append(And(tag > 0, tag < 1 << 16 - 1))
        ms.append(f)
    pcs.append(Z.Distinct(*[f.t for f in ms]))
    return ms, pcs
class Text(A.Text):
    def __init__(self, ms, pcs, t):
        A.Text.__init__(self, ms, pcs, t)
        self.names = [(A.NAMEOF(f.t), f.pyname) for f in ms] + [(CAPNAME(f.t), f.name) for f in ms]
    def part(self, p):
        if not isinstance(p, str) and isbool(p.v):
            s = St(); s.pc += self.pcs
            if not self.t.ex.feasible(s, Not(p.v)): return 'True'
            if not self.t.ex.feasible(s, zb(p.v)): return 'False'
            return self.number(Z.If(zb(p.v), Z.IntVal(1), Z.IntVal(0)), False)
        return A.Text.part(self, p)
def repr_task(k, tt):
    v = 'any' + ('_u' if tt == 'unicode' else '')
    @task(NS + '._emit_repr', ['C20'], variants=('%s:%s' % (v, k),), name='any-schema:' + NS + '._emit_repr', weight=3)
    def run(t):
        ms, pcs = five(k)
        by = lambda o: [f for f in ms if f.t.eq(o.t)][0]
        node = fresho('node')
        def call(t1, s, m, f, lines):
            if f is not ms[0]: return [(s, None)]
            O = BM.OATTR
            O['GNode', 'dv_classes'] = (NS, 'capnpy.compiler.node:Node')
            for n, g in (('is_slot', lambda o: not by(o).is_group), ('is_group', lambda o: by(o).is_group), ('which', lambda o: Opq(o.t, 'TAG:Field.' + ('group' if by(o).is_group else 'slot')))):
                A.method_of('GField', n, lambda ex, s, args, kw, g=g: iter([(s, g(args[0]))]))
            A.method_of('GNode', 'get_struct_fields', lambda ex, s, args, kw: iter([(s, Tup([Opq(f.t, 'GField') for f in ms]))]))
            t1.ex.local[CapName.key], t1.ex.local[Nullable.key] = CapName(), Nullable(ms[4])
            return t1.run(s, [Opq(node, 'GNode'), m], key=NS + '._emit_repr')
        for facts, lines in A.stage1(t, 'int8', ms, pcs, tt, call=call):
            txt = Text(ms, facts, t)
            m = A.module(t, v, txt.lines(lines), '0', txt)
            t.ex.ob('generated/is-a-class-body', St(), m is not None)
            if m is None: continue
            t.w.mods['gen.dvany'] = m
            t.gen = m
            c = A.N__(name='DvC', node=A.N__(fields=ms))
            text(t, c, v, ms, facts)
    run
def text(t, c, name, ms, facts):
    old = t.st
    t.st = lambda: (lambda s: (s.pc.extend(facts), s)[1])(old())
    R.struct_text(t, c, name, None, names={f.name: f.pyname for f in ms}, null=ms[4], key='gen.dvany:DvC.shortrepr')
    t.st = old
for _k in A.KINDS:
    if _k == 'interface': continue
    repr_task(_k, 'bytes')
    if _k == 'text': repr_task(_k, 'unicode')
