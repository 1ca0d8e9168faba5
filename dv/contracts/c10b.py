"""C10: AnyPointer fields. An AnyPointer names a pointer slot of a struct; each of its methods is specified in terms of resolve() and the readers of c10.py, for all
messages, and so treats a far pointer like the pointer it leads to."""
from vc import *
from contracts.c10 import *
from contracts.c10 import mkstruct, field_pos, pointer_at, null_fields, struct_at, list_at, text_like
AP = 'capnpy.anypointer:AnyPointer'
def mkany(t, multi):
    t.w.module('capnpy.anypointer')
    st = t.st()
    r, seg, b, o, d, P, q = mkstruct(t, st, multi)
    off = field_pos(st)
    t.w.module('capnpy.anypointer')
    a = st.new('AnyPointer', struct_=r, offset=off)
    return st, a, seg, b, off, P, q
def any_kind(nm, spec):
    @task(AP + '.' + nm, ['C10'], variants=V2)
    def f(t):
        st, a, seg, b, off, P, q = mkany(t, t.variant == 'multi')
        ok, o2, p2 = pointer_at(t.ex, st, seg, P, q, off)
        null_fields(st, p2)
        t.expect(t.method(st, a, nm, []), raises=[(Not(ok), BADFAR)], ret=lambda s, v: [('answer', zb(BM.truth(t.ex, s, v)) == zb(spec(s, p2)) if hasattr(BM, 'truth') else zb(v) == zb(spec(s, p2)))])
any_kind('is_struct', lambda s, p: F(s, p, 'kind') == 0)
any_kind('is_list', lambda s, p: F(s, p, 'kind') == 1)
any_kind('is_text', lambda s, p: And(F(s, p, 'kind') == 1, F(s, p, 'ltag') == 2))
@task(AP + '.as_struct', ['C10'], variants=V2, weight=3)
def as_struct(t):
    st, a, seg, b, off, P, q = mkany(t, t.variant == 'multi')
    ok, o2, p2 = pointer_at(t.ex, st, seg, P, q, off)
    null_fields(st, p2)
    D = zi(o2) + 8 + 8 * F(st, p2, 'offset')
    fits = D + 8 * (F(st, p2, 'dsz') + F(st, p2, 'psz')) <= zi(b.len)
    good = And(ok, Or(zi(p2) == 0, And(F(st, p2, 'kind') == 0, fits)))
    def ret(s, v):
        yield 'null', (zi(p2) == 0) == (v is None)
        if v is not None:
            for x in struct_at(t, s, v, seg, o2, p2): yield x
    t.expect(t.method(st, a, 'as_struct', [ClsV('Struct', t.w.find_class('Struct'))]), raises=[(Not(good), BADFAR)], ret=ret)
@task(AP + '.as_list', ['C10'], variants=V2, weight=3)
def as_list(t):
    "with an ItemType; other arguments are turned into one by ItemType.from_type"
    st, a, seg, b, off, P, q = mkany(t, t.variant == 'multi')
    ok, o2, p2 = pointer_at(t.ex, st, seg, P, q, off)
    null_fields(st, p2)
    it = Opq(fresho('item_type'), 'ItemType')
    L = zi(o2) + 8 + 8 * F(st, p2, 'offset')
    good = And(ok, Or(zi(p2) == 0, And(F(st, p2, 'kind') == 1, Implies(F(st, p2, 'ltag') == 7, inside(st, seg, L)))))
    def ret(s, v):
        yield 'null', (zi(p2) == 0) == (v is None)
        if v is not None:
            for x in list_at(t, s, v, seg, o2, p2, it): yield x
    t.expect(t.method(st, a, 'as_list', [it]), raises=[(Not(good), BADFAR)], ret=ret)
def any_bytes(nm, add):
    @task(AP + '.' + nm, ['C10'], variants=V2, weight=2)
    def f(t):
        st, r, seg, b, off, p2, S, n, good = text_like(t, add, None)
        t.w.module('capnpy.anypointer')
        a = st.new('AnyPointer', struct_=r, offset=off)
        def ret(s, v):
            yield 'null', (zi(p2) == 0) == (v is None) if v is None else zi(p2) != 0
            if v is not None:
                x = BM.as_seq(t.ex, s, v)
                if x is None:
                    yield 'bytes', False
                    return
                j = fresh('j')
                yield 'length', zi(x.len) == n
                yield 'bytes', Implies(And(j >= 0, j < n), x.store.at(j) == b.store.at(S + j))
        t.expect(t.method(st, a, nm, []), raises=[(Not(good), BADFAR)], ret=ret)
any_bytes('as_text_bytes', -1)
any_bytes('as_data', 0)
@task(AP + '.as_text_unicode', ['C10'], variants=V2, weight=2)
def as_utext(t):
    st, r, seg, b, off, p2, S, n, good = text_like(t, -1, None)
    t.w.module('capnpy.anypointer')
    a = st.new('AnyPointer', struct_=r, offset=off)
    k2, v2 = BM.utf8(st, 'buf', S, n)
    null = zi(p2) == 0
    t.expect(t.method(st, a, 'as_text_unicode', []), raises=[(Not(good), BADFAR), (And(good, Not(null), Not(k2)), ('UnicodeDecodeError',))],
             ret=lambda s, v: [('decoded', null if v is None else And(Not(null), v.t == v2) if isinstance(v, Opq) and v.cls == 'str' else False)])
