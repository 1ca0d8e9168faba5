"""C20: the text form.  Strings are sequences of literal pieces and pieces that are a character-wise image of a given string (Hom: base, and what each character becomes);
replacing a single character maps such a piece to another, so escaping is decided for all strings.
  text_unicode_repr / text_bytes_repr / data_repr   a double-quoted literal which capnp's lexer (unescape() below) reads back as exactly the given text / bytes
  item_repr of every item type                      the text of that item; List.shortrepr: "[" + the items' texts, in order, separated by ", " + "]"
  generated shortrepr()                             "(" + `name = text of the field` for each field that holds something, by its schema name, once, + ")"; a member of a union only when it is the
                                                    active one, and always when it is, unless it is the null pointer member capnp would take as the default anyway
Assumed: repr() of bytes (quote and escapes as documented), of int (decimal), of float (read back by capnp; the bounded part runs it); the grammar of capnp's text format."""
import re
from vc import *
from contracts.c10 import *
from contracts import gencode as GC
U = 'capnpy.util:'

class Hom(object):
    "base with every character c replaced by fn.get(c, c); domain: the characters that can occur (None: all of Unicode)"
    def __init__(self, base, fn=(), domain=None): self.base, self.fn, self.domain = base, dict(fn), domain
    def replace(self, a, b):
        fn = dict((c, x.replace(a, b)) for c, x in self.fn.items())
        if a not in fn and self.domain is None: fn[a] = b
        return Hom(self.base, fn, self.domain)
class Dec(object):
    "decimal digits of an integer"
    def __init__(self, v): self.v = v
class Atom(object):
    def __init__(self, tag, t): self.tag, self.t = tag, t
class IfP(object):
    def __init__(self, b, x, y): self.b, self.x, self.y = b, x, y
class Join(object):
    def __init__(self, sep, L): self.sep, self.L = sep, L
class Cond(object):
    "an element of the list of parts that is there only if cond holds"
    def __init__(self, cond, v): self.cond, self.v = cond, v
class TS(object):
    dv_parts = True
    def __init__(self, parts):
        p = []
        for x in parts:
            for y in (x.p if isinstance(x, TS) else [x]):
                if isinstance(y, str) and p and isinstance(p[-1], str): p[-1] += y
                elif y != '' or not isinstance(y, str): p.append(y)
        self.p = p
    def map(self, f): return TS([f(x) for x in self.p])
    def slice(self, lo, hi):
        p = list(self.p)
        if lo is None or lo < 0 or (hi is not None and hi >= 0): raise Unsupported('slice of a text')
        if lo:
            if not (p and isinstance(p[0], str) and len(p[0]) >= lo): raise Unsupported('slice of a text')
            p[0] = p[0][lo:]
        if hi:
            if not (p and isinstance(p[-1], str) and len(p[-1]) >= -hi): raise Unsupported('slice of a text')
            p[-1] = p[-1][:hi]
        return TS(p)
def to_ts(v):
    if isinstance(v, TS): return v
    if isinstance(v, str): return TS([v])
    if isbool(v): return TS([str(v)]) if isinstance(v, bool) else TS([IfP(v, 'True', 'False')])
    if isint(v): return TS([str(conc(v)) if conc(v) is not None else Dec(v)])
    raise Unsupported('text of %r' % (v,))
def replace_in(p, a, b):
    if isinstance(p, str): return p.replace(a, b)
    if isinstance(p, Hom): return p.replace(a, b)
    if isinstance(p, IfP): return IfP(p.b, p.x.replace(a, b), p.y.replace(a, b))
    if isinstance(p, Dec) and a not in '-0123456789': return p
    raise Unsupported('replace in %r' % (p,))
def bytes_literal(quote):
    "what repr() of bytes makes of each byte (CPython's documented bytes literal), quoted by quote"
    fn = {}
    for c in range(256):
        ch = chr(c)
        fn[c] = {'\t': '\\t', '\n': '\\n', '\r': '\\r', '\\': '\\\\'}.get(ch) or ('\\' + ch if ch == quote else ch if 32 <= c < 127 else '\\x%02x' % c)
    return fn
class Text(object):
    "the string operations"
    def binop(self, ex, s, op, a, b):
        if op == '+': return TS([to_ts(a), to_ts(b)])
        if op != '%' or not isinstance(a, str): raise Unsupported('text %s' % op)
        args = list(b.xs) if isinstance(b, Tup) else [b]
        out = []
        for x in re.split(r'(%.)', a):
            if x == '%s' or x == '%d' and isint(args[0]): out.append(to_ts(args.pop(0)))
            elif x == '%%': out.append('%')
            elif x.startswith('%') and len(x) == 2: raise Unsupported('format ' + x)
            else: out.append(x)
        if args: raise Unsupported('format arguments')
        return TS(out)
    def joined(self, vs): return TS([to_ts(v) for v in vs])
    def call(self, ex, st, n, o, args):
        if n.startswith('method.str.') and isinstance(o, str): o, n = to_ts(o), 'text.' + n[11:]
        if n in ('repr', 'str') and len(args) == 1:
            v = args[0]
            if n == 'repr' and isinstance(v, Opq) and v.cls == 'DataBytes':
                def g():
                    # the quote is " when there is a ' and no " in it
                    for s, dq in ex.branch(st, freshb('quote')):
                        q = '"' if dq else "'"
                        yield s, TS(['b' + q, Hom(v.t, bytes_literal(q), [c for c in range(256) if not (dq and c == 34)]), q])
                return g()
            if n == 'repr' and (isbool(v) or isint(v)) or n == 'str' and (isbool(v) or isint(v) or isinstance(v, (TS, str))): return iter([(st, to_ts(v))])
            return None
        if not n.startswith('text.') or not isinstance(o, TS): return None
        return iter([(st, self.method(ex, st, n[5:], o, args))])
    def method(self, ex, st, n, o, args):
        first = o.p[0] if o.p and isinstance(o.p[0], str) else None
        if n == 'replace' and len(args) == 2 and all(isinstance(x, str) for x in args) and len(args[0]) == 1: return o.map(lambda p: replace_in(p, *args))
        if n == 'lower' and not args: return o.map(lambda p: p.lower() if isinstance(p, str) else IfP(p.b, p.x.lower(), p.y.lower()) if isinstance(p, IfP) else replace_in(p, '?', '?') if isinstance(p, Dec) else self.no(n))
        if n == 'startswith' and len(args) == 1 and first is not None and len(first) >= len(args[0]): return first.startswith(args[0])
        if n == 'lstrip' and len(args) == 1 and first is not None and (first.lstrip(args[0]) or len(o.p) == 1): return TS([first.lstrip(args[0])] + o.p[1:])
        if n == 'join' and len(o.p) == 1 and first is not None and len(args) == 1 and isinstance(args[0], Ref) and args[0].cls == 'list':
            L = st.get(args[0], 'L')
            if conc(L.n) is None: return TS([Join(first, L)])
            return TS([Join(first, [L.item(st, i) for i in range(conc(L.n))])])
        return self.no(n)
    def no(self, n): raise Unsupported('text operation ' + n)

def unescape(x):
    "capnp's string literal: the characters x stands for between double quotes, None if x does not end where it ends on its own"
    out, i = [], 0
    while i < len(x):
        c = x[i]
        if c in '"\n\0': return None
        if c != '\\':
            out.append(c); i += 1
            continue
        e = x[i + 1:i + 2]
        m = re.match(r'x([0-9a-fA-F]{2})', x[i + 1:]) or re.match(r'([0-7]{3})', x[i + 1:])
        if m and m.group(0)[0] == 'x': out.append(('byte', int(m.group(1), 16))); i += 4
        elif m: out.append(('byte', int(m.group(1), 8))); i += 4
        elif e in tuple('abfnrtv\'"\\?'): out.append(dict(a='\a', b='\b', f='\f', n='\n', r='\r', t='\t', v='\v').get(e, e)); i += 2
        else: return None
    return out
def reads_back(ts, base):
    "(name, goal)s: ts is a literal capnp reads as base"
    shape = isinstance(ts, TS) and len(ts.p) == 3 and ts.p[0] == '"' and ts.p[2] == '"' and isinstance(ts.p[1], Hom) and ts.p[1].base.eq(base)
    if not (isinstance(ts, TS) and len(ts.p) == 3 and isinstance(ts.p[0], str) and isinstance(ts.p[1], Hom) and isinstance(ts.p[2], str)): raise Unsupported('the form of the text')
    yield 'quoted', shape
    if not shape: return
    h = ts.p[1]
    if h.domain is None:
        bad = []
        for c in sorted(set(h.fn) | set('"\\\n\0\'\t\r\x01\x7f\x80aA0 \u20ac\U0001f600')):
            u = unescape(h.fn.get(c, c))
            if u not in ([c], [('byte', ord(c))] if ord(c) < 128 else [c]): bad.append((c, h.fn.get(c, c)))
    else:
        bad = [(c, h.fn.get(c)) for c in h.domain if unescape(h.fn[c]) not in (([chr(c)] if c < 128 else None), [('byte', c)])]
    yield 'escapes-read-back' + ('' if not bad else '/%s' % ascii(bad[0])), not bad

def merge_if(ex, x, st):
    "`if c: parts.append(v)` without splitting the path: the list gets an element that is there only if c holds"
    base, nf = len(st.pc), len(st.facts)
    lists = dict((k, h['L']) for k, h in st.heap.items() if 'L' in h)
    b = freshb('if')
    facts, raised = [], []
    for s, v in ex.ev(x.a[0], st.fork()):
        if isinstance(v, Exc):
            raised.append((s, ('raise', v.cls)))
            continue
        if len(s.facts) != nf or any(s.heap[k].get('L') is not L for k, L in lists.items()): return None
        facts.append(Z.Implies(Z.And(*[zb(c) for c in s.pc[base:]]), b == zb(ex.truth(v, s))))
    outs = [o for o in ex.block(x.a[1], st.fork(b, *facts)) if ex.feasible(o[0])]
    if len(outs) != 1 or outs[0][1] is not None: return None
    s2 = outs[0][0]
    ch = [k for k, L in lists.items() if s2.heap[k]['L'] is not L]
    if len(ch) != 1 or set(s2.env) != set(st.env) or any(s2.env[k] is not st.env[k] for k in st.env): return None
    L0, L1 = lists[ch[0]], s2.heap[ch[0]]['L']
    if conc(L0.n) is None or conc(L1.n) != conc(L0.n) + 1: return None
    el = L1.item(s2, conc(L0.n))
    st.pc += facts
    st.heap[ch[0]]['L'] = L0.append(ex, st, Cond(b, el))
    return raised + [(st, None)]
def setup(t):
    t.ex.local['text'] = Text()
    t.ex.local['merge_if'] = merge_if
BM.OATTR['GText', '__bool__'] = lambda v: ufn('IS_NOT_EMPTY', OV, BOOL)(v.t)
BM.OATTR['GValue', 'shortrepr'] = lambda ex, s, o: iter([(s, Exc('AttributeError'))])      # None and the values of members that are no pointers
DECODED = ufn('DECODED', OV, OV)
def with_decode(t):
    class D(Contract):
        key = U + 'decode_maybe'
        def apply(self, ex, st, env):
            v = env['s']
            if not (isinstance(v, Opq) and v.cls == 'TextBytes'): raise Unsupported('decode_maybe of %r' % (v,))
            yield st.fork(), Exc('UnicodeDecodeError')
            yield st, TS([Hom(DECODED(v.t))])
    t.ex.local[U + 'decode_maybe'] = D()
@task(U + 'text_unicode_repr', ['C20'], modes=('py',))
def text_unicode(t):
    setup(t)
    u = fresho('text')
    t.expect(t.run(t.st(), [TS([Hom(u)])]), ret=lambda s, v: list(reads_back(v, u)))
@task(U + 'text_bytes_repr', ['C20'], modes=('py',))
def text_bytes(t):
    setup(t); with_decode(t)
    u = fresho('bytes')
    t.expect(t.run(t.st(), [Opq(u, 'TextBytes')]), ret=lambda s, v: list(reads_back(v, DECODED(u))), maybe=[(True, ('UnicodeDecodeError',))])
@task(U + 'data_repr', ['C20'], modes=('py',))
def data(t):
    setup(t)
    u = fresho('bytes')
    t.expect(t.run(t.st(), [Opq(u, 'DataBytes')]), ret=lambda s, v: list(reads_back(v, u)))

# ---- what one value is printed as, and the functions that do it, used through their contracts from here on
def printers(t):
    for fn, tag in (('text_bytes_repr', 'text'), ('text_unicode_repr', 'utext'), ('data_repr', 'data')):
        class P(Contract):
            key = U + fn
            _tag = tag
            def apply(self, ex, st, env):
                v = env['s']
                if not isinstance(v, Opq): raise Unsupported('%s of %r' % (self.key, v))
                yield st, TS([Atom(self._tag, v.t)])
        t.ex.local[U + fn] = P()
for _n in ('float32_repr', 'float64_repr'):
    BM.MODELLED['capnpy.util', _n] = 1
    BM.CALLS['capnpy.util.' + _n] = lambda ex, s, args, kw, _n=_n: iter([(s, TS([Atom(_n, args[0].t)]))])
def meth(cls, n, f):
    BM.OATTR[cls, n] = lambda ex, s, o: iter([(s, Builtin('%s.%s' % (cls, n), o))])
    BM.CALLS['%s.%s' % (cls, n)] = f
meth('GObj', 'shortrepr', lambda ex, s, args, kw: iter([(s, TS([Atom('short', args[0].t)]))]))
meth('GEnum', '_capnp_name', lambda ex, s, args, kw: iter([(s, TS([Atom('enum', args[0].t)]))]))
def parts_eq(a, b):
    "goal: the two texts are equal, piece by piece"
    if not isinstance(a, TS): a = to_ts(a)
    if len(b.p) == 1 and isinstance(b.p[0], IfP) and len(a.p) == 1 and isinstance(a.p[0], str): return Or(And(b.p[0].b, a.p[0] == b.p[0].x), And(Not(b.p[0].b), a.p[0] == b.p[0].y))
    if len(a.p) != len(b.p): return False
    g = []
    for x, y in zip(a.p, b.p):
        if type(x) is not type(y): return False
        if isinstance(x, str): g.append(x == y)
        elif isinstance(x, Atom): g += [x.tag == y.tag, x.t == y.t if x.t.sort() == y.t.sort() else False]
        elif isinstance(x, Dec): g.append(zi(x.v) == zi(y.v))
        elif isinstance(x, IfP): g += [zb(x.b) == zb(y.b), (x.x, x.y) == (y.x, y.y)]
        else: return False
    return And(*g) if g else True

# ---- items
def item_task(cls, attrs, mk, want, variant=None, key=None):
    def run(t):
        setup(t); printers(t)
        st = t.st()
        it = st.new(cls, **(attrs(t) if callable(attrs) else attrs))
        v = mk()
        outs = t.run(st, [it, v], key='capnpy.list:%s.item_repr' % (key or cls))
        t.expect(outs, ret=lambda s, r: [('text', parts_eq(r, want(v)) if isinstance(r, (TS, str)) else False)])
    task('capnpy.list:%s.item_repr' % (key or cls), ['C20'], variants=(variant,))(run)
class ListType(object): pass
def types(n): return lambda t: dict(t=BM.types_attr(t.ex, t.st(), n))
item_task('VoidItemType', {}, lambda: None, lambda v: TS(['void']))
item_task('BoolItemType', {}, lambda: freshb('item'), lambda v: TS([IfP(v, 'true', 'false')]))
for _k in ('int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64'): item_task('PrimitiveItemType', types(_k), lambda: fresh('item'), lambda v: TS([Dec(v)]), _k)
for _k in ('float32', 'float64'): item_task('PrimitiveItemType', types(_k), lambda: Opq(fresho('item'), 'GFloat'), lambda v, _k=_k: TS([Atom(_k + '_repr', v.t)]), _k)
item_task('EnumItemType', {}, lambda: Opq(fresho('item'), 'GEnum'), lambda v: TS([Atom('enum', v.t)]))
item_task('StructItemType', {}, lambda: Opq(fresho('item'), 'GObj'), lambda v: TS([Atom('short', v.t)]))
item_task('ListItemType', {}, lambda: Opq(fresho('item'), 'GObj'), lambda v: TS([Atom('short', v.t)]))
item_task('TextItemType', dict(additional_size=-1), lambda: Opq(fresho('item'), 'GText'), lambda v: TS([Atom('text', v.t)]), 'text')
item_task('TextItemType', dict(additional_size=0), lambda: Opq(fresho('item'), 'GText'), lambda v: TS([Atom('data', v.t)]), 'data')
item_task('TextUnicodeItemType', dict(additional_size=-1), lambda: Opq(fresho('item'), 'GText'), lambda v: TS([Atom('utext', v.t)]), 'text')
for _c, _a in (('TextItemType', -1), ('TextItemType', 0), ('TextUnicodeItemType', -1)): item_task(_c, dict(additional_size=_a), lambda: None, lambda v: TS(['""']), ('null', _a))

# ---- enumerants
@task('capnpy.enum:BaseEnum._capnp_name', ['C20'], variants=('own', 'same'))
def enum_name(t):
    setup(t)
    st = t.st()
    v, n = fresh('value'), fresh('count')
    st.pc.append(n >= 1)
    NAME, PYNAME = ufn('SCHEMA_NAME', INT, OV), ufn('PY_NAME', INT, OV)
    same = t.variant == 'same'
    py = SymTup(n, lambda s, i: TS([Atom('name', (NAME if same else PYNAME)(zi(i)))]))
    own = None if same else SymTup(n, lambda s, i: TS([Atom('name', NAME(zi(i)))]))
    t.ex.local['int.__capnp_members__'] = lambda ex, s, o: iter([(s, own)])
    t.ex.local['int.__members__'] = lambda ex, s, o: iter([(s, py)])
    t.expect(t.run(st, [v]), ret=lambda s, r: [('schema-name', Implies(And(v >= 0, v < n), parts_eq(r, TS([Atom('name', NAME(v))])) if isinstance(r, TS) else False))])

# ---- lists
def known_form(v):
    "texts built in a way the contracts do not recognize are not judged"
    if not (isinstance(v, TS) and (len(v.p) == 3 and isinstance(v.p[0], str) and isinstance(v.p[1], Join) and isinstance(v.p[2], str) or all(isinstance(x, str) for x in v.p))): raise Unsupported('the form of the text')
BM.OATTR['GList', '_item_type'] = lambda ex, s, o: iter([(s, Opq(ufn('ITEM_TYPE', OV, OV)(o.t), 'GItemType'))])
meth('GItemType', 'item_repr', lambda ex, s, args, kw: iter([(s, TS([Atom('item', ufn('ITEM_TEXT', OV, OV, OV)(args[0].t, args[1].t))]))]))
BM.ITER['GList'] = lambda ex, s, o: iter([(s, (s.ghost['c20n'], lambda s2, i: Opq(ufn('ITEM', OV, INT, OV)(o.t, zi(i)), 'GItem')))])
@task('capnpy.list:List.shortrepr', ['C20'])
def list_text(t):
    setup(t)
    st = t.st()
    l, n = fresho('list'), fresh('n')
    t.ex.local['any_class'] = {'GList', 'GItemType'}
    st.pc.append(n >= 0)
    st.ghost['c20n'] = n
    def ret(s, v):
        ok = isinstance(v, TS) and len(v.p) == 3 and v.p[0] == '[' and v.p[2] == ']' and isinstance(v.p[1], Join) and v.p[1].sep == ', '
        yield 'brackets', ok
        if not ok: return
        L, k = v.p[1].L, fresh('k')
        if isinstance(L, list):
            yield 'count', n == len(L)
            for i, x in enumerate(L): yield 'item-%d' % i, parts_eq(x, want(i))
            return
        yield 'count', zi(L.n) == n
        s2 = s.fork(And(k >= 0, k < n))
        yield 'items', Implies(And(k >= 0, k < n), parts_eq(L.item(s2, k), want(k)))
    def want(i): return TS([Atom('item', ufn('ITEM_TEXT', OV, OV, OV)(ufn('ITEM_TYPE', OV, OV)(l), ufn('ITEM', OV, INT, OV)(l, zi(i))))])
    t.expect(t.run(st, [Opq(l, 'GList')]), ret=ret)

# ---- generated structs
def snake(n): return re.sub('([a-z0-9])([A-Z])', r'\1_\2', re.sub('(.)([A-Z][a-z]+)', r'\1_\2', n)).lower()
def field_value(f, uni, self_):
    """(what reading the field gives, what get_ gives, the text of it)"""
    v = ufn('FIELD_' + f.name, OV, OV)(self_)
    g = ufn('GET_' + f.name, OV, OV)(self_)
    if f.is_group: return Opq(v, 'GObj'), None, TS([Atom('short', v)])
    k = f.type.kind
    if k == 'void': return None, None, TS(['void'])
    if k == 'prim':
        n = f.type.name
        if n == 'bool':
            b = ufn('FIELD_' + f.name, OV, BOOL)(self_)
            return b, None, TS([IfP(b, 'true', 'false')])
        if n.startswith('float'): return Opq(v, 'GFloat'), None, TS([Atom(n + '_repr', v)])
        i = ufn('FIELD_' + f.name, OV, INT)(self_)
        return i, None, TS([Dec(i)])
    if k == 'enum': return Opq(v, 'GEnum'), None, TS([Atom('enum', v)])
    if k in ('text', 'data'): return Opq(v, 'GText'), Opq(g, 'GText'), TS([Atom('data' if k == 'data' else 'utext' if uni else 'text', g)])
    if k in ('struct', 'list'): return Opq(v, 'GObj'), Opq(g, 'GObj'), TS([Atom('short', g)])
    return Opq(v, 'GOther'), Opq(g, 'GOther'), None
def struct_text(t, c, name, conv, names=None, null=None, key=None):
    setup(t); printers(t)
    t.ex.local['any_class'] = {'GSelf:%s' % c.name}
    uni = name.endswith('_u')
    me = 'GSelf:%s' % c.name
    self_ = fresho('self')
    spec = {}
    def attr(n, v): BM.OATTR[me, n] = lambda ex, s, o: iter([(s, v)])
    def m0(n, v): meth(me, n, lambda ex, s, args, kw: iter([(s, v)]))
    for f in c.node.fields:
        py = names[f.name] if names else GC.pyname(snake(f.name) if conv else f.name)
        v, g, text = field_value(f, uni, self_)
        is_, has = ufn('IS_' + f.name, OV, BOOL)(self_), ufn('HAS_' + f.name, OV, BOOL)(self_)
        attr(py, v)
        if f.is_group: attr('_' + py, v)
        if f is null: attr(py, Opq(fresho('the value, or None'), 'GValue'))
        m0('get_' + py, g); m0('has_' + py, has)
        if f.in_union: m0('is_' + py, is_)
        ptr = not f.is_group and f.type.kind not in ('void', 'prim', 'enum')
        # when it must be there, when it may
        if f.in_union and ptr: spec[f.name] = And(is_, Or(has, f.tag != 0)), is_, text
        elif f.in_union: spec[f.name] = is_, is_, text
        elif ptr: spec[f.name] = has, has, text
        else: spec[f.name] = True, True, text
    def ret(s, v):
        ok = isinstance(v, TS) and len(v.p) == 3 and v.p[0] == '(' and v.p[2] == ')' and isinstance(v.p[1], Join) and v.p[1].sep == ', ' and isinstance(v.p[1].L, list) or isinstance(v, TS) and v.p == ['()']
        known_form(v)
        yield 'parentheses', ok
        if not ok: return
        there, odd = {}, 0
        for x in (v.p[1].L if len(v.p) == 3 else []):
            cond, x = (x.cond, x.v) if isinstance(x, Cond) else (True, x)
            x = to_ts(x)
            m = re.match(r'(\w+) = ', x.p[0]) if x.p and isinstance(x.p[0], str) else None
            if not m or m.group(1) not in spec:
                yield 'a-field-of-the-schema', Not(cond)
                continue
            there.setdefault(m.group(1), []).append((cond, TS([x.p[0][m.end():]] + x.p[1:])))
        for n, (must, may, text) in spec.items():
            xs = there.get(n, [])
            present = Or(*[zb(c) for c, x in xs]) if xs else False
            yield n + '/there', Implies(must, present)
            yield n + '/only-then', Implies(present, may)
            for i, (c, x) in enumerate(xs):
                for c2, _ in xs[:i]: yield n + '/once', Not(And(c, c2))
                if text is not None: yield n + '/text', Implies(c, parts_eq(x, text))
    t.expect(t.run(t.st(), [Opq(self_, me)], key=key or 'gen.%s:%s.shortrepr' % (name, c.name)), ret=ret)
def struct_tasks():
    for n in list(GC.CORPUS) + ['main_c']:
        for c in GC.classes(n if n != 'main_c' else 'main'):
            task('gen.%s:%s.shortrepr' % (n, c.name), ['C20'], modes=('py',) if n == 'main_c' else ('py', 'pyx'), variants=(n,), name='gen.%s:%s.shortrepr' % (n, c.name))(lambda t, c=c, n=n: struct_text(t, c, n, n == 'main_c'))
struct_tasks()
