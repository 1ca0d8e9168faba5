import oracle as O, values as V, mods, subprocess, os, tempfile, shutil
from core import case
from mk import Mk
import h_c11
ms, S = mods.load()
from capnpy import message
CC = []
ROOTS = ['Tree', 'Lists', 'Un', 'Gr', 'KMix', 'Prims', 'Leaf', 'Defs', 'FDefs', 'KText', 'Names']
FILE = os.path.join(mods.HERE, 'schemas', 'main.capnp')

def clean(v):
    "the view, except that a union whose tag the schema does not know or a null/empty pointer distinction cannot be written as text"
    return v

def encode(name, text):
    """the real capnp parses the text as the value of a constant.  (`capnp encode` itself would split its input at parentheses inside
    of strings)"""
    d = tempfile.mkdtemp(prefix='dvc20-')
    try:
        fn = os.path.join(d, 'x.capnp')
        with open(fn, 'wb') as f:
            f.write(('@0xbf5147cbbecf40c1;\nusing M = import "/main.capnp";\nconst c :M.%s = ' % name).encode() + text.encode('utf-8', 'surrogateescape') + b';\n')
        p = subprocess.run(['capnp', 'eval', '-b', '-I' + mods.ROOT, '-I' + os.path.dirname(FILE), fn, 'c'], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        return p.returncode, p.stdout, p.stderr
    finally:
        shutil.rmtree(d)

def norm(S, node, v):
    "text cannot tell a null pointer from an empty one inside a list or an active union member"
    if v is None: return None
    r = {}
    for f in node.fields:
        x = v[1][f.name]
        r[f.name] = norm_field(S, f, x)
    if '#tag' in v[1]: r['#tag'] = v[1]['#tag']
    return ('S', r)
def norm_field(S, f, x):
    if x == '#inactive': return x
    if f.is_group: return norm(S, S.nodes[f.group_id], x) if isinstance(x, tuple) and x[0] == 'S' else x
    return norm_t(S, f.type, x, f.in_union)
def norm_t(S, t, x, fill):
    if x is None and fill:
        if t.kind in ('text', 'data'): return b''
        if t.kind == 'list': return ('L', [])
        if t.kind == 'struct': return norm(S, S.nodes[t.type_id], V.view_struct(S, S.nodes[t.type_id], b'', []))
    if x is None: return None
    if t.kind == 'list': return ('L', [norm_t(S, t.elem, y, True) for y in x[1]])
    if t.kind == 'struct': return norm(S, S.nodes[t.type_id], x)
    return x

def has_unknown(v):
    if isinstance(v, tuple) and v and v[0] == 'e': return v[2] is None
    if isinstance(v, tuple) and v and v[0] == 'L': return any(has_unknown(x) for x in v[1])
    if isinstance(v, tuple) and v and v[0] == 'S': return any(has_unknown(x) for k, x in v[1].items() if k != '#tag')
    return False
def unknown_tag(node, v):
    if not (isinstance(v, tuple) and v): return False
    return "#unknown" in repr(v)

@case('C20')
def text(T):
    name = T.rng.choice(ROOTS)
    node = S[name]
    # names converted to Python's convention must still be printed as in the schema
    snake = mods.compile_schema('/main.capnp', pyx=False, options=dict(text_type=mods.TEXT, convert_case=True)) if not CC else CC[0]
    CC[:] = [snake]
    for kind, m in ms + [('py-snake', snake)]:
        st = T.rng.getstate()
        objs, views = [], []
        for _ in range(8):
            if kind == 'py-snake' or T.rng.random() < 0.5:
                tree = V.Gen(S, T.rng, utf8=True, unknown=0).struct(node, 3)
                o, v = message.loads(mods.msg(T.rng, tree), getattr(m, name)), V.view_struct(S, node, tree[1], tree[2])
            else:
                kw, v = Mk(S, T.rng, m).kwargs(node, 3)
                o = getattr(m, name)(**kw)
            if o is None or has_unknown(v) or '\\x00' in repr(v) and False: continue
            objs.append(o); views.append(v)
        texts = [o.shortrepr() for o in objs]
        for o, v, t in zip(objs, views, texts):
            rc, out, err = encode(name, t)
            T.ok(rc == 0, 'capnp refuses the text form of %s (%s): %s' % (name, kind, err.decode(errors='replace')[:200]), t)
            tr = O.loads(out)
            d = V.diff(norm(S, node, V.view_struct(S, node, tr[1], tr[2])), norm(S, node, v))
            if d: T.ok(False, '%s (%s): capnp reads %s' % (name, kind, d), t)
        T.rng.setstate(st)
    T.nontrivial(name, tuple(texts))
