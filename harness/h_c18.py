"""random schemas with option annotations at every scope; the effective options are read off the generated module"""
import oracle as O, os, shutil, tempfile, random, sys
from core import case
import mods
from capnpy import annotate

OPTS = ['convertCase', 'textType', 'includeReflectionData', 'versionCheck']
def ann(rng, p=0.45):
    d = {}
    for o in OPTS:
        if rng.random() < p * 0.6: d[o] = rng.choice(['bytes', 'unicode'] if o == 'textType' else ['true', 'false'])
        elif rng.random() < 0.05: d[o] = 'notset'
    return d
def txt(d): return ' $Py.options(%s)' % ', '.join('%s = %s' % kv for kv in sorted(d.items())) if d else ''
def comb(parent, d):
    r = dict(parent)
    r.update((k, v) for k, v in d.items() if v != 'notset')
    return r

class B:
    def __init__(self, rng):
        self.rng, self.n, self.checks = rng, 0, []
    def uid(self):
        self.n += 1
        return self.n
    def struct(self, path, parent, depth):
        r = self.rng
        name = 'S%d' % self.uid()
        d = ann(r) if r.random() < 0.6 else {}
        eff = comb(parent, d)
        out = ['struct %s%s {' % (name, txt(d))]
        i = 0
        for _ in range(r.randrange(1, 4)):
            fd = ann(r) if r.random() < 0.5 else {}
            fe = comb(eff, fd)
            u = self.uid()
            k = r.random()
            t = 'Text' if k < 0.6 else ('List(Text)' if k < 0.8 else 'Int32')
            out.append('fooBar%d @%d :%s%s;' % (u, i, t, txt(fd)))
            self.checks.append(('field', path + [name], u, t, fe))
            i += 1
        if r.random() < 0.4:
            u, v = self.uid(), self.uid()
            out.append('grpName%d :group { innerText%d @%d :Text; }' % (u, v, i))
            self.checks.append(('group', path + [name], (u, v), 'Text', eff))
            i += 1
        if r.random() < 0.4:
            u, v = self.uid(), self.uid()
            fd = ann(r) if r.random() < 0.5 else {}
            out.append('union { unText%d @%d :Text%s; unNum%d @%d :Int32; }' % (u, i, txt(fd), v, i + 1))
            self.checks.append(('unionf', path + [name], u, 'Text', comb(eff, fd)))
            i += 2
        if depth:
            for _ in range(r.randrange(3)):
                out += self.struct(path + [name], eff, depth - 1)
        if r.random() < 0.4: out += self.enum(path + [name], eff)
        out.append('}')
        return out
    def enum(self, path, parent):
        name = 'E%d' % self.uid()
        u = self.uid()
        self.checks.append(('enum', path + [name], u, None, parent))
        return ['enum %s { firstItem%d @0; other @1; }' % (name, u)]

def snake(s):
    o = ''
    for c in s: o += '_' + c.lower() if c.isupper() else c
    return o
def fname(base, u, eff): 
    n = '%s%d' % (base, u)
    return snake(n) if eff['convertCase'] == 'true' else n

_dir = tempfile.mkdtemp(prefix='dv18-')
import atexit; atexit.register(shutil.rmtree, _dir, True)

@case('C18', weight=3)
def scopes(T):
    r = T.rng
    default = dict(convertCase=r.choice(['true', 'false']), textType=r.choice(['bytes', 'unicode']),
                   includeReflectionData=r.choice(['true', 'false']), versionCheck=r.choice(['true', 'false']))
    b = B(r)
    fd = ann(r) if r.random() < 0.6 else {}
    feff = comb(default, fd)
    lines = ['@0xdd3d5e2f1b0a4c12;', 'using Py = import "/capnpy/annotate.capnp";']
    if fd: lines.append('$Py.options(%s);' % ', '.join('%s = %s' % kv for kv in sorted(fd.items())))
    for _ in range(r.randrange(1, 3)): lines += b.struct([], feff, 2)
    if r.random() < 0.5: lines += b.enum([], feff)
    src = '\n'.join(lines)
    T.note(src); T.note(default)
    fn = os.path.join(_dir, 's.capnp')
    with open(fn, 'w') as f: f.write(src)
    conv = {'true': True, 'false': False}
    m = mods.compile_schema(filename=fn, pyx=False, options=dict(convert_case=conv[default['convertCase']], text_type=default['textType'],
             include_reflection_data=conv[default['includeReflectionData']], version_check=conv[default['versionCheck']]))
    T.eq('_check_version(__name__' in m.__source__, feff['versionCheck'] == 'true', 'version check of the file')
    T.eq(hasattr(m, '_reflection_data'), feff['includeReflectionData'] == 'true', 'reflection data of the file')
    UT = {'bytes': bytes, 'unicode': str}
    for kind, path, u, t, eff in b.checks:
        cls = m
        for p in path: cls = getattr(cls, p)
        if kind == 'enum':
            n = fname('firstItem', u, eff)
            T.ok(hasattr(cls, n), 'enumerant %s of %s' % (n, path)); T.eq(cls(0).name, n, 'name of the enumerant')
            continue
        if kind == 'group':
            g, i = fname('grpName', u[0], eff), fname('innerText', u[1], eff)
            T.ok(hasattr(cls, g), 'group %s of %s' % (g, path))
            o = cls.from_buffer(b'\0' * 8 * 30, 0, 10, 0)
            gg = getattr(o, g)
            T.ok(hasattr(type(gg), i), 'field %s of a group of %s' % (i, path))
            T.ok(type(getattr(gg, 'get_' + i)()) is UT[eff['textType']], 'text type of %s in %s' % (i, path), eff)
            continue
        base = 'unText' if kind == 'unionf' else 'fooBar'
        n = fname(base, u, eff)
        T.ok(hasattr(cls, n), 'field %s of %s' % (n, path), eff)
        if t == 'Text':
            o = cls.from_buffer(b'\0' * 8 * 30, 0, 10, 0)
            T.ok(type(getattr(o, 'get_' + n)()) is UT[eff['textType']], 'text type of %s in %s' % (n, path), eff)
            if kind == 'field':
                v = b'x' if eff['textType'] == 'bytes' else 'x'
                kw = {n: v}
                if any(k == 'unionf' and p == path for k, p, *_ in b.checks):
                    un = [(x[2], x[4]) for x in b.checks if x[0] == 'unionf' and x[1] == path][0]
                    kw[fname('unText', un[0], un[1])] = None
                T.eq(getattr(cls(**kw), n), v, 'constructor argument %s' % n)
        elif t == 'List(Text)':
            v = [b'x'] if eff['textType'] == 'bytes' else ['x']
            kw = {n: v}
            if any(k == 'unionf' and p == path for k, p, *_ in b.checks):
                un = [(x[2], x[4]) for x in b.checks if x[0] == 'unionf' and x[1] == path][0]
                kw[fname('unText', un[0], un[1])] = None
            T.eq(list(getattr(cls(**kw), n)), v, 'list items of %s' % n)
    T.nontrivial(src, tuple(sorted(default.items())))

@case('C18')
def combine(T):
    r = T.rng
    O_ = annotate.Options
    F = dict(version_check=annotate.BoolOption, convert_case=annotate.BoolOption, text_type=annotate.TextType, include_reflection_data=annotate.BoolOption)
    def rnd():
        return dict((k, r.choice([c.notset] + [x for x in ((c.false, c.true) if c is annotate.BoolOption else (c.bytes, c.unicode))])) for k, c in F.items())
    a, b, c = rnd(), rnd(), rnd()
    oa, ob, oc = O_(**a), O_(**b), O_(**c)
    x = oa.combine(ob).combine(oc)
    for k, cls in F.items():
        e = c[k] if c[k] != cls.notset else (b[k] if b[k] != cls.notset else a[k])
        T.eq(getattr(x, k), e, 'combined ' + k)
    for o, d in ((oa, a), (ob, b), (oc, c)):
        for k in F: T.eq(getattr(o, k), d[k], 'argument changed: ' + k)
    T.nontrivial(tuple(sorted((k, int(v)) for d in (a, b, c) for k, v in d.items())), repr((a, b, c)))
