"""main.capnp compiled by the real compiler of the tree under test: on CPython both as a Cython extension ('pyx') and as
pure Python ('py'), on PyPy as pure Python.  DV_TEXT selects the text type (bytes or unicode)."""
import os, sys, tempfile, shutil, atexit
import py
import capnpy
from capnpy import annotate
from capnpy.compiler.compiler import DynamicCompiler
import cgr, values
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(capnpy.__file__)))
PYPY = hasattr(sys, 'pypy_version_info')
values.load_annotations(ROOT)

def compiler():
    c = DynamicCompiler([py.path.local(ROOT), py.path.local(os.path.join(HERE, 'schemas'))])
    d = tempfile.mkdtemp(prefix='dvmod-')
    atexit.register(shutil.rmtree, d, True)
    c._tmpdir = py.path.local(d)
    return c

def compile_schema(importname=None, filename=None, pyx=False, options=None):
    os.environ.setdefault('CFLAGS', '-O0')
    fd = os.dup(1); nul = os.open(os.devnull, os.O_WRONLY); os.dup2(nul, 1)
    fd2 = os.dup(2); os.dup2(nul, 2)
    try:
        return compiler().load_schema(importname=importname, filename=filename, pyx=pyx,
                                      options=annotate.Options.from_dict(options or {}))
    finally:
        os.dup2(fd, 1); os.dup2(fd2, 2)
        for x in (fd, fd2, nul): os.close(x)

TEXT = os.environ.get('DV_TEXT', 'bytes')
UTYPE = bytes if TEXT == 'bytes' else str
_cache = {}
def load(name='main', kinds=None):
    """[(kind, module)], Schema"""
    if name not in _cache:
        kinds = kinds or (('py',) if PYPY else ('pyx', 'py'))
        S = cgr.Schema(os.path.join(HERE, 'schemas', name + '.capnp'), [ROOT])
        opts = dict(text_type=TEXT, convert_case=False)
        mods = [(k, compile_schema('/%s.capnp' % name, pyx=(k == 'pyx'), options=opts)) for k in kinds]
        _cache[name] = mods, S
    return _cache[name]

def segments(rng, tree, **kw):
    import oracle as O, ut
    o = values.encode_opts(rng, **kw)
    segs = O.encode(tree, rng, **o)
    if o.get('double'):
        buf, offs = O.flat(segs)
        if ut.has_double_empty(buf, offs):
            o['double'] = 0.0
            segs = O.encode(tree, rng, **o)
    return segs
def msg(rng, tree, **kw):
    import oracle as O
    return O.frame(segments(rng, tree, **kw))
