"""Scratch builds of /repo's current working tree (never touches /repo)."""
import hashlib, os, shutil, subprocess, sys, tempfile, atexit

REPO = os.environ.get('DV_REPO', '/repo')
CPY = '/opt/venv/bin/python'
PYPY = '/opt/venv-pypy/bin/python'

def base_env(**kw):
    env = dict(HOME='/root', LANG='C.UTF-8', LC_ALL='C.UTF-8',
               PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
               PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               SETUPTOOLS_SCM_PRETEND_VERSION_FOR_CAPNPY='0.8.7')
    for k in ('VERIF_SEED', 'VERIF_TIER', 'TMPDIR'):
        if k in os.environ:
            env[k] = os.environ[k]
    env.update(kw)
    return env

GENERATED_C = set()
def _is_generated(rel):
    # build products of Cython: x.c next to x.py/x.pyx, shared objects, bytecode
    if rel.endswith(('.so', '.pyc', '.o')) or '__pycache__' in rel:
        return True
    if rel.endswith('.c'):
        stem = rel[:-2]
        for ext in ('.pyx', '.py'):
            if os.path.exists(os.path.join(REPO, stem + ext)):
                return True
    return False

def source_files():
    out = []
    for top in ('capnpy',):
        for d, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs[:] = sorted(x for x in dirs if x not in ('__pycache__', 'build', '.git'))
            for f in sorted(files):
                rel = os.path.relpath(os.path.join(d, f), REPO)
                if not _is_generated(rel):
                    out.append(rel)
    for f in ('setup.py', 'setup.cfg', 'pyproject.toml', 'MANIFEST.in', 'README.md', 'README.rst'):
        if os.path.exists(os.path.join(REPO, f)):
            out.append(f)
    return out

def tree_hash():
    h = hashlib.sha256()
    for rel in source_files():
        with open(os.path.join(REPO, rel), 'rb') as fh:
            h.update(rel.encode() + b'\0' + hashlib.sha256(fh.read()).digest())
    return h.hexdigest()

_dirs = []
def _cleanup():
    for d in _dirs:
        shutil.rmtree(d, ignore_errors=True)
atexit.register(_cleanup)

def new_dir(prefix='dv-'):
    d = tempfile.mkdtemp(prefix=prefix)
    _dirs.append(d)
    return d

def copy_tree(dst):
    for rel in source_files():
        t = os.path.join(dst, rel)
        os.makedirs(os.path.dirname(t), exist_ok=True)
        shutil.copyfile(os.path.join(REPO, rel), t)

class BuildError(Exception):
    pass

class Scratch:
    """A copy of the tree; .build() compiles the Cython extensions in it."""
    def __init__(self, prefix='dv-'):
        self.dir = new_dir(prefix)
        copy_tree(self.dir)
        self.proc = None
        self.built = False

    def start_build(self, cflags=None, jobs=8):
        env = base_env()
        if cflags:
            env['CFLAGS'] = cflags
        self.log = open(os.path.join(self.dir, 'build.log'), 'w+')
        self.proc = subprocess.Popen([CPY, 'setup.py', 'build_ext', '--inplace', '-j%d' % jobs],
                                     cwd=self.dir, env=env, stdout=self.log, stderr=subprocess.STDOUT)
        return self

    def wait(self):
        rc = self.proc.wait()
        self.log.seek(0)
        txt = self.log.read()
        if rc != 0:
            raise BuildError('scratch build failed:\n' + txt[-3000:])
        self.built = True
        return self

    def env(self, **kw):
        return base_env(PYTHONPATH=self.dir, **kw)

if __name__ == '__main__':
    import time
    t = time.time(); s = Scratch().start_build(sys.argv[1] if len(sys.argv) > 1 else None).wait()
    print(s.dir, time.time() - t)
    subprocess.check_call([CPY, '-c', 'import capnpy, capnpy.blob; print(capnpy.__file__, capnpy.blob.__file__)'], env=s.env(), cwd='/')
