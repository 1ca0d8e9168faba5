"""Run the compiler of the tree under verification (its .py sources, CPython, nothing compiled) on the corpus schemas and keep the two texts it
generates: <name>.py (pure-Python mode) and <name>.pyx (compiled mode).  The generated code is what contracts/gencode.py puts under contract."""
import os, sys, subprocess, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
SCHEMAS = os.path.join(os.path.dirname(HERE), 'harness', 'schemas')
GEN = r'''
import sys, os
src, out, name = sys.argv[1:4]
import capnpy, py
from capnpy import annotate
from capnpy.compiler.compiler import BaseCompiler
root = os.path.dirname(os.path.dirname(os.path.abspath(capnpy.__file__)))
for text, conv, sfx in (('bytes', False, ''), ('unicode', False, '_u'), ('bytes', True, '_c')):
    for pyx in ((False, True) if not conv else (False,)):
        c = BaseCompiler([py.path.local(root), py.path.local(os.path.dirname(src))])
        m, s = c.generate_py_source(py.path.local(src), pyx=pyx, options=annotate.Options.from_dict(dict(convert_case=conv, text_type=text)))
        f = open(os.path.join(out, name + sfx + ('.pyx' if pyx else '.py')), 'w')
        f.write(str(s))
        f.close()
'''
def generate(root, names=('main',)):
    import scratch
    d = scratch.new_dir('dvgen-')
    src = os.path.join(d, 'src')
    scratch.REPO = root
    scratch.copy_tree(src)
    script = os.path.join(d, 'g.py')
    with open(script, 'w') as f: f.write(GEN)
    for n in names:
        p = subprocess.run([scratch.CPY, script, os.path.join(SCHEMAS, n + '.capnp'), d, n], env=scratch.base_env(PYTHONPATH=src), cwd='/', stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0: return d, p.stdout.decode('utf-8', 'replace')[-1500:]
    return d, None
if __name__ == '__main__': print(generate(sys.argv[1]))
