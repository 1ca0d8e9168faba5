"""values of C constants, by compiling the header of /repo that defines them"""
import subprocess, tempfile, os, functools
@functools.lru_cache(None)
def values(root, header, names):
    d = tempfile.mkdtemp(prefix='dvc')
    try:
        p = os.path.join(d, 'x.c')
        open(p, 'w').write('#include "%s"\n#include <stdio.h>\nint main(void){%s return 0;}\n' % (header, ''.join('printf("%%lld\\n", (long long)(%s));' % n for n in names)))
        r = subprocess.run(['gcc', '-w', '-I/usr/include/python3.12', '-I' + os.path.join(root, 'capnpy'), p, '-o', p + '.x', '-lm'], capture_output=True)
        if r.returncode: raise Exception('gcc: ' + r.stderr.decode()[:200])
        return dict(zip(names, (int(x) for x in subprocess.run([p + '.x'], capture_output=True, check=True).stdout.split())))
    finally:
        for f in os.listdir(d): os.unlink(os.path.join(d, f))
        os.rmdir(d)
