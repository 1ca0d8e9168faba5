"""Bounded conformance runner: executes the real code against the oracle.  Runs on CPython 3.12 and PyPy 3.9.

A case is a function fn(T) registered with @case('C05', ...); T.rng is seeded from (seed, case name, index), so a
failing case is re-run from those three values alone.  `enum` cases yield T-less argument tuples to go through
completely."""
import sys, os, time, json, random, mmap, traceback, hashlib

class Fail(AssertionError):
    pass

class T(object):
    def __init__(self, rng, mode):
        self.rng, self.mode = rng, mode
        self.notes = []
        self.key = None
    def ok(self, cond, what, *info):
        if not cond:
            raise Fail(what + ((': ' + ', '.join(short(x) for x in info)) if info else ''))
    def eq(self, got, exp, what, *info):
        if got != exp or type(got) is bool and type(exp) is not bool:
            raise Fail('%s: got %s, expected %s%s' % (what, short(got), short(exp),
                       (' for ' + ', '.join(short(x) for x in info)) if info else ''))
    def raises(self, exc, fn, what, *info):
        try:
            r = fn()
        except exc as e:
            return e
        except Exception as e:
            raise Fail('%s: expected %s, got %s: %s %s' % (what, exc, type(e).__name__, e, [short(x) for x in info]))
        raise Fail('%s: expected %s, got result %s %s' % (what, exc, short(r), [short(x) for x in info]))
    def nontrivial(self, *key):
        self.key = key
    def digest(self, x):
        self.dig = hashlib.md5(x if isinstance(x, bytes) else repr(x).encode()).hexdigest()[:16]
    dig = None
    def note(self, x):
        self.notes.append(short(x))

def short(x, n=600):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '...'

CASES = {}       # prop -> [(name, weight, fn, kind)]
def case(prop, weight=1.0, modes=('cpy', 'pypy')):
    def dec(fn):
        CASES.setdefault(prop, []).append((fn.__name__, weight, fn, 'rand', modes))
        return fn
    return dec
def enum(prop, modes=('cpy', 'pypy')):
    """fn(T) -> iterator of (label, thunk)"""
    def dec(fn):
        CASES.setdefault(prop, []).append((fn.__name__, 0, fn, 'enum', modes))
        return fn
    return dec

def run(prop, mode, seed, budget, out, cur_path=None, only=None, max_fail=3, max_cases=None, part=0, parts=1):
    res = dict(prop=prop, mode=mode, seed=seed, evaluations=0, distinct=0, per_case={}, failures=[], samples=[], enumerated={}, digests={})
    seen = set()
    cur = None
    if cur_path:
        with open(cur_path, 'wb') as f:
            f.write(b' ' * 256)
        fh = open(cur_path, 'r+b')
        cur = mmap.mmap(fh.fileno(), 256)
    def mark(s):
        if cur is not None:
            b = s.encode()[:256]
            cur[0:256] = b + b' ' * (256 - len(b))
    def fail(name, idx, e, t):
        tb = traceback.format_exc()
        res['failures'].append(dict(case=name, index=idx, seed=seed, mode=mode, error='%s: %s' % (type(e).__name__, e),
                                    notes=t.notes[-20:] if t else [], traceback=tb[-3000:]))
    def one_rand(name, fn, i):
        rng = random.Random('%s/%s/%s' % (seed, name, i))
        t = T(rng, mode)
        mark('%s %d' % (name, i))
        try:
            fn(t)
        except Exception as e:
            fail(name, i, e, t)
            return False
        res['evaluations'] += 1
        res['per_case'][name] = res['per_case'].get(name, 0) + 1
        if t.dig is not None and len(res['digests']) < 20000:
            res['digests']['%s:%d' % (name, i)] = t.dig
        if t.key is not None:
            k = (name, hashlib.md5(repr(t.key).encode()).digest()[:8])
            if k not in seen:
                seen.add(k)
                if len([s for s in res['samples'] if s['case'] == name]) < 2:
                    res['samples'].append(dict(case=name, index=i, what=short(t.key, 300)))
        return True
    cases = [c for c in CASES.get(prop, []) if mode in c[4]]
    if only:
        name, idx = only
        for n, w, fn, kind, _ in cases:
            if n == name:
                if kind == 'rand':
                    one_rand(n, fn, int(idx))
                else:
                    t = T(random.Random(0), mode)
                    for j, (label, thunk) in enumerate(fn(t)):
                        if j == int(idx):
                            try:
                                thunk()
                                res['evaluations'] += 1
                            except Exception as e:
                                fail(n, j, e, t)
        json.dump(res, open(out, 'w'))
        return res
    t0 = time.time()
    for n, w, fn, kind, _ in cases:
        if kind == 'enum' :
            t = T(random.Random(0), mode)
            nf = 0
            j = -1
            try:
                for j, (label, thunk) in enumerate(fn(t)):
                    if j % parts != part:
                        continue
                    mark('%s %d' % (n, j))
                    try:
                        thunk()
                        res['evaluations'] += 1
                        res['enumerated'][n] = res['enumerated'].get(n, 0) + 1
                        seen.add((n, j))
                    except Exception as e:
                        t.notes = [short(label)]
                        fail(n, j, e, t)
                        nf += 1
                        if nf >= max_fail:
                            break
            except Exception as e:
                fail(n, j + 1, e, t)
    rand = [c for c in cases if c[3] == 'rand']
    counters = dict((c[0], part) for c in rand)
    nfail = dict((c[0], 0) for c in rand)
    spent = dict((c[0], 0.0) for c in rand)
    stop = False
    deadline = t0 + budget
    while rand and not stop:
        live = [c for c in rand if nfail[c[0]] < max_fail and (max_cases is None or counters[c[0]] < max_cases)]
        if not live:
            break
        # the case that has used least of its weighted share of time goes next
        c = min(live, key=lambda c: spent[c[0]] / c[1])
        t1 = time.time()
        for _ in range(20):
            if not one_rand(c[0], c[2], counters[c[0]]):
                nfail[c[0]] += 1
                counters[c[0]] += parts
                break
            counters[c[0]] += parts
            if time.time() > deadline:
                break
        t2 = time.time()
        spent[c[0]] += t2 - t1 + 1e-6
        if t2 > deadline:
            stop = True
    res['distinct'] = len(seen)
    res['wall_s'] = time.time() - t0
    json.dump(res, open(out, 'w'))
    return res

def main():
    import argparse, importlib
    ap = argparse.ArgumentParser()
    ap.add_argument('--prop'); ap.add_argument('--mode', default='cpy'); ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--budget', type=float, default=10); ap.add_argument('--out', default='/dev/stdout')
    ap.add_argument('--cur'); ap.add_argument('--only'); ap.add_argument('--max-cases', type=int)
    ap.add_argument('--part', type=int, default=0); ap.add_argument('--parts', type=int, default=1)
    ap.add_argument('--root')
    a = ap.parse_args()
    sys.setrecursionlimit(5000)
    import core                      # the importable copy (this file runs as __main__)
    if a.root:
        import capnpy
        assert os.path.realpath(capnpy.__file__).startswith(os.path.realpath(a.root)), capnpy.__file__
    importlib.import_module('h_' + a.prop.lower())
    only = a.only.rsplit(':', 1) if a.only else None
    core.run(a.prop, a.mode, a.seed, a.budget, a.out, a.cur, only, max_cases=a.max_cases, part=a.part, parts=a.parts)

if __name__ == '__main__':
    main()
