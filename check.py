#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]   decide one property on /repo's current working tree
   check.py <property> --replay FILE             run the case of a replay file again

1. deductive part (dv/prove.py): obligations generated from the current source, discharged by z3;
2. bounded part (harness/): the same contracts executed on a fresh scratch build (CPython/Cython) and on PyPy (pure-Python mode).
Exit 0: held on everything explored; exit 1: VIOLATION line."""
import sys, os, time, json, subprocess, argparse, tempfile, shutil, signal, threading
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, 'dv'))
import scratch

ASAN = '-O1 -g -fsanitize=address -fno-omit-frame-pointer'
ASAN_ENV = dict(LD_PRELOAD='/usr/lib/gcc/x86_64-linux-gnu/13/libasan.so', PYTHONMALLOC='malloc', ASAN_OPTIONS='detect_leaks=0:abort_on_error=1')
USES_MODS = {'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C19', 'C20', 'C21'}
USES_ASAN = {'C02', 'C05', 'C17'}
DIGESTS = {'C12', 'C21'}
BUDGET = {'quick': 15, 'thorough': 240}
HANG = 60

class Conf(object):
    def __init__(self, mode, text='bytes', part=0, parts=1, asan=False):
        self.mode, self.text, self.part, self.parts, self.asan = mode, text, part, parts, asan
        self.name = '%s-%s%s%s' % (mode, text, '-%d/%d' % (part, parts) if parts > 1 else '', '-asan' if asan else '')

def confs(prop, tier):
    if prop in USES_MODS:
        r = [Conf(m, t) for m in ('cpy', 'pypy') for t in ('bytes', 'unicode')]
    else:
        n = 2 if tier == 'quick' else 3
        r = [Conf(m, 'bytes', i, n) for m in ('cpy', 'pypy') for i in range(n)]
    if prop in USES_ASAN:
        r.append(Conf('cpy', 'bytes', 0, 1, True))
    return r

class Runner(object):
    def __init__(self, prop, tier, seed, budget):
        self.prop, self.tier, self.seed, self.budget = prop, tier, seed, budget
        self.tmp = tempfile.mkdtemp(prefix='dvcheck-')
        self.roots = {}
    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)
    def cmd(self, conf, root, out, cur, only=None, budget=None):
        py = scratch.CPY if conf.mode == 'cpy' else scratch.PYPY
        c = [py, os.path.join(HERE, 'harness', 'core.py'), '--root', root, '--prop', self.prop, '--mode', conf.mode, '--seed', str(self.seed),
             '--budget', str(budget or self.budget), '--out', out, '--cur', cur, '--part', str(conf.part), '--parts', str(conf.parts)]
        if only: c += ['--only', only]
        return c
    def env(self, conf, root):
        e = scratch.base_env(PYTHONPATH='%s:%s' % (root, os.path.join(HERE, 'harness')), DV_TEXT=conf.text, TMPDIR=self.tmp)
        if conf.asan: e.update(ASAN_ENV)
        return e
    def start(self, conf, root, only=None, tag=''):
        conf.base = os.path.join(self.tmp, conf.name.replace('/', '_') + tag)
        conf.out, conf.cur = conf.base + '.json', conf.base + '.cur'
        conf.err = open(conf.base + '.err', 'w+b')
        conf.root = root
        conf.proc = subprocess.Popen(self.cmd(conf, root, conf.out, conf.cur, only), env=self.env(conf, root), cwd=self.tmp,
                                     stdout=conf.err, stderr=subprocess.STDOUT, start_new_session=True)
        conf.started = time.time()
        return conf
    def finish(self, conf, limit):
        "-> result dict, or dict(crash=...)"
        timed_out = False
        try:
            rc = conf.proc.wait(max(1, limit))
        except subprocess.TimeoutExpired:
            timed_out = True
            try: os.killpg(conf.proc.pid, signal.SIGKILL)
            except OSError: pass
            rc = conf.proc.wait()
        conf.err.seek(0)
        log = conf.err.read().decode(errors='replace')
        cur = ''
        if os.path.exists(conf.cur):
            cur = open(conf.cur, 'rb').read().decode(errors='replace').strip()
        if rc == 0 and os.path.exists(conf.out):
            return json.load(open(conf.out))
        return dict(crash=True, rc=rc, cur=cur, log=log, timed_out=timed_out)

def tail(s, n=3000):
    return s if len(s) <= n else s[:n // 3] + '\n...\n' + s[-2 * n // 3:]

def bounded(prop, tier, seed, budget, R, notes):
    """run the harness; returns (violations, summary)"""
    cs = confs(prop, tier)
    viol = []
    plain = scratch.Scratch(prefix='dvp-')                     # no shared objects in here: used by PyPy
    need_asan = any(c.asan for c in cs)
    sb = scratch.Scratch(prefix='dvc-').start_build(jobs=4 if need_asan else 8)
    sa = scratch.Scratch(prefix='dva-').start_build(cflags=ASAN, jobs=4) if need_asan else None
    for c in cs:
        if c.mode == 'pypy': R.start(c, plain.dir)
    build_error = None
    try:
        sb.wait()
        for c in cs:
            if c.mode == 'cpy' and not c.asan: R.start(c, sb.dir)
        if sa:
            sa.wait()
            for c in cs:
                if c.asan: R.start(c, sa.dir)
    except scratch.BuildError as e:
        build_error = str(e)
        notes.append('the scratch build of the extensions failed: %s' % tail(build_error, 1500))
    results = {}
    for c in cs:
        if not hasattr(c, 'proc'): continue
        r = R.finish(c, c.started + 4 * budget + 150 - time.time())
        if 'crash' in r and r['rc'] in (-9, 137) and not r['timed_out']:
            # ended from outside (memory): try once more, alone
            notes.append('%s was killed from outside; run again' % c.name)
            R.start(c, c.root, tag='-again')
            r = R.finish(c, 4 * budget + 150)
        results[c.name] = r
        if 'crash' in r:
            r.update(confirm_crash(R, c, r, prop, notes))
            if r.get('violation'): viol.append(r['violation'])
        else:
            for f in r['failures']:
                f = dict(f, conf=c.name, text=c.text, kind='harness', property=prop)
                viol.append(f)
    # the same inputs must give the same bytes on both implementations
    ndig = 0
    if prop in DIGESTS:
        for text in ('bytes', 'unicode'):
            a, b = results.get('cpy-' + text, {}).get('digests'), results.get('pypy-' + text, {}).get('digests')
            if not a or not b: continue
            for k in a:
                if k in b:
                    ndig += 1
                    if a[k] != b[k] and len(viol) < 5:
                        viol.append(dict(kind='digest', property=prop, case=k.split(':')[0], index=int(k.split(':')[1]), seed=seed, text=text, mode='both', conf='both',
                                         error='the pure-Python and the compiled implementation give different results', digests=[b[k], a[k]]))
    summ = dict(evaluations=0, distinct_nontrivial=0, configurations={}, samples=[], digests_compared=ndig)
    for n, r in results.items():
        if 'crash' in r:
            summ['configurations'][n] = 'crashed: rc %s' % r['rc']
            continue
        summ['evaluations'] += r['evaluations']; summ['distinct_nontrivial'] += r['distinct']
        summ['configurations'][n] = dict(r['per_case'], **dict(('enumerated:' + k, v) for k, v in r['enumerated'].items()))
        if not summ['samples'] or n == 'cpy-unicode': summ['samples'] += r['samples'][:4]
    if build_error: summ['build_error'] = tail(build_error, 500)
    return viol, summ

def confirm_crash(R, c, r, prop, notes):
    "a process that died or hung: run its current case alone"
    what = 'no answer' if r['timed_out'] else 'the process died (status %s)' % r['rc']
    if not r['cur'] or ' ' not in r['cur']:
        # died while the corpus was being built or imported
        if 'MemoryError' in r['log'] or r['timed_out']:
            notes.append('%s: %s before the first case: %s' % (c.name, what, tail(r['log'], 500)))
            return {}
        return dict(violation=dict(kind='setup', property=prop, case='(setup)', index=0, seed=R.seed, text=c.text, mode=c.mode, conf=c.name,
                                   error='%s before the first case' % what, traceback=tail(r['log'])))
    name, idx = r['cur'].rsplit(' ', 1)
    R.start(c, c.root, only='%s:%s' % (name, idx), tag='-confirm')
    r2 = R.finish(c, HANG + 60)
    v = dict(kind='crash', property=prop, case=name, index=int(idx), seed=R.seed, text=c.text, mode=c.mode, conf=c.name, error=what, traceback=tail(r['log']))
    if 'crash' in r2 and (r2['rc'] not in (-9, 137) or r2['timed_out']):
        return dict(violation=v)
    if 'crash' not in r2 and r2['failures']:
        return dict(violation=dict(v, error=r2['failures'][0]['error']))
    if c.asan and 'AddressSanitizer' in r['log'] or (r['rc'] is not None and r['rc'] < 0 and r['rc'] != -9 and not r['timed_out']):
        return dict(violation=dict(v, error=what + ' (not reproduced by the case alone)'))
    notes.append('%s: %s at %s, not reproduced alone' % (c.name, what, r['cur']))
    return {}

def replay(prop, path):
    v = json.load(open(path))
    if v.get('kind') == 'obligation':
        return subprocess.call(['python3-vt', os.path.join(HERE, 'dv', 'prove.py'), prop, '--only', v['name']])
    R = Runner(prop, 'quick', v['seed'], 10)
    try:
        bad = False
        modes = ['cpy', 'pypy'] if v['mode'] == 'both' else [v['mode']]
        digs = []
        for m in modes:
            c = Conf(m, v['text'], asan='asan' in v['conf'])
            s = scratch.Scratch()
            if m == 'cpy': s.start_build(cflags=ASAN if c.asan else None).wait()
            R.start(c, s.dir, only='%s:%s' % (v['case'], v['index']) if v['case'] != '(setup)' else None)
            r = R.finish(c, 200)
            print(json.dumps(r, indent=1)[:4000])
            bad = bad or 'crash' in r or bool(r['failures'])
            if 'crash' not in r: digs.append(r['digests'])
        if len(digs) == 2 and digs[0] != digs[1]: bad = True
        print('reproduced' if bad else 'not reproduced')
        return 1 if bad else 0
    finally:
        R.close()

def known():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known:'):
                prop, rest = l[6:].strip().split(None, 1)
                out.append((prop.replace('property=', ''), rest))
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick'); ap.add_argument('--replay')
    ap.add_argument('--budget', type=float); ap.add_argument('--no-bounded', action='store_true'); ap.add_argument('--no-prove', action='store_true')
    a = ap.parse_args()
    prop, tier = a.prop, 'thorough' if a.tier == 'thorough' else 'quick'
    if a.replay:
        return replay(prop, a.replay)
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    notes = []
    budget = a.budget or BUDGET[tier]
    R = Runner(prop, tier, seed, budget)
    pr = None
    pout = os.path.join(R.tmp, 'prove.json')
    have_proof = os.path.exists(os.path.join(HERE, 'dv', 'prove.py')) and not a.no_prove
    if have_proof:
        perr = open(os.path.join(R.tmp, 'prove.err'), 'w+b')
        pp = subprocess.Popen(['python3-vt', os.path.join(HERE, 'dv', 'prove.py'), prop, '--tier', tier, '--out', pout], cwd=R.tmp,
                              env=scratch.base_env(VERIF_SEED=str(seed)), stdout=perr, stderr=subprocess.STDOUT, start_new_session=True)
    viol, summ = [], dict(evaluations=0, distinct_nontrivial=0, samples=[])
    if not a.no_bounded:
        viol, summ = bounded(prop, tier, seed, budget, R, notes)
    proof = dict(obligations=0, discharged=0)
    if have_proof:
        lim = (600 if tier == 'quick' else 3600) - (time.time() - t0)
        try:
            pp.wait(max(10, lim))
        except subprocess.TimeoutExpired:
            os.killpg(pp.pid, signal.SIGKILL); pp.wait()
            notes.append('the deductive part ran out of time')
        if os.path.exists(pout):
            proof = json.load(open(pout))
        else:
            perr.seek(0)
            notes.append('the deductive part gave no answer: ' + tail(perr.read().decode(errors='replace'), 1500))
    refuted = proof.pop('refuted', [])
    # ---- verdict
    lines = []
    kn = [k for k in known() if k[0] == prop]
    def is_known(v):
        for _, k in kn:
            pat = k.split(' -- ')[0].strip()
            if pat and pat in v.get('error', ''): return k
    n = 0
    seenk = {}
    seen = set()
    order = [v for v in viol if v['kind'] == 'harness'] + [v for v in viol if v['kind'] != 'harness']
    for v in order:
        k = is_known(v)
        if k:
            seenk[k] = 1
            continue
        key = (v['case'], v['mode'])
        if key in seen: continue
        seen.add(key)
        v['refuted_obligations'] = [x['name'] for x in refuted]
        n += 1
        p = os.path.join(HERE, 'replays', '%s-%d.json' % (prop, n))
        json.dump(v, open(p, 'w'), indent=1, default=str)
        lines.append('VIOLATION property=%s replay=%s' % (prop, p))
        print('%s %s #%s: %s' % (v['conf'], v['case'], v['index'], v['error'][:600]))
    if not lines:
        for x in refuted:
            n += 1
            p = os.path.join(HERE, 'replays', '%s-%d.json' % (prop, n))
            json.dump(dict(x, kind='obligation', property=prop), open(p, 'w'), indent=1, default=str)
            print('obligation %s: refuted: %s' % (x['name'], str(x.get('detail'))[:600]))
            lines.append('VIOLATION property=%s replay=%s%s' % (prop, p, '' if x.get('replayed') else ' no-failing-input-found'))
            if n >= 3: break
    for _, k in kn:
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    level = 'proof' if proof.get('obligations') and not refuted else 'exploration'
    man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
    for c in man['checks']:
        if c['property'] == prop: level = c['level']
    cov = dict(proof)
    cov.setdefault('checker_cmd', 'python3-vt dv/prove.py %s --tier %s' % (prop, tier))
    cov.setdefault('trusted_base', [])
    cov['bounded'] = dict(summ, label='bounded stand-in: executed cases, never counted as proved')
    cov.update(evaluations=summ['evaluations'], distinct_nontrivial=summ['distinct_nontrivial'], samples=summ['samples'] or ['none'],
               rule='cases are generated from (seed, case name, index); a case is non-trivial when it reached its assertions, distinct by the generated input')
    cov['notes'] = notes
    cov['tree'] = scratch.tree_hash()
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=proof.get('assumptions', []), wall_s=round(time.time() - t0, 1), violations=len(lines))
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    R.close()
    for x in notes: print('note:', x[:1500])
    print('%s: %d/%d obligations discharged, %d bounded evaluations (%d distinct), %.0f s' % (prop, proof.get('discharged', 0), proof.get('obligations', 0),
          summ['evaluations'], summ['distinct_nontrivial'], time.time() - t0))
    for l in lines: print(l)
    return 1 if lines else 0

if __name__ == '__main__':
    sys.exit(main())
