"""prove.py PROP [--tier quick|thorough] [--out FILE] [--only NAME]: generate and discharge the obligations of one property from the current source"""
import sys, os, json, time, argparse, multiprocessing, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import vc
MODULES = sorted(f[:-3] for f in os.listdir(os.path.join(HERE, 'contracts')) if f.endswith('.py') and f != '__init__.py')
for _m in MODULES: importlib.import_module('contracts.' + _m)

def work(a):
    root, i, tier, deadline = a
    return vc.run_task(root, vc.TASKS[i], tier, deadline)

def paired():
    "C21: the tasks that put the same contract on both implementations"
    by = {}
    for i, td in enumerate(vc.TASKS):
        if set(td['props']) & {'C01', 'C02', 'C03', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16'}: by.setdefault((td['name'], td['variant']), {}).setdefault(td['mode'], []).append(i)
    return [i for d in by.values() if len(d) == 2 for l in d.values() for i in l]
def relative(res):
    "C21: an implementation outside of a contract differs from the other one only if that one keeps it"
    st = {}
    for r in res: st.setdefault((r['where'].split(':', 1)[1]), {}).setdefault(r['mode'], []).append(all(o[1] == 'proved' for o in r['obs']))
    for r in res:
        other = [ok for m, oks in st[r['where'].split(':', 1)[1]].items() if m != r['mode'] for ok in oks]
        if not (other and all(other)): r['obs'] = [(o[0], 'unknown' if o[1] == 'refuted' else o[1]) + tuple(o[2:]) for o in r['obs']]

TRUSTED = ['z3 5.x', 'the translation of Python/Cython syntax to the intermediate form (dv/ir.py) and its executor (dv/engine.py)', 'Cython: the C it generates means what its analysed tree says']
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default='quick'); ap.add_argument('--out'); ap.add_argument('--only'); ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=8); ap.add_argument('--match')
    a = ap.parse_args()
    root = os.environ.get('DV_REPO', '/repo')
    t0 = time.time()
    if a.prop in ('ALL', 'C10', 'C11', 'C12', 'C13', 'C16', 'C20', 'C21') and 'DV_GEN' not in os.environ:
        import gen
        os.environ['DV_GEN'], err = gen.generate(root)
        if err: print(err, file=sys.stderr)
    deadline = t0 + (240 if a.tier == 'quick' else 3000)
    ids = [i for i, td in enumerate(vc.TASKS) if a.prop in td['props'] or a.prop == 'ALL']
    if a.prop == 'C21': ids = [i for i in sorted(set(ids) | set(paired())) if a.tier != 'quick' or 'main_u:' not in vc.TASKS[i]['key'] and not vc.TASKS[i]['name'].startswith('any-schema')]
    if a.match: ids = [i for i in ids if a.match in '%s:%s[%s]' % (vc.TASKS[i]['mode'], vc.TASKS[i]['name'], vc.TASKS[i]['variant'])]
    if a.only:
        sel = [i for i in ids if a.only.startswith(vc.TASKS[i]['mode'] + ':' + vc.TASKS[i]['name'] + '/') or a.only.startswith(vc.TASKS[i]['mode'] + ':' + vc.TASKS[i]['name'] + '[')]
        ids = sel or ids
    ids.sort(key=lambda i: -vc.TASKS[i]['weight'])
    if a.j == 1 or len(ids) <= 1: res = [work((root, i, a.tier, deadline)) for i in ids]
    else:
        with multiprocessing.Pool(min(a.j, len(ids) or 1)) as p:
            res = p.map(work, [(root, i, a.tier, deadline) for i in ids], chunksize=1)
    if a.prop == 'C21': relative(res)
    out = dict(obligations=0, discharged=0, refuted=[], undecided=[], functions={}, solver_seconds=0, backends={}, inlined=[], assumed_contracts=[])
    inl, tr = set(), set()
    for r in res:
        f = out['functions'].setdefault('%s %s' % (r['mode'], r['key']), dict(obligations=0, discharged=0, seconds=0))
        inl.update(r['inlined']); tr.update(r['trusted'])
        f['seconds'] = round(f['seconds'] + r['secs'], 2)
        for nm, status, secs, detail, be in r['obs']:
            out['obligations'] += 1; f['obligations'] += 1
            out['solver_seconds'] += secs
            out['backends'][be] = out['backends'].get(be, 0) + 1
            if status == 'proved': out['discharged'] += 1; f['discharged'] += 1
            elif status == 'refuted': out['refuted'].append(dict(name=nm, detail=detail))
            else: out['undecided'].append(dict(name=nm, detail=detail))
    out['solver_seconds'] = round(out['solver_seconds'], 2)
    out['inlined'] = sorted(inl); out['assumed_contracts'] = sorted(tr)
    out['checker_cmd'] = 'python3-vt /verif/dv/prove.py %s --tier %s' % (a.prop, a.tier)
    out['trusted_base'] = TRUSTED
    import trusted
    out['assumptions'] = trusted.assumptions(a.prop)
    out['prove_wall_s'] = round(time.time() - t0, 1)
    if a.out: json.dump(out, open(a.out, 'w'), indent=1, default=str)
    if a.v or not a.out:
        seen = {}
        lines = 0
        for r in sorted(res, key=lambda r: -r['secs']):
            bad = [o for o in r['obs'] if o[1] != 'proved']
            if not bad and not a.v: continue
            last = (r['err'] or '').strip().split('\n')
            k = last[-1][:160]
            if r['err']:
                seen[k] = seen.get(k, 0) + 1
                if seen[k] > 2: continue
            lines += 1
            if lines > (200 if a.v else 25): continue
            print('%-70s %3d obs %3d bad  %.1fs %s' % (r['where'], len(r['obs']), len(bad), r['secs'], r['err'][-700:] if r['err'] and 'internal' in r['err'] else k))
            for o in bad[:4]:
                if not r['err'] or '/generated' not in o[0]: print('     ', o[1], o[0].split('/', 1)[1], str(o[3])[:500])
        for k, n in seen.items():
            if n > 2: print('  %d x %s' % (n, k))
        print('%d/%d discharged, %d refuted, %.1fs' % (out['discharged'], out['obligations'], len(out['refuted']), time.time() - t0))
    return 1 if out['refuted'] else 0
if __name__ == '__main__': sys.exit(main())
