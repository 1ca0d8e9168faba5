"regenerates MANIFEST.json from the table below"
import json
TECH_D = 'contract-based deductive verification (VC generation from the current Python/Cython/C source, z3)'
PROOF = {}   # property -> level_note
BOUND = {}
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
import manifest_notes as N
m = dict(version=1, setup_cmd='true', checks=[], not_applicable=[],
         notes='No hooks: /repo carries only fix commits. Contracts are sidecar files in /verif/dv; see DESIGN.md.')
for p in props:
    i = p['id']
    if i in N.NA:
        m['not_applicable'].append(dict(property=i, reason=N.NA[i])); continue
    level, note, tech = N.NOTES.get(i, N.DEFAULT)
    m['checks'].append(dict(property=i, quick_cmd='python3-vt check.py %s --tier quick' % i, thorough_cmd='python3-vt check.py %s --tier thorough' % i,
                            evidence_file='evidence/%s.json' % i, technique=tech, level=level, level_note=note))
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
