"""Writes /verif/MANIFEST.json. A property is claimed if it has a check module."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
exec(open(V + '/tools/claims.py').read())
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
        continue
    spec = os.path.exists('%s/vf/specs/%s.py' % (V, i.lower()))
    conc = os.path.exists('%s/vf/conc/%s.py' % (V, i.lower()))
    if not (spec or conc):
        na.append({'property': i, 'reason': 'check not built yet'})
        continue
    level = 'proof' if spec else 'exploration'
    note = NOTE.get(i, 'Bounded: random programs compared with a reference semantics.')
    checks.append({'property': i, 'quick_cmd': 'python3-vt -m vf.run %s --tier quick' % i,
                   'thorough_cmd': 'python3-vt -m vf.run %s --tier thorough' % i,
                   'technique': TECH.get(i, 'contract-based deductive verification of the extracted functions (own VC generator, z3), '
                   'with bounded exploration of the built tool for replay' if spec else
                   'bounded exploration of the built tool standing in for contracts'),
                   'level': level, 'level_note': note})
m = {'version': 1, 'setup_cmd': 'python3-vt -m vf.setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the verifier extracts the functions from the unmodified sources on every run.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'claimed,', len(na), 'not')
