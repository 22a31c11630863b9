"""MANIFEST.json from properties.jsonl and the table below (a property is claimed when it has a contract file or harness and an entry here)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(ROOT, 'tools', 'claims.py')).read())
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMS:
        lev, note = CLAIMS[i]
        tech = 'contract-based deductive verification (VC generation from the real AST, z3/cvc5)' + (' with a bounded stand-in on the real code' if lev == 'proof' else '; parts out of reach by a bounded contract-check on the real code')
        checks.append({'property': i, 'quick_cmd': 'python3-vt engine/run.py %s --tier quick' % i, 'thorough_cmd': 'python3-vt engine/run.py %s --tier thorough' % i, 'evidence_file': 'evidence/%s.json' % i, 'technique': tech, 'level': lev, 'level_note': note})
    else: na.append({'property': i, 'reason': NA.get(i, 'no contract or check built yet')})
json.dump({'version': 1, 'setup_cmd': 'bash engine/build.sh', 'checks': checks, 'not_applicable': na, 'notes': 'See DESIGN.md. No hooks are added to /repo; contracts live in /verif/contracts and are attached to the AST extracted from /repo on every run.'}, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
