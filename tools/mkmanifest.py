"""Regenerate MANIFEST.json from the table below."""
import json, pathlib
HERE = pathlib.Path(__file__).resolve().parent.parent
PROOF = 'contract-based deductive verification of the real code (pyvc: symbolic execution against contracts, loop invariants, z3 + free-monoid word prover)'
CLAIMED = json.loads((HERE / 'tools' / 'claims.json').read_text())
props = [json.loads(l)['id'] for l in (HERE / 'properties.jsonl').read_text().splitlines() if l.strip()]
checks, na = [], []
for p in props:
    c = CLAIMED.get(p)
    if c and 'na' not in c:
        checks.append({'property': p, 'quick_cmd': f'/opt/venv/bin/python check.py {p} quick',
                       'thorough_cmd': f'/opt/venv/bin/python check.py {p} thorough',
                       'technique': c.get('technique', PROOF), 'level': c.get('level', 'proof'),
                       'level_note': c['note']})
    else:
        na.append({'property': p, 'reason': (c or {}).get('na', 'contracts for this property are not built yet')})
(HERE / 'MANIFEST.json').write_text(json.dumps({
    'version': 1,
    'setup_cmd': '/opt/venv/bin/python tools/setup_check.py',
    'checks': checks, 'not_applicable': na}, indent=1) + '\n')
print(len(checks), 'claimed', len(na), 'not applicable')
