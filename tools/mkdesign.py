#!/opt/venv/bin/python
"""Assemble DESIGN.md."""
import importlib, json, pathlib, sys
HERE = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(HERE))
import pyvc.run_conc  # noqa: F401  (makes the contracts importable)
from contracts.reg import HARNESSES
out = [(HERE / 'tools/design_head.md').read_text()]
titles = {d['id']: d['title'] for d in map(json.loads, (HERE / 'properties.jsonl').read_text().splitlines())}
out.append('\n## 7. Contracts\n\n`proved`: discharged by the verifier for all inputs; `all values`: for all values within the\n'
           'stated size; `bounded`: concrete stand-in only.\n')
for pid in sorted(titles):
    importlib.import_module('contracts.' + pid.lower())
    out.append(f'\n### {pid} {titles[pid]}\n\n| contract | of | how |\n|---|---|---|\n')
    for h in HARNESSES[pid]:
        fs = sorted({f.replace('lambeq.', '') for f in h['funcs']})
        how = 'proved' if h['sym'] and not h['bound'] else f"all values, {h['bound']}" if h['sym'] else f"bounded: {h['bound'] or 'random inputs'}"
        doc = ' '.join((h['fn'].__doc__ or '').split())
        out.append(f"| `{h['name']}` {doc} | {', '.join('`' + f.split('.', 1)[-1] + '`' for f in fs)} | {how} |\n")
K = json.loads((HERE / 'known_findings.json').read_text())['findings']
out.append('\n## 8. Defects found in lambeq\n\nRepaired (one `fix:` commit each):\n\n')
for k in K:
    if k['status'] == 'fixed':
        out.append(f"* {k['what']}\n")
out.append('\nRecorded, not repaired (the check prints KNOWN-FINDING and stays quiet about exactly these):\n\n')
for k in K:
    if k['status'] == 'open':
        out.append(f"* {k['property']} `{k['harness']}`: {k['what']}\n")
out.append('\n## 9. Planted bugs (`seeded/`)\n\nEach leaves the stable tests green and has a demonstration. `input`: reported with a failing\n'
           'input; `obligation`: reported by the failed obligation alone.\n\n| bug | property | what it breaks | needs | caught |\n|---|---|---|---|---|\n')
C = json.loads((HERE / 'tools/caught.json').read_text())
for d in sorted((HERE / 'seeded').iterdir()):
    m = json.loads((d / 'meta.json').read_text())
    c = C.get(d.name)
    out.append(f"| {d.name} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {'yes (' + c + ')' if c else 'no' if c == '' else 'not run'} |\n")
(HERE / 'DESIGN.md').write_text(''.join(out))
