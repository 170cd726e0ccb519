"""Plant the bugs of tools/bugspecs.py in scratch copies of /repo, confirm each
(tests still pass, demonstration fails only with it) and run the checks on it.

  plant.py gen [ids]        write seeded/<id>/ from the specs
  plant.py run [ids] [-j N] confirm and check them; results in /tmp/w/bugs.json
"""
import concurrent.futures, importlib, json, os, pathlib, shutil, subprocess, sys, time
HERE = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(HERE / 'tools'))
PY = '/opt/venv/bin/python'
OUT = pathlib.Path('/tmp/w/bugs.json')
COPY = pathlib.Path('/tmp/w/vplant')


def sh(cmd, cwd, env=None, timeout=1200):
    e = dict(os.environ, PYTHONHASHSEED='0', HF_HUB_OFFLINE='1', TRANSFORMERS_OFFLINE='1', CUDA_VISIBLE_DEVICES='',
             OMP_NUM_THREADS='1', MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', **(env or {}))
    p = subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, capture_output=True, text=True, shell=isinstance(cmd, str))
    return p.returncode, p.stdout + p.stderr


def scratch(name):
    d = pathlib.Path(f'/tmp/w/scratch_{name}')
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git', '__pycache__', 'docs'))
    sh('git init -q . && git add -A -f . && git -c user.email=a@b -c user.name=a commit -qm base', d)
    return d


def gen(b):
    d = scratch(b['id'])
    try:
        for f, old, new in b['subs']:
            p = d / f
            s = p.read_text()
            assert s.count(old) == 1, (b['id'], f, s.count(old), old)
            p.write_text(s.replace(old, new))
        _, diff = sh(['git', 'diff'], d)
        o = HERE / 'seeded' / b['id']
        o.mkdir(parents=True, exist_ok=True)
        (o / 'patch.diff').write_text(diff)
        (o / 'demo.py').write_text('import os, sys\nsys.path.insert(0, os.getcwd())\n' + b['demo'].lstrip('\n'))
        (o / 'demo.sh').write_text('#!/bin/bash\n# exit 0 on the unchanged tree, nonzero with the patch\n'
                                   'export HF_HUB_OFFLINE=1 TRANSFORMERS_OFFLINE=1 CUDA_VISIBLE_DEVICES= MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\n'
                                   'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        (o / 'meta.json').write_text(json.dumps({'property': b['property'], 'needs': b['needs'],
                                                 'what_it_breaks': b['breaks']}, indent=1) + '\n')
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(bid):
    o = HERE / 'seeded' / bid
    prop = json.loads((o / 'meta.json').read_text())['property']
    d = scratch(bid)
    r = {'id': bid, 'property': prop}
    try:
        env = {'PYTHONPATH': str(d)}
        r['demo_clean'] = sh(['bash', str(o / 'demo.sh')], d)[0]
        rc, out = sh(['git', 'apply', str(o / 'patch.diff')], d)
        assert rc == 0, out
        r['demo_bug'], r['demo_out'] = sh(['bash', str(o / 'demo.sh')], d)
        r['demo_out'] = r['demo_out'][-300:]
        rep = f'/tmp/w/junit_{bid}.xml'
        sh([PY, '-m', 'pytest', 'lambeq', 'tests', '--doctest-modules', '-q', '-p', 'no:cacheprovider',
            '--timeout=300', '--continue-on-collection-errors',
            '--ignore=tests/text2diagram/test_depccg_parser.py',
            '--ignore=tests/text2diagram/test_pregroup_tree_converter.py',
            '--ignore=tests/test_tokeniser.py', '-o', 'junit_family=xunit2', f'--junitxml={rep}'], d, env)
        js = f'/tmp/w/res_{bid}.json'
        sh(['/usr/bin/python3', '/opt/vp/results.py', js, f'junit:{rep}'], d)
        got = json.loads(pathlib.Path(js).read_text())
        stable = json.loads(pathlib.Path('/opt/vp/BASELINE.json').read_text())['stable']
        ok = set(got['passed'])
        r['tests_broken'] = [t for t in stable if t not in ok][:5]
        t = time.time()
        rc, out = sh([PY, 'check.py', prop, 'quick'], COPY, {'VERIF_REPO': str(d), 'VERIF_OUT': f'/tmp/w/ev_{bid}'})
        r['check_rc'], r['check_s'] = rc, round(time.time() - t)
        r['caught'] = rc == 1 and f'VIOLATION property={prop}' in out
        r['by'] = 'input' if r['caught'] and 'no-failing-input-found' not in out else 'obligation' if r['caught'] else ''
        r['out'] = out[-1500:]
        os.remove(rep); os.remove(js)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return r


if __name__ == '__main__':
    cmd, ids, j = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith('-')], 2
    for a in sys.argv[2:]:
        if a.startswith('-j'):
            j = int(a[2:])
    if cmd == 'gen':
        for b in importlib.import_module('bugspecs').BUGS:
            if not ids or b['id'] in ids:
                gen(b)
                print('generated', b['id'])
    else:
        shutil.rmtree(COPY, ignore_errors=True)   # /verif can be edited meanwhile
        shutil.copytree(HERE, COPY, ignore=shutil.ignore_patterns('.git', '__pycache__'))
        ids = ids or sorted(p.name for p in (HERE / 'seeded').iterdir())
        res = json.loads(OUT.read_text()) if OUT.exists() else {}
        with concurrent.futures.ThreadPoolExecutor(j) as ex:
            for r in ex.map(run, ids):
                res[r['id']] = r
                OUT.write_text(json.dumps(res, indent=1))
                print(r['id'], 'demo', r['demo_clean'], r['demo_bug'], 'tests broken', r['tests_broken'],
                      'caught' if r['caught'] else f"MISSED rc={r['check_rc']}", r['by'], r['check_s'], 's', flush=True)
