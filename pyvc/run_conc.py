"""Concrete process: python -m pyvc.run_conc PID OUT budget_s factor [only] [--seed S]"""
import json
import os
import sys
import time
import warnings
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
warnings.simplefilter('ignore')


def load(pid):
    import importlib
    importlib.import_module(f'contracts.{pid.lower()}')
    from contracts.reg import HARNESSES
    return HARNESSES.get(pid, [])


def main():
    pid, out = sys.argv[1], sys.argv[2]
    budget, factor = float(sys.argv[3]), float(sys.argv[4])
    only = sys.argv[5].split(',') if len(sys.argv) > 5 and sys.argv[5] else None
    seed = os.environ.get('VERIF_SEED', '1')
    t0 = time.time()
    hs = [h for h in load(pid) if only is None or h['name'] in only]
    import lambeq
    assert os.path.realpath(lambeq.__file__).startswith(os.path.realpath(os.environ.get('VERIF_REPO', '/repo')) + '/')
    from pyvc import conc
    res = []
    deadline = time.time() + budget
    for i, h in enumerate(hs):
        if not h['n']:
            continue
        now = time.time()
        share = max(2.0, (deadline - now) / (len(hs) - i) * 2)
        r = conc.run_concrete(h['name'], h['fn'], int(h['n'] * factor), seed, min(deadline, now + share) if now < deadline else now + 1, h.get('gen'))
        r['name'] = h['name']
        r['funcs'] = h['funcs']
        r['sym'] = h['sym']
        res.append(r)
        if os.environ.get('PYVC_VERBOSE'):
            print(f"{h['name']:32s} cases={r['cases']:5d} skipped={r['skipped']:5d} claims={r['claims']:6d} {r['wall_s']:.2f}s", 'FAIL' if r['failure'] else '', flush=True)
            if r['failure']:
                print('   ', r['failure']['obligation'], r['failure']['seed'])
                print('    inputs', r['failure']['inputs'])
                print('   ', r['failure']['detail'][-int(os.environ['PYVC_VERBOSE']):].replace('\n', '\n        '))
    json.dump({'pid': pid, 'wall_s': time.time() - t0, 'results': res}, open(out, 'w'))


def replay(path):
    """Re-run the failing input of a replay file on the current /repo."""
    d = json.load(open(path))
    f = d.get('failure')
    if not f:
        print('no failing input recorded; failed obligations:')
        print(json.dumps(d.get('obligations'), indent=1))
        return 1
    hs = [h for h in load(d['property']) if h['name'] == f['harness']]
    from pyvc import conc
    h = hs[0]
    g, m = (h.get('gen') or conc.ConcG)(f['seed']), conc.ConcM(h['name'])
    try:
        h['fn'](g, m)
    except conc.Skip:
        print('precondition not met'); return 0
    except Exception as e:
        import traceback
        traceback.print_exc()
        print('inputs:', g.draws)
        return 1
    print('holds')
    return 0


if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        sys.exit(replay(sys.argv[2]))
    main()
