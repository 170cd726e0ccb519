"""Symbolic process: python -m pyvc.run_sym PID OUT [budget_s] [only]"""
import json
import os
import signal
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(6000)


def main():
    pid, out = sys.argv[1], sys.argv[2]
    budget = float(sys.argv[3]) if len(sys.argv) > 3 else 300
    only = sys.argv[4] if len(sys.argv) > 4 else None
    t0 = time.time()
    from pyvc import instr
    instr.install(os.environ.get('VERIF_REPO', '/repo'))
    from pyvc import core, session
    from pyvc import setup
    setup.prepare(pid)
    import importlib
    mod = importlib.import_module(f'contracts.{pid.lower()}')
    from contracts.reg import HARNESSES
    t_import = time.time() - t0
    deadline = t0 + budget
    hs = [h for h in HARNESSES.get(pid, []) if h['sym'] and (only is None or h['name'] in only.split(','))]
    per = float(os.environ.get('PYVC_PER', 120))

    def onalarm(*_):
        core.EXPIRED = True
        raise core.Unsupported('time budget of this harness exhausted')

    def nothing(h, what):
        return {'name': h['name'], 'funcs': h['funcs'], 'obligations': {f"{h['name']}:{what[0]}": {'status': 'undecided', 'vcs': 0, 'detail': what[1]}}, 'vcs': 0, 'paths': 0, 'error': what[1], 'by': {}, 'queries': 0, 'solver_s': 0, 'unknowns': 0}

    def one(h):
        signal.signal(signal.SIGALRM, onalarm)
        left = deadline - time.time()
        if left < 1:
            return nothing(h, ('scheduled', 'budget exhausted'))
        core.EXPIRED = False
        setup.before(h)
        signal.setitimer(signal.ITIMER_REAL, min(per, left))
        try:
            r = session.run_harness(h['name'], h['fn'])
        except core.Unsupported as e:
            r = nothing(h, ('within-subset', str(e)))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            core.CTX = None
        r['funcs'] = h['funcs']
        r['bound'] = h.get('bound')
        return r

    def show(r):
        bad = {k: v for k, v in r['obligations'].items() if v['status'] != 'proved'}
        print(f"{r['name']:32s} paths={r['paths']:4d} obs={len(r['obligations']):3d} vcs={r['vcs']:4d} {r.get('wall_s')}s", 'OK' if not bad else 'NOT PROVED', flush=True)
        for k, v in bad.items():
            print('    ', v['status'], k, '::', v['detail'][:int(os.environ.get('PYVC_VERBOSE'))].replace('\n', '\n          '))

    # one harness at a time in each of a few forked workers
    import multiprocessing
    jobs = int(os.environ.get('PYVC_JOBS', 5))
    mp = multiprocessing.get_context('fork')
    todo = mp.Value('i', 0)
    results = mp.SimpleQueue()

    def work():
        sys.setrecursionlimit(6000)
        while True:
            with todo.get_lock():
                i = todo.value
                todo.value += 1
            if i >= len(hs):
                break
            results.put((i, one(hs[i])))
        results.put(None)
        os._exit(0)

    got = {}
    if jobs > 1 and len(hs) > 1:
        ps = [mp.Process(target=work) for _ in range(min(jobs, len(hs)))]
        for p in ps:
            p.start()
        live = len(ps)
        while live:
            while results.empty():
                if not any(p.is_alive() for p in ps) and results.empty():
                    live = 0
                    break
                time.sleep(0.02)
            if not live:
                break
            x = results.get()
            if x is None:
                live -= 1
            else:
                got[x[0]] = x[1]
                if os.environ.get('PYVC_VERBOSE'):
                    show(x[1])
    else:
        for i, h in enumerate(hs):
            got[i] = one(h)
            if os.environ.get('PYVC_VERBOSE'):
                show(got[i])
    res = [got.get(i) or nothing(h, ('scheduled', 'the worker ended')) for i, h in enumerate(hs)]
    json.dump({'pid': pid, 'import_s': t_import, 'wall_s': time.time() - t0, 'results': res,
               'canary': setup.canary()}, open(out, 'w'))


main()
