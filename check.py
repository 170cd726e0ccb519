#!/opt/venv/bin/python
"""check.py PID [quick|thorough]  -- decide one property on /repo's current tree.

(1) contract verification: the functions under contract are extracted from
    /repo (import hook), every obligation is generated and discharged;
(2) the same contracts are replayed on the un-instrumented code: search for a
    failing input of an obligation that is not discharged, and the labelled
    bounded stand-in for functions out of the verifier's reach.
"""
import json
import os
import pathlib
import signal
import subprocess
import sys
import tempfile
import time

HERE = pathlib.Path(__file__).resolve().parent
PY = '/opt/venv/bin/python'
TIERS = {'quick': dict(sym=240, conc=100, factor=1.0, per=100),
         'thorough': dict(sym=700, conc=500, factor=20.0, per=240)}


def known_findings(pid):
    p = HERE / 'known_findings.json'
    if not p.exists():
        return []
    return [k for k in json.loads(p.read_text())['findings']
            if k['property'] == pid and k['status'] == 'open']


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = os.environ.get('VERIF_SEED', '1')
    T = TIERS[tier]
    t0 = time.time()
    env = dict(os.environ, PYTHONHASHSEED='0', OMP_NUM_THREADS='2', PYVC_PER=str(T['per']),
               VERIF_SEED=seed, PYTHONDONTWRITEBYTECODE='1', HF_HUB_OFFLINE='1', CUDA_VISIBLE_DEVICES='')
    env.pop('PYVC_VERBOSE', None)
    tmp = tempfile.mkdtemp(prefix='pyvc')
    try:
        run(pid, tier, seed, T, t0, env, tmp)
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)


def spawn(args, env, err):
    return subprocess.Popen([PY, '-m'] + args, cwd=HERE, env=env,
                            stdout=subprocess.DEVNULL, stderr=open(err, 'w'), start_new_session=True)


def finish(p, timeout):
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)        # and its workers
        p.wait()
        return False
    return p.returncode == 0


def run(pid, tier, seed, T, t0, env, tmp):
    so, co = f'{tmp}/sym.json', f'{tmp}/conc.json'
    ps = spawn(['pyvc.run_sym', pid, so, str(T['sym'])], env, f'{tmp}/sym.err')
    pc = spawn(['pyvc.run_conc', pid, co, str(T['conc']), str(T['factor'])], env, f'{tmp}/conc.err')
    ok_c = finish(pc, T['conc'] + 120)
    ok_s = finish(ps, max(5, T['sym'] + 90 - (time.time() - t0)))
    sym = json.load(open(so)) if ok_s and os.path.exists(so) else None
    conc = json.load(open(co)) if ok_c and os.path.exists(co) else None
    if conc is None:
        print(f'ERROR: the concrete replay of {pid} did not finish:\n' + open(f'{tmp}/conc.err').read()[-3000:])
        sys.exit(2)
    errs = open(f'{tmp}/sym.err').read()[-3000:]
    if sym is None:
        print(f'UNDECIDED: the verifier process of {pid} gave no answer:\n{errs}')
    elif not sym['canary']:
        print('ERROR: the prover failed its canary')
        sys.exit(2)
    obs, funcs, vcs, solver, queries, by = {}, set(), 0, 0.0, 0, {}
    paths = 0
    if sym:
        for r in sym['results']:
            obs.update({k: dict(v, harness=r['name'], bound=r.get('bound')) for k, v in r['obligations'].items()})
            vcs += r['vcs']; paths += r['paths']
            solver += r['solver_s']; queries += r['queries']
            by['cvc5 / newer z3 (after an unknown)'] = by.get('cvc5 / newer z3 (after an unknown)', 0) + r.get('second', 0)
            for k, v in r['by'].items():
                by[k] = by.get(k, 0) + v
            if not r.get('bound') and all(v['status'] == 'proved' for v in r['obligations'].values()):
                funcs.update(r['funcs'])
    proved = [k for k, v in obs.items() if v['status'] == 'proved']
    refuted = {k: v for k, v in obs.items() if v['status'] == 'refuted'}
    undecided = {k: v for k, v in obs.items() if v['status'] == 'undecided'}
    failures = [r['failure'] for r in conc['results'] if r['failure']]
    # look harder for an input that fails a refuted or undecided obligation
    suspects = sorted({v['harness'] for v in list(refuted.values()) + list(undecided.values())}
                      - {f['harness'] for f in failures})
    extra = 0
    if suspects and not failures:
        xo = f'{tmp}/extra.json'
        px = spawn(['pyvc.run_conc', pid, xo, str(T['conc']), str(T['factor'] * 12), ','.join(suspects)],
                   dict(env, VERIF_SEED=seed + 'x'), f'{tmp}/x.err')
        if finish(px, T['conc'] + 120) and os.path.exists(xo):
            xr = json.load(open(xo))['results']
            extra = sum(r['cases'] for r in xr)
            failures += [r['failure'] for r in xr if r['failure']]
    known = known_findings(pid)
    new, seen = [], []
    for f in failures:
        k = next((k for k in known if k['harness'] == f['harness'] and k['obligation'] == f['obligation']
                  and k.get('match', '') in f['detail'] + repr(f['inputs'])), None)
        (seen if k else new).append((f, k))
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    bounded = [r for r in conc['results'] if not r['sym']]
    refuted = {k: v for k, v in refuted.items()
               if not any(kk.get('refutes') == k for kk in known)}
    violation = None
    if new or refuted:
        rp = pathlib.Path(os.environ.get('VERIF_OUT', HERE / 'evidence')) / f'replay_{pid}.json'
        rp.parent.mkdir(exist_ok=True)
        rp.write_text(json.dumps({
            'property': pid, 'failure': new[0][0] if new else None,
            'other_failures': [f for f, _ in new[1:]],
            'obligations': {k: v for k, v in list(refuted.items()) + list(undecided.items())},
            'how_to_replay': f'{PY} -m pyvc.run_conc --replay {rp}  (in /verif)'}, indent=1))
        violation = f'VIOLATION property={pid} replay={rp}' + ('' if new else ' no-failing-input-found')
    evidence(pid, tier, seed, t0, obs, proved, refuted, undecided, funcs, vcs, paths, by, solver, queries,
             sym, conc, bounded, extra, known, violation, new)
    print(f'{pid} [{tier}]: {len(proved)}/{len(obs)} obligations discharged ({vcs} verification conditions, '
          f'{paths} paths, {queries} solver queries, {solver:.1f}s solver), '
          f'{sum(r["cases"] for r in conc["results"]) + extra} concrete replays '
          f'({len(bounded)} bounded stand-ins), {time.time() - t0:.0f}s')
    for k, v in undecided.items():
        print(f'UNDECIDED obligation {k}: ' + ' '.join(v['detail'].split())[:300])
    if violation:
        for k, v in refuted.items():
            print(f'FAILED obligation {k}: ' + ' '.join(v['detail'].split())[:600])
        for f, _ in new:
            print(f"FAILING INPUT for {f['obligation']}: {f['inputs']}\n  {f['detail'][-1500:]}")
        print(violation)
        sys.exit(1)
    if not proved and not conc['results']:
        print('ERROR: nothing was checked')
        sys.exit(2)
    sys.exit(0)


def evidence(pid, tier, seed, t0, obs, proved, refuted, undecided, funcs, vcs, paths, by, solver, queries,
             sym, conc, bounded, extra, known, violation, new):
    man = {c['property']: c for c in json.loads((HERE / 'MANIFEST.json').read_text())['checks']} \
        if (HERE / 'MANIFEST.json').exists() else {}
    level = man.get(pid, {}).get('level', 'proof')
    from contracts.trust import TRUST, COMMON
    sized = {}
    for k, v in obs.items():
        if v.get('bound'):
            sized.setdefault(v['harness'], {'bound': v['bound'], 'obligations': 0, 'hold_for_all_values': 0})
            sized[v['harness']]['obligations'] += 1
            sized[v['harness']]['hold_for_all_values'] += v['status'] == 'proved'
    cov = {
        'obligations': sum(not v.get('bound') for v in obs.values()),
        'discharged': sum(not obs[k].get('bound') for k in proved),
        'bounded_in_size_all_values': sized,
        'checker_cmd': f'{PY} check.py {pid} {tier}',
        'trusted_base': COMMON + TRUST.get(pid, []),
        'functions_under_contract_proved': sorted(funcs),
        'verification_conditions': vcs, 'paths': paths, 'vcs_by_back_end': by,
        'solver': 'z3 (quantifier-free linear arithmetic, strings, uninterpreted functions) + pyvc.words (free-monoid normaliser)',
        'solver_queries': queries, 'solver_time_s': round(solver, 2),
        'undecided': {k: v['detail'][:300] for k, v in undecided.items()},
        'refuted': {k: v['detail'][:300] for k, v in refuted.items()},
        'obligation_names': sorted(obs),
        'bounded_stand_ins': [{'harness': r['name'], 'functions': r['funcs'], 'inputs_drawn': r['cases'],
                               'claims': r['claims']} for r in bounded],
        'concrete_inputs_replayed': sum(r['cases'] for r in conc['results']) + extra,
        'concrete_claims': sum(r['claims'] for r in conc['results']),
        'known_findings': [k['what'] for k in known],
    }
    ev = {'property': pid, 'tier': tier, 'seed': int(seed) if str(seed).isdigit() else 1, 'level': level,
          'coverage': cov, 'wall_s': round(time.time() - t0, 2),
          'assumptions': COMMON + TRUST.get(pid, []),
          'violations': (len(new) or len(refuted)) if violation else 0}
    cov['violating'] = [{'obligation': f['obligation'], 'inputs': f['inputs'], 'detail': f['detail'][:500]}
                        for f, _ in new] if violation else []
    p = pathlib.Path(os.environ.get('VERIF_OUT', HERE / 'evidence'))
    p.mkdir(exist_ok=True)
    (p / f'{pid}.json').write_text(json.dumps(ev, indent=1))


if __name__ == '__main__':
    sys.path.insert(0, str(HERE))
    main()
