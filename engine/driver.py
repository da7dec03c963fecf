"""driver.py ID: explores the harnesses of one property and reports."""
import argparse
import importlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)

import sym  # noqa: E402

sym.load_lib(f'{ROOT}/build/libk2symrt.so')

import explore  # noqa: E402


def demangle(names):
    try:
        r = subprocess.run(['c++filt', '-p'], input='\n'.join(names), capture_output=True, text=True,
                           env={k: v for k, v in os.environ.items() if k != 'LD_PRELOAD'})
        return sorted({x.split('[clone')[0].strip() for x in r.stdout.split('\n') if x.strip()})
    except OSError:
        return sorted(names)


def known_findings(prop):
    p = f'{ROOT}/known_findings.json'
    if not os.path.exists(p):
        return []
    return [x for x in json.load(open(p)) if x['property'] == prop and x.get('status') == 'open']


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--thorough', action='store_true')
    ap.add_argument('--only')
    ap.add_argument('--budget', type=float)
    ap.add_argument('--jobs', type=int, default=8)
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    import smt  # noqa: F401
    import torch  # noqa: F401
    import k2  # noqa: F401
    assert k2.__file__.startswith('/repo/'), k2.__file__
    mod = importlib.import_module(a.prop)
    hs = [h for h in mod.HARNESSES if not a.only or h.name in a.only.split(',')]
    if not a.thorough:
        hs = [h for h in hs if not h.params.get('thorough_only')]
    budget = a.budget or (getattr(mod, 'THOROUGH_S', 420) if a.thorough else getattr(mod, 'QUICK_S', 35))
    os.makedirs(f'{ROOT}/replays', exist_ok=True)
    os.makedirs(f'{ROOT}/evidence', exist_ok=True)
    state = {'n': 0, 'violations': [], 'unreproduced': [], 'built': False, 'known': {}}
    known = known_findings(a.prop)

    def confirm(hi, values, msg):
        h = hs[hi]
        if state['n'] >= 40:
            return True
        state['n'] += 1
        if not state['built']:
            e = {k: v for k, v in os.environ.items() if k not in ('LD_PRELOAD', 'PYTHONPATH')}
            b = subprocess.run(['bash', f'{ROOT}/setup.sh', 'plain'], env=e, capture_output=True, text=True)
            if b.returncode:
                print(b.stdout[-2000:])
                print('ERROR: the plain build failed')
                sys.exit(2)
            state['built'] = True
        path = f'{ROOT}/replays/{a.prop}-{h.name}-{state["n"]}.json'
        with open(path, 'w') as f:
            json.dump({'property': a.prop, 'harness': h.name, 'message': msg, 'values': values}, f, indent=1)
        e = {k: v for k, v in os.environ.items() if k != 'LD_PRELOAD'}
        e['PYTHONPATH'] = e['PYTHONPATH'].replace('/build/sym/', '/build/plain/')
        out, rc = '', 0
        for perturb in ('', '165'):
            e['MALLOC_PERTURB_'] = perturb
            if not perturb:
                e.pop('MALLOC_PERTURB_')
            try:
                r = subprocess.run([sys.executable, f'{HERE}/replay.py', path], env=e, capture_output=True, text=True, timeout=100)
                out, rc = r.stdout[-3000:], r.returncode
            except subprocess.TimeoutExpired:
                out, rc = 'no end within 100 s', 1
            if rc not in (0, 3):
                break
        if rc in (0, 3):
            state['unreproduced'].append({'harness': h.name, 'message': msg, 'values': values})
            return False
        for kf in known:
            if kf['harness'] == h.name and kf['match'] in out:
                state['known'].setdefault(kf['id'], kf)
                return False
        state['violations'].append({'harness': h.name, 'message': msg[:600], 'replay': path})
        print(f'counterexample in {h.name}: {msg[:600]}')
        print(out)
        print(f'VIOLATION property={a.prop} replay={path}', flush=True)
        return True

    ex = explore.Explorer(hs, budget, seed, a.jobs, run_limit=getattr(mod, 'RUN_LIMIT', 60))
    ex.run(confirm)
    per = {}
    tot = dict(paths=0, queries=0, t_solve=0.0, decided=0, undecided=0, obligations=0, unknown=0)
    for h, s in zip(hs, ex.stat):
        per[h.name] = {k: (round(v, 2) if isinstance(v, float) else v) for k, v in s.items() if v or k in ('paths', 'open', 'exhausted')}
        per[h.name]['bounds'] = (h.fn.__doc__ or '').strip()
        for k in tot:
            tot[k] += s[k]
    fn = demangle(ex.coverage)
    allx = all(s['exhausted'] for s in ex.stat)
    rules = getattr(mod, 'EXPLAIN', mod.__doc__ or '')
    ev = {
        'property': a.prop, 'tier': 'thorough' if a.thorough else 'quick', 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'Symbolic execution of the compiled code of /repo (LLVM IR of every translation unit, instrumented at '
                           'build time) together with its Python layer: each path is decided by z3 for all input values that '
                           'follow it, and every branch is flipped by z3 to reach the remaining paths. "exhausted" harnesses '
                           'were decided for every value within their bounds; the others only on the paths listed. ' + ' '.join(rules.split()),
            'paths': tot['paths'], 'paths_decided': tot['decided'], 'paths_undecided': tot['undecided'],
            'solver_queries': tot['queries'], 'solver_unknown': tot['unknown'], 'solver_and_translation_s': round(tot['t_solve'], 1),
            'obligations': tot['obligations'], 'exhaustive': allx,
            'harnesses': per, 'unreproduced_counterexamples': len(state['unreproduced']),
            'functions_encoded_count': len(fn), 'functions_encoded': [x[:110] for x in fn if 'lambda' not in x][:150],
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []) + [
            'single CPU context; threads of the code under test interleave only where they block',
            'scores are exact dyadic numbers inside the stated range (a result that would round is refused, not approximated)',
            'torch operators are modelled by the engine, checked against their concrete result on every run'],
        'wall_s': round(time.time() - t0, 1), 'violations': len(state['violations']),
    }
    with open(f'{ROOT}/evidence/{a.prop}.json', 'w') as f:
        json.dump(ev, f, indent=1)
    for kf in known:
        print(f'KNOWN-FINDING: property={a.prop} {kf["what"]}' + ('' if kf['id'] in state['known'] else ' (not met on this run)'))
    for name, s in per.items():
        print(f'{name}: paths={s["paths"]} open={s["open"]} exhausted={s["exhausted"]} decided={s.get("decided", 0)} '
              f'undecided={s.get("undecided", 0)} discarded={s.get("discarded", 0)} queries={s.get("queries", 0)} '
              f'maxbr={s.get("max_branches", 0)} run={s.get("t_run", 0)}s solve={s.get("t_solve", 0)}s '
              + ' '.join(f'{k}={s[k]}' for k in ('unsupported', 'diverged', 'engine', 'crashes', 'timeouts', 'unknown', 'inexact', 'pinned_ops', 'notes') if s.get(k)))
    for m in ex.fatal[:3]:
        print('ENGINE:', m[:3000])
    for u in state['unreproduced'][:3]:
        print('UNREPRODUCED:', json.dumps(u)[:1500])
    print(f'{a.prop}: paths={tot["paths"]} exhaustive={allx} violations={len(state["violations"])} wall={ev["wall_s"]}s')
    if state['violations']:
        sys.exit(1)
    for h, s in zip(hs, ex.stat):
        if s['paths'] == 0:
            print(f'WARNING: {h.name} reached no path')
    if tot['paths'] == 0:
        print('ERROR: no path reached')
        sys.exit(2)
    sys.exit(0)


main()
