#!/opt/venv/bin/python
"""run.py check ID [--thorough] [--only HARNESS] [--budget S] [--jobs N]
run.py replay FILE

Builds what is needed from /repo and runs one check or one replay."""
import argparse
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'


def env(sym):
    e = dict(os.environ)
    for k in ('LD_PRELOAD', 'PYTHONPATH', 'PYTHONHOME'):
        e.pop(k, None)
    e['PYTHONPATH'] = f'/repo/k2/python:{HERE}/build/{"sym" if sym else "plain"}/lib:{HERE}/engine:{HERE}/checks'
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e['PYTHONHASHSEED'] = '0'
    e['OMP_NUM_THREADS'] = e['MKL_NUM_THREADS'] = '1'
    e['K2_DISABLE_CHECKS'] = ''
    if sym:
        e['LD_PRELOAD'] = f'{HERE}/build/libk2symrt.so'
    return e


def build(what):
    return subprocess.run(['bash', f'{HERE}/setup.sh', what], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd', choices=['check', 'replay'])
    ap.add_argument('what')
    ap.add_argument('--thorough', action='store_true')
    ap.add_argument('--only')
    ap.add_argument('--budget', type=float)
    ap.add_argument('--jobs', type=int, default=8)
    a = ap.parse_args()
    sym = a.cmd == 'check'
    b = build('sym' if sym else 'plain')
    if b.returncode:
        print(b.stdout[-4000:])
        print(f'ERROR: /repo does not build ({"instrumented" if sym else "plain"})')
        sys.exit(2)
    if sym:
        cmd = [PY, f'{HERE}/engine/driver.py', a.what, '--jobs', str(a.jobs)]
        if a.thorough or os.environ.get('VERIF_TIER') == 'thorough':
            cmd.append('--thorough')
        if a.only:
            cmd += ['--only', a.only]
        if a.budget:
            cmd += ['--budget', str(a.budget)]
    else:
        cmd = [PY, f'{HERE}/engine/replay.py', a.what]
    sys.exit(subprocess.run(cmd, env=env(sym), cwd=HERE).returncode)


if __name__ == '__main__':
    main()
