"""Writes properties.jsonl and MANIFEST.json from props.py and the checks that exist."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import P  # noqa: E402

checks, na, lines = [], [], []
for i, d in sorted(P.items()):
    assert len(d['title']) <= 80, i
    lines.append(json.dumps({
        'id': i, 'title': d['title'], 'statement': d['statement'], 'quantifier': {'over': d['over'], 'text': d['quant']},
        'why_tests_cant': d['why'],
        'anchors': {'files': d['files'], 'mechanism': [{'name': a, 'where': b} for a, b in d['mech']],
                    'observe_at': d['observe'] or ['the public Python functions of k2'], 'hook_needed': None}}))
    if d['na']:
        na.append({'property': i, 'reason': d['na']})
    elif os.path.exists(f'{ROOT}/checks/{i}.py'):
        checks.append({
            'property': i, 'quick_cmd': f'/opt/venv/bin/python run.py check {i}',
            'thorough_cmd': f'/opt/venv/bin/python run.py check {i} --thorough',
            'technique': 'symbolic execution of the compiled code (LLVM IR) and its Python layer, decided by z3',
            'level': 'other',
            'level_note': 'For every path explored z3 decides the property for all input values that follow it; harnesses reported '
                          'as exhausted are decided for every value within the bounds written in the evidence file. Trusted: the '
                          'LLVM pass and its run-time library, the models of torch operators (compared with their concrete result '
                          'on every run), z3. A counterexample is only reported after it fails on the uninstrumented build.'})
    else:
        na.append({'property': i, 'reason': 'no check has been built for it yet'})
open(f'{ROOT}/properties.jsonl', 'w').write('\n'.join(lines) + '\n')
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: the instrumentation is an LLVM pass applied to an unchanged tree. See DESIGN.md.'},
          open(f'{ROOT}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')

# BOUNDS.md: what each harness covers, from the doc strings of the checks
import ast  # noqa: E402
out = ['# Bounds of each harness', '', 'Made by tools/gen.py from the doc strings in checks/; the evidence files carry the same text with what a run covered.', '']
for i, d in sorted(P.items()):
    f = f'{ROOT}/checks/{i}.py'
    if not os.path.exists(f):
        continue
    src = open(f).read()
    out += [f'## {i} {d["title"]}', '']
    tail = src[src.index('HARNESSES = ['):]
    for fn in ast.parse(src).body:
        if isinstance(fn, ast.FunctionDef) and f'Harness({fn.name}' in tail:
            out.append(f'- `{fn.name}`: ' + ' '.join((ast.get_docstring(fn) or '').split()))
    out.append('')
open(f'{ROOT}/BOUNDS.md', 'w').write('\n'.join(out))
