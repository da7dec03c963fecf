"""one.py REPLAY: one input through the instrumented build; every branch and obligation is compared with its formula."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sym  # noqa: E402

sym.load_lib(f'{ROOT}/build/libk2symrt.so')
import explore  # noqa: E402


def main():
    import smt  # noqa: F401
    d = json.load(open(sys.argv[1]))
    sym.setup_torch()
    mod = importlib.import_module(d['property'])
    h = {x.name: x for x in mod.HARNESSES}[d['harness']]
    explore.SELFTEST = True
    r = explore.run_symbolic(h, d['values'], 10 ** 9, b'')
    for k in ('n', 'obligations', 'unsupported', 'viol', 'err', 'decided', 'unknown', 'diverged', 'notes', 'selftest'):
        print(k, r.get(k))


main()
