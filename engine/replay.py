"""replay.py FILE: runs one counterexample on the plain build of /repo.
Exit 1: the property is violated; 0: it holds; 3: the input is outside the assumptions."""
import importlib
import json
import sys

import explore
import sym


def main():
    d = json.load(open(sys.argv[1]))
    sym.setup_torch()
    mod = importlib.import_module(d['property'])
    h = {x.name: x for x in mod.HARNESSES}[d['harness']]
    failed, ctx = explore.run_concrete(h, d['values'])
    print('property', d['property'], 'harness', d['harness'])
    print('input', json.dumps(ctx.declared))
    if failed is None:
        print('outside the assumptions')
        sys.exit(3)
    for m in failed:
        print('FAILED:', m)
    if not failed:
        print('holds')
    sys.exit(1 if failed else 0)


main()
