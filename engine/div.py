"""div.py CHECK HARNESS: where a path does not follow the branches that were predicted."""
import importlib
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sym
sym.load_lib(f'{ROOT}/build/libk2symrt.so')
import explore


def main():
    import smt
    sym.setup_torch()
    mod = importlib.import_module(sys.argv[1])
    h = {x.name: x for x in mod.HARNESSES}[sys.argv[2]]
    todo, seen = [({}, 0, b'', ())], 0
    real = explore.run_symbolic
    last = {}
    while todo and seen < 400:
        v, d, e, ex = todo.pop()
        seen += 1
        r = real(h, v, d, e, ex)
        if r['diverged']:
            k = next(i for i in range(len(e)) if r['bits'][i:i + 1] != e[i:i + 1])
            print('diverged at', k, 'of', len(e), 'values', {a: b for a, b in r['values'].items()}, flush=True)
            os.environ['K2SYM_TRACE'] = '1'
            real(h, v, d, e, ex)
            print('expected', list(e), 'got', list(r['bits']))
            return
        todo += r['children']
    print('paths', seen)


main()
