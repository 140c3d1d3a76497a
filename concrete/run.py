"""Entry point (run with the Python that has the real package):
   run.py search SPEC,SPEC.. SECONDS CASES SEED QUAL...   -> JSON lines on stdout
   run.py replay FILE"""
import importlib
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(3000)


def main():
    from concrete import checker
    from pyvc.contract import REGISTRY
    if sys.argv[1] == 'replay':
        info = json.load(open(sys.argv[2]))
        inp = info.get('input') or info
        for m in info.get('specs', []):
            importlib.import_module('specs.' + m)
        r = checker.replay(inp)
        print(json.dumps(r, indent=1, default=str))
        return 1 if r is not None else 0
    specs, secs, cases, seed = sys.argv[2].split(','), float(sys.argv[3]), int(sys.argv[4]), \
        int(sys.argv[5])
    for m in specs:
        importlib.import_module('specs.' + m)
    for q in sys.argv[6:]:
        ct = REGISTRY[q]
        try:
            stats = {'seen': set(), 'samples': []}
            n, r = checker.search(ct, secs, cases, seed, stats)
            print(json.dumps({'qual': q, 'cases': n, 'failure': r,
                              'distinct': len(stats['seen']), 'samples': stats['samples']},
                             default=str), flush=True)
        except BaseException as ex:                   # noqa
            print(json.dumps({'qual': q, 'cases': 0, 'failure': None,
                              'error': '%s: %s' % (type(ex).__name__, ex),
                              'trace': traceback.format_exc()[-1500:]}), flush=True)
    return 0


if __name__ == '__main__':
    sys.exit(main())
