"""Verify one contract against /repo's current source (run with python3-vt).
usage: prove.py MODULE CONTRACT OUT.json [timeout_ms] [wall_s]"""
import sys
import os
import json
import time
import importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main():
    mod, name, out = sys.argv[1:4]
    tmo = int(sys.argv[4]) if len(sys.argv) > 4 else 10000
    wall = float(sys.argv[5]) if len(sys.argv) > 5 else 400
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
    from pyvc.session import SymS, Program
    m = importlib.import_module('contracts.' + mod)
    c = [x for x in m.CONTRACTS if x.__name__ == name][0]
    t0 = time.time()
    try:
        prog = Program(os.environ.get('VERIF_REPO', '/repo'))
        s = SymS(prog, tmo)
        r = s.run(c, deadline=t0 + wall)
    except SyntaxError as e:
        r = dict(error='syntax error in the source: %s' % e, obligations=[], fails=[], paths=0, functions=[], inlined=[], summaries=[], trusted=[],
                 inv=[], ensures={}, stats={}, wall=time.time() - t0)
    r['contract'] = name
    with open(out, 'w') as f:
        json.dump(r, f, default=str)


main()
