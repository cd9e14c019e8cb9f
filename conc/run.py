"""Run contracts and scenarios concretely on the real code (repository interpreter).
usage: run.py PROP OUT.json seed n [--only NAME] [--given FILE] [--budget SECONDS] [--scen-only|--con-only]
       run.py --replay FILE"""
import sys
import os
import json
import time
import math
import traceback
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
os.environ.setdefault('MPLBACKEND', 'Agg')
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(v, '1')
import importlib
import warnings
warnings.simplefilter('ignore')


def contracts(prop):
    try:
        return importlib.import_module('contracts.' + prop.lower()).CONTRACTS
    except ModuleNotFoundError as e:
        if e.name and e.name.startswith('contracts'):
            return []
        raise


def scenarios(prop):
    try:
        return importlib.import_module('scen.' + prop.lower()).SCENARIOS
    except ModuleNotFoundError as e:
        if e.name and e.name.startswith('scen'):
            return []
        raise


def arg(name, d=None):
    return sys.argv[sys.argv.index(name) + 1] if name in sys.argv else d


def main():
    from conc.session import run_once
    from conc import scenlib
    if sys.argv[1] == '--replay':
        d = json.load(open(sys.argv[2]))
        if d['kind'] == 'contract':
            c = [x for x in contracts(d['property']) if x.__name__ == d['name']][0]
            st, S = run_once(c, d['seed'], d.get('given'))
            print(st, S.failed, 'inputs:', S.used)
            return 1 if st == 'fail' else 0
        if d['kind'] == 'scenario':
            s = [x for x in scenarios(d['property']) if x.__name__ == d['name']][0]
            f = scenlib.run_scenario(s, d['seed'])
            print(f)
            return 1 if f.get('failed') else 0
        print('nothing to replay: %s' % d.get('reason'))
        return 0
    prop, out, seed, n = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    only = arg('--only')
    budget = float(arg('--budget', '60'))
    given = json.load(open(arg('--given'))) if '--given' in sys.argv else None
    t0 = time.time()
    res = dict(contracts={}, scenarios={}, fails=[], repo=REPO)
    cs = [] if '--scen-only' in sys.argv else contracts(prop)
    ss = [] if '--con-only' in sys.argv or given else scenarios(prop)
    cs = [c for c in cs if not only or c.__name__ == only]
    ss = [c for c in ss if not only or c.__name__ == only]
    known = set()
    try:
        for q in json.load(open(os.path.join(ROOT, 'known_findings.json')))['findings']:
            if q['property'] == prop and q['status'] == 'open':
                known |= {(q['name'], a) for a in q['clauses']}
    except FileNotFoundError:
        pass
    for c in cs:
        if getattr(c, 'symbolic_only', False):
            continue
        d = res['contracts'][c.__name__] = dict(ok=0, skip=0, fail=0, checked={}, sample=None)
        tend = time.time() + budget / max(1, len(cs))
        reps = [given] if given else range(n)
        for k in range(n if not given else 1):
            if time.time() > tend and k > 5:
                break
            st, S = run_once(c, seed * 100003 + k, given)
            d[st] += 1
            for a, b in S.checked.items():
                d['checked'][a] = d['checked'].get(a, 0) + b
            if st == 'ok' and d['sample'] is None:
                d['sample'] = repr(S.used)[:300]
            if st == 'fail':
                if d['fail'] <= 3:
                    res['fails'].append(dict(kind='contract', property=prop, name=c.__name__, seed=seed * 100003 + k, given=given,
                                             failed=[(a, str(b)) for a, b in S.failed[:5]], inputs=repr(S.used)[:4000]))
                if d['fail'] >= 5:
                    break
    for s in ss:
        d = res['scenarios'][s.__name__] = dict(runs=0, fail=0, checked={}, sample=None, nontrivial=0)
        w = getattr(s, 'weight', 1.0)
        cap = getattr(s, 'runs', None)
        tend = time.time() + budget * w / max(1, len(ss))
        m = min(n, cap) if cap else n
        for k in range(m):
            if time.time() > tend and k >= getattr(s, 'minruns', 1):
                break
            r = scenlib.run_scenario(s, seed * 1009 + k)
            d['runs'] += 1
            for a, b in r['checked'].items():
                d['checked'][a] = d['checked'].get(a, 0) + b
            if d['sample'] is None:
                d['sample'] = r['desc']
            if r['failed']:
                if all((s.__name__, a[0]) in known for a in r['failed']):
                    d['known'] = d.get('known', 0) + 1
                    if d['known'] > 1:
                        continue
                else:
                    d['fail'] += 1
                if d['fail'] <= 4:
                    res['fails'].append(dict(kind='scenario', property=prop, name=s.__name__, seed=seed * 1009 + k,
                                             failed=r['failed'][:5], inputs=r['desc'][:4000], key=r.get('key')))
                if d['fail'] >= 6:
                    break
    res['wall'] = time.time() - t0
    with open(out, 'w') as f:
        json.dump(res, f, default=str)
    return 0


if __name__ == '__main__':
    sys.exit(main())
