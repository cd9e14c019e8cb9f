import os
import json
import numpy as np
from .common import sim
from conc.sysrun import problem, execute

simulation = sim('C15')


def export(s):
    r = s.r
    P = problem(s, nsimu=r.choice([2, 6, 12]))
    P.opt['save_to_json'] = True
    P.opt['results_filename'] = 'out.json'
    light = r.random() < .5
    if light:
        P.opt[r.choice(['save_to_bin', 'save_to_txt'])] = True
    d = os.path.join(s.scratch(), 'r')
    R = execute(s, P, savedir=d)
    J = json.load(open(os.path.join(d, 'out.json')))
    want = set(R.res) - ({'chain', 's2chain', 'sschain'} if light else set())
    s.check('export-keys', set(J) == want, (sorted(set(J) ^ want), light))
    s.check('results-still-have-chains', R.res['chain'] is not None and R.res['sschain'] is not None)
    for k in ('theta', 'R', 'qcov', 'qcovorig', 'total_rejected', 'limits', 'chain', 'sschain'):
        if k in J:
            s.close('export-values', np.array(J[k], float), np.asarray(R.res[k], float), rtol=1e-12, atol=0, detail=k)


def _lighten(s):
    from pymcmcstat.structures.ResultsStructure import lighten_results
    ch = s.np.randn(3, 2)
    d = dict(chain=ch, s2chain=None, sschain=ch * 2)
    for k in s.r.sample(['theta', 'chainx', 'mean', 'names', 'R', 'sschain2'], 3):
        d[k] = s.r.random()
    c = dict(d)
    out = lighten_results(d)
    s.check('light-drops-only-chains', set(out) == set(c) - {'chain', 's2chain', 'sschain'} and all(out[k] is c[k] for k in out))
    s.check('light-keeps-original', set(d) == set(c) and all(d[k] is c[k] for k in c))


_lighten.__name__ = 'light_results'
_lighten.runs = 20
SCENARIOS = [simulation, export, _lighten]
