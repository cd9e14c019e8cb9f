"""the generator, call by call, against an independent Marsaglia-Tsang on the same draws"""
import numpy as np
from conc.session import Recorder
from conc.sysrun import Draws, gamma_ref, Ambiguous, OutOfDraws
from .common import sim


def generator(s):
    from pymcmcstat.procedures.ErrorVarianceEstimator import ErrorVarianceEstimator
    r = s.r
    a = r.choice([-1., 0., 1e-3, .3, .99, 1., 1.2, 2.5, 7., 40., 0.5, 0.05])
    b = r.choice([1., .2, 3.7, 100.])
    m, n = r.choice([(1, 1), (1, 3), (4, 1), (3, 2)])
    s.desc = dict(a=a, b=b, m=m, n=n)
    with Recorder() as rec:
        y = ErrorVarianceEstimator().gammar(m, n, a, b)
    s.check('shape', np.shape(y) == (m, n), np.shape(y))
    if a <= 0:
        s.close('zero-for-nonpositive-shape', y, np.zeros((m, n)))
        return
    s.check('non-negative', bool(np.all(y >= 0)), y)
    D = Draws(rec.log)
    vals = []
    try:
        for _ in range(m * n):
            vals.append(gamma_ref(D, a, b))
    except Ambiguous:
        return
    except OutOfDraws:
        s.check('follows-draws', False, 'too few draws')
        return
    s.check('every-draw-used-once', D.i == len(D.n) and D.j == len(D.u))
    s.close('marsaglia-tsang-values', np.sort(np.ravel(y)), np.sort(vals), rtol=1e-9)


simulation = sim('C09', updatesigma=True)
SCENARIOS = [generator, simulation]
