import numpy as np
from .common import sim


def scales(s):
    """the default prior over many orders of magnitude of mean and width"""
    from pymcmcstat.procedures.PriorFunction import PriorFunction
    r = s.r
    p = r.choice([1, 2, 3])
    mu = np.array([r.choice([-1., 1., 0.]) * 10.**r.choice(range(-8, 9)) for _ in range(p)])
    sg = np.array([np.inf if r.random() < .15 else (abs(m) or 1.) * 10.**r.choice(range(-8, 4)) for m in mu])
    z = np.array([r.choice([-3., -1., .5, 2., 40.]) for _ in range(p)])
    th = np.where(np.isfinite(sg), mu + z * np.where(np.isfinite(sg), sg, 0), mu + z)
    s.desc = dict(mu=mu.tolist(), sigma=sg.tolist(), theta=th.tolist())
    v = PriorFunction(mu=mu.copy(), sigma=sg.copy()).evaluate_prior(th.copy())
    want = sum(((m - t) / q)**2 for m, t, q in zip(mu.tolist(), th.tolist(), sg.tolist()))
    s.check('one-value', np.size(v) == 1, np.shape(v))
    s.close('sum-of-squared-standardised-distances', np.ravel(v), np.array([want]), rtol=1e-4)


simulation = sim('C10', userprior=True)
default = sim('C10', 'C02', userprior=False, mode='sos')
default.__name__ = 'simulation_default_prior'
SCENARIOS = [scales, simulation, default]
