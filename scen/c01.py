import numpy as np
from .common import sim
from conc.sysrun import problem, build, Rec, INF


def refused(s):
    """incompatible limits or an initial value outside its limits: an error before any sampling"""
    P = problem(s)
    r = s.r
    i = r.choice(P.ind)
    kind = r.choice(['minmax', 'low', 'high'])
    t = P.par[i]['theta0']
    if kind == 'minmax':
        P.par[i]['minimum'], P.par[i]['maximum'] = t + r.choice([0.1, 5]), t - r.choice([0.1, 5, -.05])
    elif kind == 'low':
        P.par[i]['minimum'] = t + r.choice([1e-6, .2])
        P.par[i]['maximum'] = r.choice([INF, t + 1])
    else:
        P.par[i]['maximum'] = t - r.choice([1e-6, .2])
        P.par[i]['minimum'] = r.choice([-INF, t - 1])
    s.desc = dict(par=P.par, kind=kind)
    rec = Rec()
    with rec:
        mc = build(P, rec)
        rec.log.clear()
        e = s.raises(mc.run_simulation)
    s.check('refused', isinstance(e, (SystemExit, Exception)), (kind, P.par[i]))
    s.check('refused-before-sampling', not [x for x in rec.log if x[0] in ('n', 'u', 'model', 'sos')])


def accepted_on_boundary(s):
    """an initial value exactly on a limit is inside the closed limits"""
    P = problem(s, nsimu=4)
    i = s.r.choice(P.ind)
    P.par[i]['minimum' if s.r.random() < .5 else 'maximum'] = P.par[i]['theta0']
    rec = Rec()
    with rec:
        mc = build(P, rec)
        e = s.raises(mc.run_simulation)
    s.check('boundary-initial-value-accepted', e is None, e)


refused.runs = 60
accepted_on_boundary.runs = 20
simulation = sim('C01')
simulation.weight = 2.0
SCENARIOS = [simulation, refused, accepted_on_boundary]
