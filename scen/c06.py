from .common import sim
from conc.sysrun import problem, execute, verify, again, continued

simulation = sim('C06', method='am')


def after_restart(s):
    """every row is consumed exactly once, also after a continued run"""
    P = problem(s, method=s.r.choice(['am', 'dram']), nsimu=s.r.choice([12, 25]))
    P.opt['adaptint'] = s.r.choice([3, 5, 7])
    R = execute(s, P)
    last = R.res['chain'].shape[0] - 1
    Q = continued(P, R.res, P.opt)
    s2 = None if R.res['s2chain'] is None else R.res['s2chain'][-1].copy()
    if s2 is None:
        s2 = R.mc.model_settings.sigma2.copy()
    R2 = again(s, P, R)
    verify(s, Q, R2, ('C06',), start=last, first=[Q.par[i]['theta0'] for i in P.ind], s2first=s2)


SCENARIOS = [simulation, after_restart]
