import os
import numpy as np
from .common import sim


class Sampler:
    """a user's own sampler: hands out a fresh token at every step and records what it is told"""
    def __init__(self, name, log, nsimu=None):
        self.name, self.log, self.n = name, log, 0
        if nsimu is not None:
            self.save_chain = True
            self.mtx = np.zeros((nsimu, 2))
            self.mtx[0] = [-1., 0.]
            self.chains = [dict(file=name, mtx=self.mtx)]

    def setup(self):
        return (self.name, 'first')

    def update(self, accept, isimu, current_set):
        out = (self.name, isimu)
        if hasattr(self, 'mtx'):
            self.mtx[isimu] = [isimu, self.n]
        self.n += 1
        self.log.append(dict(kind='update', who=self.name, isimu=isimu, theta=np.array(current_set.theta, float).copy(), ss=np.array(current_set.ss, float).copy(), accept=bool(accept), out=out))
        return out


def custom_samplers(s):
    from pymcmcstat.MCMC import MCMC
    from pymcmcstat.chain import ChainProcessing as CP
    r = s.r
    log = []

    def sos(q, data, custom=None):
        log.append(dict(kind='sos', custom=None if custom is None else list(custom), q=np.array(q, float).copy()))
        return float(np.sum(np.asarray(q) ** 2))
    n = r.choice([2, 3, 6, 12])
    k = r.choice([1, 2])
    saving = r.random() < .5
    d = os.path.join(s.scratch(), 'cs')
    mc = MCMC()
    mc.data.add_data_set(np.zeros((3, 1)), np.zeros((3, 1)))
    for j in range(r.choice([1, 2])):
        mc.parameters.add_model_parameter(name='p%d' % j, theta0=.5, minimum=r.choice([-np.inf, -1.]), maximum=r.choice([np.inf, 1.]))
    ss = r.choice([1, 2, 3, 5, n, 100])
    mc.simulation_options.define_simulation_options(nsimu=n, method=r.choice(['mh', 'dram', 'dr', 'am']), adaptint=2, ntry=r.choice([None, 2, 3, 4]), qcov=r.choice([.01, 1., 100.]) * np.eye(len(mc.parameters.parameters)), waitbar=False, verbosity=0, updatesigma=r.random() < .5,
                                                    savedir=d, savesize=ss, save_to_bin=saving, save_to_txt=saving)
    mc.model_settings.define_model_settings(sos_function=sos)
    mc.custom_samplers = [Sampler('s%d' % i, log, n if saving else None) for i in range(k)]
    s.desc = dict(nsimu=n, samplers=k, savesize=ss, saving=saving, method=mc.simulation_options.method)
    mc.run_simulation()
    chain = np.asarray(mc.simulation_results.results['chain'])
    cur = [('s%d' % i, 'first') for i in range(k)]
    steps, pend, first = 0, [], True
    for e in log:
        if e['kind'] == 'sos':
            if first:                                    # the evaluation of the starting point comes before the samplers exist
                first = False
                continue
            s.check('evaluations-get-the-outputs-of-the-previous-step', e['custom'] == cur, (steps, e['custom'], cur))
        else:
            pend.append(e['out'])
            s.check('samplers-in-order', e['who'] == 's%d' % (len(pend) - 1), (e, pend))
            s.check('step-number', e['isimu'] == steps + 1, (e['isimu'], steps))
            s.same('sampler-sees-the-current-point', e['theta'], chain[e['isimu']])
            if len(pend) == k:
                cur, pend, steps = pend, [], steps + 1
    s.check('every-sampler-at-every-step', steps == n - 1 and not pend, (steps, n))
    if saving:
        for c in mc.custom_samplers:
            for a in (CP.read_in_bin_file(os.path.join(d, c.name + '.h5')), CP.read_in_txt_file(os.path.join(d, c.name + '.txt'))):
                a = np.asarray(a, float)
                s.check('custom-chain-logged-once-in-order', a.shape == c.mtx.shape and np.allclose(a, c.mtx), (a[:, :1].T, c.mtx.shape))


custom_samplers.weight = .4
SCENARIOS = [sim("C05"), custom_samplers]
