import numpy as np
from .common import sim

simulation = sim('C12')


def refusals(s):
    """sizes that cannot be matched, or counts contradicting the data, are refused"""
    from pymcmcstat.MCMC import MCMC
    r = s.r
    nb = r.choice([1, 2, 3])
    mm = [r.choice([2, 3, 5]) for _ in range(nb)]
    nsos = r.choice([1, 2, 3, 4])
    mc = MCMC()
    for m in mm:
        mc.data.add_data_set(np.arange(m) * 1., np.arange(m) * 2.)
    mc.parameters.add_model_parameter('a', 1.)
    ms = {}
    bad = False
    for k in ('sigma2', 'S20', 'N0'):
        if r.random() < .4:
            ln = r.choice([1, 1, nsos, 2, 3])
            ms[k] = [r.choice([1.5, 2.0, .3]) for _ in range(ln)]
            bad |= ln != 1 and ln != nsos
    if r.random() < .5:
        kind = r.choice(['scalar', 'list', 'wrong'])
        N = r.choice(mm) if kind == 'scalar' else list(mm) if kind == 'list' else [q + 1 for q in mm]
        ms['N'] = N
        L = [N] if not isinstance(N, list) else N
        if len(L) == nb:
            bad |= L != mm
        elif len(L) == 1:
            bad |= any(q != L[0] for q in mm)
        else:
            bad |= not (nb == 1 and all(q == mm[0] for q in L))
    bad |= nb > 1 and nsos > 1 and nb != nsos
    s.desc = dict(nb=nb, mm=mm, nsos=nsos, ms=ms, bad=bad)
    mc.model_settings.define_model_settings(sos_function=lambda q, d: np.ones(nsos), **ms)
    mc.simulation_options.define_simulation_options(nsimu=3, verbosity=0, waitbar=False)
    e = s.raises(mc.run_simulation)
    if bad:
        s.check('mismatched-settings-refused', e is not None)
    else:
        s.check('matching-settings-accepted', e is None, e)
        if e is None:
            for k in ('sigma2', 'S20', 'N0', 'N'):
                s.check('one-entry-per-group', len(getattr(mc.model_settings, k)) == nsos, k)


def options(s):
    from pymcmcstat.settings.SimulationOptions import SimulationOptions
    from pymcmcstat.settings.ModelSettings import ModelSettings
    r = s.r
    m = r.choice(['mh', 'am', 'dr', 'dram'])
    kw = dict(method=m)
    for k, v in (('adaptint', [0, 1, 50, None]), ('ntry', [1, 2, 5, None]), ('adascale', [None, .5, 2.]), ('nsimu', [1, 10, 1e3]), ('savesize', [-3, 0, 1, 10, 11, 5000]),
                 ('updatesigma', [True, False, 0, 1]), ('printint', [None, 0, 7]), ('lastadapt', [0, 4])):
        if r.random() < .6:
            kw[k] = r.choice(v)
    s.desc = dict(kw)
    o = SimulationOptions()
    o.define_simulation_options(**kw)
    ms = ModelSettings()
    n0 = r.choice([None, 1, 2.5])
    ms.define_model_settings(N0=n0)
    o._check_dependent_simulation_options(ms)
    ad = {'mh': 0, 'dr': 0, 'am': 100, 'dram': 100}[m]
    if m in ('am', 'dram') and kw.get('adaptint') is not None:
        ad = kw['adaptint']
    nt = kw['ntry'] if kw.get('ntry') is not None else {'mh': 1, 'am': 1, 'dr': 2, 'dram': 2}[m]
    ns = int(kw.get('nsimu', 10000))
    s.check('adaptation-interval', o.adaptint == ad, (o.adaptint, ad))
    s.check('number-of-tries', o.ntry == nt, (o.ntry, nt))
    sz = kw.get('savesize', 0)
    s.check('save-size', o.savesize == (sz if 1 <= sz <= ns else ns), o.savesize)
    la = kw.get('lastadapt', 0)
    s.check('last-adaptation-step', o.lastadapt == (la if la >= 1 else ns), o.lastadapt)
    o.nsimu = n2 = r.choice([5, 20, 3000])
    o._check_dependent_simulation_options(ms)
    s.check('last-adaptation-step-of-the-next-run', o.lastadapt == (la if la >= 1 else n2), o.lastadapt)
    o.nsimu = ns
    o._check_dependent_simulation_options(ms)
    s.check('update-sigma', bool(o.updatesigma) == (bool(kw.get('updatesigma', False)) or n0 is not None))
    s.check('nsimu', o.nsimu == ns and isinstance(o.nsimu, int))
    s.check('adascale', o.adascale == kw.get('adascale'))
    if kw.get('printint') is not None:
        s.check('printint-kept', o.printint == kw['printint'])


options.weight = .4
SCENARIOS = [simulation, refusals, options]
