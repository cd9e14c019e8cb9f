import os
import json
import copy
import numpy as np
from conc.sysrun import INF


def model(q, data):
    m, b = q[0], q[-1]
    return m * data.xdata[0] + b


def sos(q, data):
    return np.sum((data.ydata[0] - q[0] * data.xdata[0] - q[-1]) ** 2) + np.sum(q ** 2)


def setup(s, nsimu=4, **opt):
    from pymcmcstat.MCMC import MCMC
    r = s.r
    mc = MCMC()
    x = np.linspace(0, 1, 5).reshape(-1, 1)
    mc.data.add_data_set(x, 2 * x + 1)
    npar = r.choice([1, 2, 3, 4])
    par = []
    for i in range(npar):
        t0 = round(r.choice([r.gauss(0, 2), 1., -.5]), 2) or .3
        w = abs(t0) + 1
        p = dict(name='p%d' % i, theta0=t0, minimum=r.choice([-INF, t0 - w, t0 - .1]), maximum=r.choice([INF, t0 + w, t0 + .2]), sample=r.random() < .75,
                 prior_mu=r.choice([0., 1.]), prior_sigma=r.choice([INF, 2.]))
        par.append(p)
    if not any(p['sample'] for p in par):
        par[0]['sample'] = True
    for p in par:
        mc.parameters.add_model_parameter(**p)
    mc.model_settings.define_model_settings(sos_function=sos, N=5)
    mc.simulation_options.define_simulation_options(nsimu=nsimu, waitbar=False, verbosity=0, savedir=os.path.join(s.scratch(), 'par'), **opt)
    return mc, par


def standin(par):
    lo = np.array([p['minimum'] if p['minimum'] > -INF else p['theta0'] - 100 * abs(p['theta0']) for p in par])
    hi = np.array([p['maximum'] if p['maximum'] < INF else p['theta0'] + 100 * abs(p['theta0']) for p in par])
    return lo, hi


def users_values(s, par, m, extra=0):
    lo, hi = standin(par)
    a = s.np.rand(m, len(par)) * (hi - lo) + lo
    a = np.clip(a, lo, hi)
    if s.r.random() < .3:
        i, j = s.r.randrange(m), s.r.randrange(len(par))
        a[i, j] = s.r.choice([lo[j], hi[j]])         # exactly on a limit
    if extra:
        a = np.concatenate((a, s.np.randn(m, extra) * 1e4), axis=1)
    return a


def same_state(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind == 'f')
    if isinstance(a, dict):
        return list(a) == list(b) and all(same_state(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same_state(x, y) for x, y in zip(a, b))
    if hasattr(a, '__dict__') and not callable(a):
        return same_state(a.__dict__, b.__dict__)
    return a is b or a == b or (isinstance(a, float) and a != a and b != b)


def mutables(o, seen=None, path=''):
    seen = {} if seen is None else seen
    if id(o) in seen or callable(o):
        return seen
    if isinstance(o, np.ndarray):
        seen[id(o)] = (o, path)
        if o.base is not None:
            mutables(o.base, seen, path + '.base')
    elif isinstance(o, dict):
        seen[id(o)] = (o, path)
        for k, v in o.items():
            mutables(v, seen, path + '[%r]' % (k,))
    elif isinstance(o, (list, tuple)):
        if isinstance(o, list):
            seen[id(o)] = (o, path)
        for k, v in enumerate(o):
            mutables(v, seen, path + '[%d]' % k)
    elif hasattr(o, '__dict__'):
        seen[id(o)] = (o, path)
        mutables(o.__dict__, seen, path + '.')
    return seen


def separate_setups(s):
    from pymcmcstat.ParallelMCMC import ParallelMCMC
    r = s.r
    mc, par = setup(s, **r.choice([{}, dict(save_to_bin=True), dict(save_to_json=True), dict(save_to_txt=True, save_to_json=True)]))
    npar = len(par)
    num = r.choice([1, 2, 3, 5, 12])
    old, have = None, [False] * 12
    if r.random() < .4:
        old = os.path.join(s.scratch(), 'old')
        have = [r.random() < .6 for _ in range(12)]
        for i in range(12):
            os.makedirs(os.path.join(old, 'chain_%d' % i))
            if have[i]:
                open(os.path.join(old, 'chain_%d' % i, 'chain_%d.json' % i), 'w').write('{}')
        mc.simulation_options.json_restart_file = old
    given = r.random() < .5
    iv, want = None, None
    m = num
    if given:
        m = r.choice([num, num, 2, 4])
        extra = r.choice([0, 0, 1, 3])
        iv = users_values(s, par, m, extra)
        want = iv[:, :npar].copy()
    iv0 = None if iv is None else iv.copy()
    keep = {k: copy.deepcopy(getattr(mc, k)) for k in ('data', 'model_settings', 'parameters', 'simulation_options')}
    pm = ParallelMCMC()
    s.desc = dict(par=par, num=num, iv=iv0)
    pm.setup_parallel_simulation(mc, initial_values=iv, num_cores=2, num_chain=num)
    s.check('number-of-chains', pm.num_chain == m and len(pm.parmc) == m, (pm.num_chain, len(pm.parmc)))
    lo, hi = standin(par)
    V = np.array(pm.initial_values)
    s.check('one-row-per-chain', V.shape == (m, npar), V.shape)
    if given:
        s.same('users-values-used', V, want)
        s.same('users-array-unchanged', iv, iv0)
    else:
        for j, p in enumerate(par):
            if p['sample']:
                s.check('generated-within-limits', bool(np.all(V[:, j] >= lo[j]) and np.all(V[:, j] <= hi[j])), (V[:, j], lo[j], hi[j]))
            else:
                s.check('not-sampled-keep-declared-value', bool(np.all(V[:, j] == p['theta0'])), V[:, j])
    for k in ('data', 'model_settings', 'parameters'):
        s.check('original-set-up-unchanged', same_state(keep[k], getattr(mc, k)), k)
    o = pm.parmc
    for i in range(m):
        q = o[i]
        s.same('chain-starts-at-its-row', [p['theta0'] for p in q.parameters.parameters], V[i])
        for a, b in zip(q.parameters.parameters, keep['parameters'].parameters):
            s.check('declarations-copied', all(a[k] == b[k] or a[k] != a[k] for k in b if k != 'theta0') and set(a) == set(b), (a, b))
        s.check('data-copied', same_state(q.data, keep['data']))
        s.check('model-settings-copied', same_state(q.model_settings, keep['model_settings']))
        base = os.path.join(s.scratch(), 'par')
        s.check('own-directory', os.path.normpath(q.simulation_options.savedir) == os.path.join(base, 'chain_%d' % i), q.simulation_options.savedir)
        s.check('own-results-file', q.simulation_options.results_filename == 'chain_%d.json' % i)
        a, b = dict(q.simulation_options.__dict__), dict(keep['simulation_options'].__dict__)
        f = a.get('json_restart_file')
        s.check('restart-file-of-own-chain', f is None if not have[i] else f is not None and os.path.abspath(f) == os.path.join(os.path.abspath(old), 'chain_%d' % i, 'chain_%d.json' % i), (i, f))
        for k in ('savedir', 'results_filename', 'save_to_bin', 'save_to_json', 'json_restart_file'):
            a.pop(k), b.pop(k)
        s.check('options-copied', same_state(a, b), (a, b))
    groups = [mutables([getattr(x, k) for k in keep]) for x in o] + [mutables([getattr(mc, k) for k in keep])]
    for a in range(len(groups)):
        for b in range(a):
            sh = [groups[a][k][1] for k in groups[a] if k in groups[b]]
            if not s.check('nothing-shared-between-chains', not sh, sh[:3]):
                return


def refused_values(s):
    from pymcmcstat.ParallelMCMC import ParallelMCMC
    r = s.r
    mc, par = setup(s)
    m = r.choice([1, 2, 4])
    iv = users_values(s, par, m)
    lo, hi = standin(par)
    i, j = r.randrange(m), r.randrange(len(par))
    d = r.choice([1e-6, .5, 100.]) * (1 + abs(lo[j]) + abs(hi[j]))
    iv[i, j] = lo[j] - d if r.random() < .5 else hi[j] + d
    s.desc = dict(par=par, iv=iv)
    e = s.raises(lambda: ParallelMCMC().setup_parallel_simulation(mc, initial_values=iv, num_chain=m))
    s.check('values-outside-limits-refused', e is not None)
    iv2 = users_values(s, par, m)
    e = s.raises(lambda: ParallelMCMC().setup_parallel_simulation(mc, initial_values=iv2, num_chain=m))
    s.check('values-inside-limits-accepted', e is None, (e, iv2))


def ordered_results(s):
    from pymcmcstat.ParallelMCMC import ParallelMCMC, load_parallel_simulation_results
    from pymcmcstat.chain import ChainProcessing as CP
    r = s.r
    fmt = r.choice([dict(save_to_bin=True, save_to_json=True), dict(save_to_txt=True, save_to_json=True), dict(save_to_json=True)])
    names = r.choice([{}, dict(chainfile='pars', sschainfile='errs', s2chainfile='vars', covchainfile='covs')]) if len(fmt) == 2 else {}
    mc, par = setup(s, nsimu=r.choice([2, 5]), **dict(fmt, **names))
    num = r.choice([2, 3, 11])
    mc.simulation_options.updatesigma = r.random() < .5
    for p in mc.parameters.parameters:
        p['sample'] = True
    iv = users_values(s, par, num)
    pm = ParallelMCMC()
    pm.setup_parallel_simulation(mc, initial_values=iv, num_cores=r.choice([1, 2, 3]), num_chain=num)
    pm.run_parallel_simulation()
    for i in range(num):
        s.same('results-in-chain-order', pm.parmc[i].simulation_results.results['chain'][0], iv[i])
    ext = 'txt' if fmt.get('save_to_txt') else 'h5'
    for f in (load_parallel_simulation_results, CP.load_parallel_simulation_results) if (len(fmt) == 2) else (load_parallel_simulation_results,):
        L = f(os.path.join(s.scratch(), 'par'), extension=ext, **names)
        s.check('all-chains-loaded', len(L) == num, len(L))
        for i in range(min(num, len(L))):
            s.close('loaded-in-chain-order', L[i]['chain'], pm.parmc[i].simulation_results.results['chain'], rtol=1e-12, atol=0)
            for k in ('sschain', 's2chain'):
                w = pm.parmc[i].simulation_results.results[k]
                if w is not None:
                    s.close('loaded-in-chain-order', L[i][k], w, rtol=1e-12, atol=0)
            if len(fmt) == 2:
                s.check('covariance-log-loaded', 'covchain' in L[i] and len(L[i]['covchain']) > 0, list(L[i]))
            s.close('loaded-summary-in-chain-order', L[i]['theta'], pm.parmc[i].simulation_results.results['theta'], rtol=1e-12, atol=0)


ordered_results.runs = 12
ordered_results.minruns = 6


def restart_files(s):
    from pymcmcstat import ParallelMCMC as PM
    d = s.scratch()
    n = s.r.choice([2, 3, 11])
    have = [s.r.random() < .6 for _ in range(n)]
    for i in range(n):
        os.makedirs(os.path.join(d, 'old', 'chain_%d' % i))
        if have[i]:
            open(os.path.join(d, 'old', 'chain_%d' % i, 'chain_%d.json' % i), 'w').write('{}')
    for i in range(n):
        f = PM.check_for_restart_file(os.path.join(d, 'old'), 'chain_%d' % i)
        s.check('restart-file-of-own-chain', (f is None) if not have[i] else (f is not None and os.path.samefile(f, os.path.join(d, 'old', 'chain_%d' % i, 'chain_%d.json' % i))), f)
    s.check('no-restart-file-requested', PM.check_for_restart_file(None, 'chain_0') is None)


restart_files.runs = 30
SCENARIOS = [separate_setups, refused_values, ordered_results, restart_files]
