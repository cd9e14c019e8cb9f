"""Shared pieces of the contracts."""
INF = float('inf')
MP = 'pymcmcstat.settings.ModelParameters:ModelParameters'
PS = 'pymcmcstat.structures.ParameterSet:ParameterSet'
MET = 'pymcmcstat.samplers.Metropolis:Metropolis'
DR = 'pymcmcstat.samplers.DelayedRejection:'
SU = 'pymcmcstat.samplers.utilities:'


def parameters(S, p, n, lov=(-INF, -INF, -40., -3., 0.), hiv=(INF, INF, 40., 3., 0.)):
    """declared parameters: n in total, p sampled (positions parind, increasing)"""
    lo = S.arr('lower', (n,), ext=True, cvals=list(lov))
    hi = S.arr('upper', (n,), ext=True, cvals=list(hiv))
    parind = S.arr('parind', (p,), dtype='i', lo=0, hi=n - 1)
    return S.obj(MP, npar=p, _lower_limits=lo, _upper_limits=hi, _parind=parind), lo, hi, parind


def inside(S, theta, lo, hi, parind, p):
    """formula (for index i): component i within its limits"""
    return lambda i: S.and_(S.item(lo, S.item(parind, i)) <= S.item(theta, i), S.item(theta, i) <= S.item(hi, S.item(parind, i)))


def pset(S, tag, p, m, ext=False):
    """a parameter set with finite values"""
    return S.obj(PS, theta=S.arr(tag + 'theta', (p,)), ss=S.arr(tag + 'ss', (m,), lo=0), prior=S.real(tag + 'prior', lo=0),
                 sigma2=S.arr(tag + 's2', (m,), pos=True), alpha=None)


def targets(S, m, ext=True):
    """arbitrary user functions: prior and sum-of-squares depend on the point only; every call is recorded"""
    def prior(S, theta):
        S.event('prior', S.snap(theta))
        return S.ufun('prior', [theta], None, ext)

    def sos(S, theta, custom=None):
        S.event('sos', S.snap(theta), custom)
        return S.ufun('sos', [theta], m, ext)
    return S.obj(None, evaluate_prior=S.fn(prior)), S.obj(None, evaluate_sos_function=S.fn(sos))


class Q:
    pass


def metropolis(S):
    """one Metropolis step from an arbitrary state"""
    q = Q()
    n, q.m = S.int('n', 1), S.int('m', 1)
    q.p = S.int('p', 1, n)
    q.par, q.lo, q.hi, q.ind = parameters(S, q.p, n)
    q.old = pset(S, 'old', q.p, q.m)
    q.ot, q.oss, q.opr, q.os2 = S.snap(S.get(q.old, 'theta')), S.snap(S.get(q.old, 'ss')), S.get(q.old, 'prior'), S.snap(S.get(q.old, 'sigma2'))
    q.R = S.arr('R', (q.p, q.p))
    prior, sos = targets(S, q.m)
    q.accept, q.new, q.outbound, q.u = S.method(S.new(MET), 'run_metropolis_step', q.old, q.par, q.R, prior, sos)
    return q


def dr_driver(S, ntry):
    """delayed rejection after a rejected first try; alphafun is used through its contract (a value in [0,1] for the path)"""
    q = Q()
    n, q.m = S.int('n', 1), S.int('m', 1)
    q.p = S.int('p', 1, n)
    q.par, q.lo, q.hi, q.ind = parameters(S, q.p, n)
    q.old, q.new = pset(S, 'old', q.p, q.m), pset(S, 'new', q.p, q.m)
    q.ot = S.snap(S.get(q.old, 'theta'))
    q.RDR = [S.arr('R%d' % k, (q.p, q.p)) for k in range(ntry)]
    invR = [S.arr('invR%d' % k, (q.p, q.p)) for k in range(ntry)]
    prior, sos = targets(S, q.m)
    q.custom = S.obj(None)
    q.paths, q.alphas = [], []

    def summ(S, env):
        t = env['trypath']
        k = S.len(t).__index__()
        q.paths.append([S.item(t, i) for i in range(k)])
        a = S.real('alpha%d' % len(q.paths), lo=0, hi=1)
        q.alphas.append(a)
        return S.mk((1,), lambda i: a)
    S.summary(DR + 'DelayedRejection.alphafun', summ)
    q.iacce = S.arr('iacce', (ntry,), dtype='i', lo=0, hi=50)
    q.iacce0 = S.snap(q.iacce)
    dr = S.obj(DR + 'DelayedRejection', iacce=q.iacce, dr_step_counter=0)
    if not S.sym:
        import copy
        orig = type(dr).alphafun
        depth = [0]

        def alphafun(trypath, invR):
            depth[0] += 1
            try:
                r = orig(dr, trypath, invR)
            finally:
                depth[0] -= 1
            if depth[0] == 0:
                q.paths.append(list(trypath))
                q.alphas.append(S.vec(r, 0))
            return r
        dr.alphafun = alphafun
    q.dr = dr
    q.accept, q.out, q.outbound = S.method(dr, 'run_delayed_rejection', q.old, q.new, S.list(q.RDR), ntry, q.par, S.list(invR), sos, prior, q.custom)
    return q


MC = 'pymcmcstat.MCMC:MCMC'
EV = 'pymcmcstat.procedures.ErrorVarianceEstimator:ErrorVarianceEstimator'
AD = 'pymcmcstat.samplers.Adaptation:Adaptation'


def files(S, q, log, us, names):
    """ghost files: number of rows written so far; what is appended must be the next rows of the chain"""
    CPM = 'pymcmcstat.chain.ChainProcessing:'
    first = q.off + 1 if S.get(q.mc, '_MCMC__continued') else 0
    kinds = dict(c=(q.TH, q.G, q.p), s=(q.SS, q.G, q.m))
    if us:
        kinds['v'] = (q.S2, q.V, q.m)
    exts = ['h5', 'txt'] if log == 'both' else [log]
    names += ['%s_%s' % (a, e) for a in sorted(kinds) for e in exts] + ['log_' + e for e in exts]
    q.files = S.obj(None, **{nm: first for nm in names})

    def append(S, file, mtx, name=None):
        f = S.text(file)
        base, ext = f.rsplit('/', 1)[-1].rsplit('.', 1)
        S.ensure('written-inside-the-log-directory', f.startswith('d/'))
        S.ensure('only-formats-asked-for', ext in exts and (name is None) == (ext == 'txt'))
        if base not in kinds:
            S.ensure('known-files-only', base == 'k')
            return None
        F, ids, w = kinds[base]
        nm = base + '_' + ext
        nx = S.get(q.files, nm)
        k, ww = S.shape(mtx)
        S.ensure('block-not-empty', k >= 1)
        S.ensure('block-within-the-chain', S.and_(nx + k <= S.get(q.g, 'row') + 1, S.eq(ww, w)))
        S.ensure_forall('block-continues-the-file', (k, w), lambda r, i: S.eq(S.item(mtx, r, i), F(S.item(ids, nx + r), i)))
        if name is not None:
            ints = S.text_ints(name)
            S.ensure('block-name-carries-two-numbers', len(ints) == 2)
            S.ensure('block-name-carries-its-rows', S.and_(S.eq(ints[0], nx), S.eq(ints[1], nx + k - 1)))
        S.put(q.files, nm, nx + k)

    def logline(S, env):
        f = S.text(env['filename'])
        ext = [e for e in exts if f == 'd/%slogfile.txt' % ('bin' if e == 'h5' else 'txt')]
        S.ensure('log-file-of-a-format-asked-for', len(ext) == 1)
        ints = S.text_ints(env['logstr'])
        S.ensure('log-line-carries-two-numbers', len(ints) == 2)
        nx = S.get(q.files, 'log_' + ext[0])
        S.ensure('log-line-continues-the-log', S.and_(S.eq(ints[0], nx), ints[1] >= nx))
        S.put(q.files, 'log_' + ext[0], ints[1] + 1)
    S.summary(CPM + '_save_to_bin_file', lambda S, env: append(S, env['filename'], env['mtx'], env['datasetname']))
    S.summary(CPM + '_save_to_txt_file', lambda S, env: append(S, env['filename'], env['mtx']))
    S.summary(CPM + '_add_to_log', logline)
    S.summary(CPM + '_check_directory', lambda S, env: None)


def sampled(S, n):
    """p sampled positions among n, increasing"""
    p = S.int('p', 1, n)
    ind = S.arr('parind', (p,), dtype='i', lo=0, hi=n - 1)
    S.assume_forall((p, p), lambda i, j: S.implies(i < j, S.item(ind, i) < S.item(ind, j)))
    S.index_vector(ind)
    return p, ind


def start(S, real=(), wide=False):
    """a set-up ready for _initialize_simulation; the checks named in `real` are the code's own, the others belong to other contracts.
    wide: limits and prior widths of any value"""
    n, m = S.int('n', 1), S.int('m', 1, cmax=3)
    p, ind = sampled(S, n)
    iv, mu = S.arr('iv', (n,), cvals=[0., 1., -1., 3., 50., -50.]) if wide else S.arr('iv', (n,)), S.arr('mu', (n,))
    sg = S.arr('sg', (n,), ext=True, cvals=[INF, .5, 2., 0., -1., -INF]) if wide else S.arr('sg', (n,), pos=True)
    if wide:
        lo, hi = S.arr('lo', (n,), ext=True, cvals=[-INF, -INF, -100., -3., 0.]), S.arr('hi', (n,), ext=True, cvals=[INF, INF, 100., 3., 0.])
    else:
        lo, hi = S.arr('lo', (n,), cvals=[-100.]), S.arr('hi', (n,), cvals=[100.])
    seen, pr = [], []
    iv0, sg0 = S.snap(iv), S.snap(sg)
    par = S.obj(MP, npar=p, _parind=ind, _initial_value=iv, _value=S.snap(iv), _thetamu=mu, _thetasigma=sg, _lower_limits=lo, _upper_limits=hi,
                _no_adapt=S.arr('na', (p,), dtype='b'), _local=S.arr('loc', (n,), lo=0, hi=0), _names=S.symlist(n, lambda i: 'x'))
    for f in ('_openparameterstructure', '_check_parameter_limits', '_check_initial_values_wrt_parameter_limits', '_check_prior_sigma', 'display_parameter_settings'):
        if f not in real:
            S.stub(par, f, MP + '.' + f)
    SO, MS, CP = 'pymcmcstat.settings.SimulationOptions:SimulationOptions', 'pymcmcstat.settings.ModelSettings:ModelSettings', 'pymcmcstat.procedures.CovarianceProcedures:CovarianceProcedures'
    opt = S.obj(SO, ntry=1, verbosity=0)
    S.stub(opt, '_check_dependent_simulation_options', SO + '._check_dependent_simulation_options')

    def sos(S, q, data, custom=None):
        seen.append(S.snap(q))
        return S.ufun('ss', [q], m)

    def prior(S, theta, mu, sigma):
        pr.append((S.snap(theta), S.snap(mu), S.snap(sigma)))
        return S.ufun('prior', [theta])
    s2 = S.arr('sigma2', (m,), pos=True)
    model = S.obj(MS, sos_function=S.fn(sos), model_function=None, prior_function=S.fn(prior), nbatch=1, sigma2=s2)
    S.stub(model, '_check_dependent_model_settings', MS + '._check_dependent_model_settings')
    S.stub(model, '_check_dependent_model_settings_wrt_nsos', MS + '._check_dependent_model_settings_wrt_nsos')
    cov = S.obj(CP)
    S.stub(cov, '_initialize_covariance_settings', CP + '._initialize_covariance_settings')
    S.stub(cov, '_update_covariance_settings', CP + '._update_covariance_settings')
    mc = S.obj(MC, parameters=par, simulation_options=opt, model_settings=model, _covariance=cov, data=S.obj(None), custom_samplers=S.list([]))
    q = Q()
    q.__dict__.update(n=n, m=m, p=p, ind=ind, mc=mc, iv0=iv0, mu=mu, sg0=sg0, lo=lo, hi=hi, seen=seen, pr=pr, s2=s2)
    return q


def simulator(S, us, ntry, continued=False, log=None, adapt=None):
    """the simulation loop, for any number of steps; every step function is used through its contract"""
    q = Q()
    n, p, m = q.n, q.p, q.m = S.int('nsimu', 1), S.int('p', 1), S.int('m', 1)
    N = S.int('nall', p)
    TH, SS, PR, S2 = q.TH, q.SS, q.PR, q.S2 = S.gfun('theta', 2), S.gfun('ss', 2), S.gfun('prior', 1), S.gfun('s2', 2)
    id0, v0 = S.int('id0'), S.int('v0')
    off = q.off = S.int('off', 0) if continued else 0      # row the continued run starts from (0: fresh run)
    rows = q.rows = off + n if continued else n             # continued runs append nsimu - 1 rows to off + 1 existing ones
    if continued:
        rows = q.rows = off + n
        H, HV = S.gfun('hist', 1, 'I'), S.gfun('vhist', 1, 'I')
        S.assume(S.and_(S.eq(H(off), id0), S.eq(HV(off), v0)))
    else:
        H, HV = lambda r: id0, lambda r: v0
    vec = lambda f, k, ln: S.mk((ln,), lambda i: f(k, i))
    sigma2 = vec(S2, v0, m)
    init = S.obj(PS, theta=vec(TH, id0, p), ss=vec(SS, id0, m), prior=PR(id0), sigma2=sigma2, alpha=None)
    q.H, q.HV = H, HV
    G, V = q.G, q.V = S.mk((rows,), H, 'i'), S.mk((rows,), HV, 'i')
    g = q.g = S.obj(None, row=off, cur=id0, rej=0, out=0, s2=v0)
    q.ind = S.arr('parind', (p,), dtype='i', lo=0, hi=N - 1)
    S.assume_forall((p, p), lambda i, j: S.implies(i < j, S.item(q.ind, i) < S.item(q.ind, j)))
    q.par = S.obj(MP, npar=p, _parind=q.ind, _value=S.arr('value', (N,)))
    opt = q.opt = S.obj('pymcmcstat.settings.SimulationOptions:SimulationOptions', nsimu=n, waitbar=False, verbosity=0, ntry=ntry, printint=0,
                        adaptint=S.int('adaptint', 0), lastadapt=S.int('lastadapt', 1), updatesigma=us, savesize=S.int('savesize', 1, n), save_to_bin=log in ('h5', 'both'), save_to_txt=log in ('txt', 'both'), savedir='d',
                        chainfile='c', sschainfile='s', s2chainfile='v', covchainfile='k')
    model = S.obj(None, sigma2=sigma2)
    prior, sos = S.obj(None), S.obj(None)
    cov = S.obj('pymcmcstat.procedures.CovarianceProcedures:CovarianceProcedures', _R=S.arr('R', (p, p)), _RDR=None, _invR=None)
    if adapt:
        RM, r0 = S.gfun('proposal', 3), S.int('r0')
        S.put(cov, '_R', S.mk((p, p), lambda i, j: RM(r0, i, j)))
        S.put(g, 'prop', r0)
    if adapt == 'custom':
        S.put(g, 'custom', S.int('custom0'))

    def candidate(S, acc, out, old):
        """outcome of step g.row: identity of the new state"""
        k = S.fresh_int('cand')
        S.put(g, 'pend', k)
        return S.obj(PS, theta=vec(TH, k, p), ss=vec(SS, k, m), prior=PR(k), sigma2=S.get(old, 'sigma2'), alpha=0)

    def settle(S, acc, out, k):
        cur = S.ite(S.truthy(acc), k, S.get(g, 'prev'))
        S.put(g, 'cur', cur)
        S.setitem(G, S.get(g, 'row'), cur)
        S.put(g, 'rej', S.get(g, 'rej0') + S.ite(S.truthy(acc), 0, 1))
        S.put(g, 'out', S.get(g, 'out0') + S.ite(S.and_(S.not_(S.truthy(acc)), S.truthy(out)), 1, 0))

    def check_old(S, old, where):
        S.ensure_forall(where + '-starts-from-current-point', (p,), lambda i: S.eq(S.item(S.get(old, 'theta'), i), TH(S.get(g, 'prev'), i)))
        S.ensure_forall(where + '-uses-its-sum-of-squares', (m,), lambda j: S.eq(S.item(S.get(old, 'ss'), j), SS(S.get(g, 'prev'), j)))
        S.ensure(where + '-uses-its-prior', S.eq(S.get(old, 'prior'), PR(S.get(g, 'prev'))))
        S.ensure_forall(where + '-uses-latest-error-variance', (m,), lambda j: S.eq(S.item(S.get(old, 'sigma2'), j), S2(S.get(g, 's2'), j)))

    def met(S, env):
        S.put(g, 'prev', S.get(g, 'cur'))
        S.put(g, 'row', S.get(g, 'row') + 1)
        S.put(g, 'rej0', S.get(g, 'rej'))
        S.put(g, 'out0', S.get(g, 'out'))
        check_old(S, env['old_set'], 'step')
        if adapt == 'custom':
            S.ensure('one-output-per-custom-sampler', S.eq(S.len(env['custom']), 1))
            S.ensure('step-uses-the-latest-custom-output', S.eq(S.item(env['custom'], 0), S.get(g, 'custom')))
        if adapt == 'matrix':
            S.ensure_forall('step-uses-the-latest-proposal-matrix', (p, p), lambda i, j: S.eq(S.item(env['R'], i, j), RM(S.get(g, 'prop'), i, j)))
        acc, out = S.fresh_bool('acc'), S.fresh_bool('out')
        new = candidate(S, acc, out, env['old_set'])
        settle(S, acc, out, S.get(g, 'pend'))
        return (acc, new, out, S.mk((1, p), lambda a, i: 0))

    def custom_update(S, accept, isimu, current_set):
        S.ensure('custom-sampler-told-the-step', S.eq(isimu, S.get(g, 'row') - off))
        S.ensure_forall('custom-sampler-told-the-current-point', (p,), lambda i: S.eq(S.item(S.get(current_set, 'theta'), i), TH(S.get(g, 'cur'), i)))
        S.ensure_forall('custom-sampler-told-the-latest-variance', (m,), lambda j: S.eq(S.item(S.get(current_set, 'sigma2'), j), S2(S.get(g, 's2'), j)))
        k = S.fresh_int('custom')
        S.put(g, 'custom', k)
        return k

    def dr(S, env):
        check_old(S, env['old_set'], 'delayed-rejection')
        if adapt == 'custom':
            S.ensure('delayed-rejection-uses-the-latest-custom-output', S.eq(S.item(env['custom'], 0), S.get(g, 'custom')))
        acc, out = S.fresh_bool('acc2'), S.fresh_bool('out2')
        new = candidate(S, acc, out, env['old_set'])
        settle(S, acc, out, S.get(g, 'pend'))
        return (acc, new, out)

    def s2(S, env):
        S.ensure_forall('variance-drawn-from-current-sum-of-squares', (m,), lambda j: S.eq(S.item(env['sos'], j), SS(S.get(g, 'cur'), j)))
        k = S.fresh_int('var')
        S.put(g, 's2', k)
        S.setitem(V, S.get(g, 'row'), k)
        a = S.get(env['model'], 'sigma2')
        S.assign(a, lambda j: S2(k, j))
        return a

    S.summary(MET + '.run_metropolis_step', met)
    S.summary(DR + 'DelayedRejection.run_delayed_rejection', dr)
    S.summary(EV + '.update_error_variance', s2)

    def adaptation(S, env):
        if not adapt:
            return env['covariance']
        row = S.get(g, 'row')
        if adapt == 'due':
            S.ensure('never-adapts-without-an-adaptation-interval', S.get(opt, 'adaptint') > 0)
            S.ensure('no-adaptation-after-the-last-adaptation-step', row - off <= S.get(opt, 'lastadapt'))
        if adapt == 'rows':
            S.ensure('adaptation-sees-the-current-row-number', S.eq(env['chainind'], row))
            S.ensure('adaptation-sees-the-current-step', S.eq(env['isimu'], row - off))
            S.ensure('adaptation-gets-the-number-of-sampled-parameters', S.eq(env['npar'], p))
            S.ensure_forall('adaptation-sees-the-history', (rows, p), lambda r, i: S.implies(r <= row, S.eq(S.item(env['chain'], r, i), TH(S.item(G, r), i))))
        k = S.fresh_int('prop')
        S.put(g, 'prop', k)
        S.put(env['covariance'], '_R', S.mk((p, p), lambda i, j: RM(k, i, j)))
        return env['covariance']
    S.summary(AD + '.run_adaptation', adaptation)
    sm = S.obj(None, metropolis=S.obj(MET), delayed_rejection=S.obj(DR + 'DelayedRejection'), adaptation=S.obj(AD))
    old = (lambda r, x: S.ite(r <= off, x, 0)) if continued else (lambda r, x: S.ite(S.eq(r, 0), x, 0))
    chain = S.mk((rows, p), lambda r, i: old(r, TH(H(r), i)))
    ss = S.mk((rows, m), lambda r, j: old(r, SS(H(r), j)))
    s2c = S.mk((rows, m), lambda r, j: old(r, S2(HV(r), j))) if us else None
    blocks = [S.dict(dict(file='c', mtx=chain)), S.dict(dict(file='s', mtx=ss))] + ([S.dict(dict(file='v', mtx=s2c))] if us else [])
    q.mc = S.obj(MC, simulation_options=opt, parameters=q.par, model_settings=model, custom_samplers=S.list([S.obj(None, update=S.fn(custom_update))] if adapt == 'custom' else []), custom_sampler_output=S.list([S.get(g, 'custom')] if adapt == 'custom' else []),
                 _sampling_methods=sm, _covariance=cov, _error_variance=S.obj(EV), _MCMC__chain_index=off, _MCMC__continued=continued, _MCMC__initial_set=init,
                 _MCMC__sos_object=sos, _MCMC__prior_object=prior, _MCMC__chain=chain, _MCMC__sschain=ss, _MCMC__s2chain=s2c, _MCMC__chains=S.list(blocks if log else []))
    names = []
    if log:
        files(S, q, log, us, names)

    def inv(S, env, k):
        o = S.get(env['self'], '_MCMC__old_set')
        cur = S.get(g, 'cur')
        return [((), lambda: S.eq(S.get(env['self'], '_MCMC__chain_index'), off + k)),
                ((), lambda: S.eq(S.get(g, 'row'), off + k)),
                ((p,), lambda i: S.eq(S.item(S.get(o, 'theta'), i), TH(cur, i))),
                ((m,), lambda j: S.eq(S.item(S.get(o, 'ss'), j), SS(cur, j))),
                ((), lambda: S.eq(S.get(o, 'prior'), PR(cur))),
                ((m,), lambda j: S.eq(S.item(S.get(o, 'sigma2'), j), S2(S.get(g, 's2'), j))),
                ((), lambda: S.eq(S.item(S.get(env['self'], '_MCMC__rejected'), 'total'), S.get(g, 'rej'))),
                ((), lambda: S.eq(S.item(S.get(env['self'], '_MCMC__rejected'), 'outside_bounds'), S.get(g, 'out'))),
                ((rows, p), lambda r, i: S.implies(r <= off + k, S.eq(S.item(S.get(env['self'], '_MCMC__chain'), r, i), TH(S.item(G, r), i)))),
                ((rows, m), lambda r, j: S.implies(r <= off + k, S.eq(S.item(S.get(env['self'], '_MCMC__sschain'), r, j), SS(S.item(G, r), j)))),
                ((), lambda: S.eq(S.item(G, off + k), cur))] + (
                    [((rows, m), lambda r, j: S.implies(r <= off + k, S.eq(S.item(S.get(env['self'], '_MCMC__s2chain'), r, j), S2(S.item(V, r), j))))] if us else [])
    if continued:
        inv0 = inv
        inv = lambda S, env, k: inv0(S, env, k) + [((rows,), lambda r: S.implies(r <= off, S.eq(S.item(G, r), H(r)))), ((rows,), lambda r: S.implies(r <= off, S.eq(S.item(V, r), HV(r))))]
    if adapt == 'custom':
        inv2 = inv
        out = lambda env: S.get(env['self'], 'custom_sampler_output')
        inv = lambda S, env, k: inv2(S, env, k) + [((), lambda: S.eq(S.len(out(env)), 1)), ((), lambda: S.eq(S.item(out(env), 0), S.get(g, 'custom')))]
    if adapt:
        inv1 = inv
        inv = lambda S, env, k: inv1(S, env, k) + [((p, p), lambda i, j: S.eq(S.item(S.get(S.get(env['self'], '_covariance'), '_R'), i, j), RM(S.get(g, 'prop'), i, j)))]
    S.loop_inv('state', inv)
    if log:
        picks = {}

        def mkinv(t):
            def linv(S, env, k):
                if t not in picks:
                    sc = [a for a, v in S.kinds(env)[0]]
                    sc = [a for a in sc if any(S.ident(env[a], S.num(x)) for x in (0, -1)) or S.ident(env[a], off + 1)]       # values the two can start from
                    pairs = [(a, b) for a in ['savecount'] + sc for b in ['lastbin'] + sc if a in env and b in env and a != b]
                    pairs = [x for y, x in enumerate(pairs) if x not in pairs[:y]]
                    picks[t] = pairs[t] if t < len(pairs) else None
                if picks[t] is None or any(x[0].startswith('log') and x[1] == 'kept' and not x[0].startswith('log%d.' % t) for x in S.it.inv_log):
                    return None
                c, b = (env[x] for x in picks[t])
                return [((), lambda: c < S.get(opt, 'savesize')), ((), lambda: S.eq(off + k - b, c)), ((), lambda: S.and_(0 <= b, -1 <= c))] + [
                    ((), lambda nm=nm: S.eq(S.get(q.files, nm), b)) for nm in names]
            return linv
        for t in range(21):
            S.loop_inv('log%d' % t, mkinv(t))
    S.it.check_bodies = S.it.hoare = True
    S.method(q.mc, '_MCMC__execute_simulator')
    return q
