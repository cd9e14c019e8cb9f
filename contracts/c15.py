"""C15 - the results summary agrees with the chains and settings."""
from .common import MC, MP
from .c05 import sampled
RS = 'pymcmcstat.structures.ResultsStructure:ResultsStructure'
CP = 'pymcmcstat.procedures.CovarianceProcedures:CovarianceProcedures'
SO = 'pymcmcstat.settings.SimulationOptions:SimulationOptions'
MS = 'pymcmcstat.settings.ModelSettings:ModelSettings'
DR = 'pymcmcstat.samplers.DelayedRejection:DelayedRejection'


def setting(S):
    n, N = S.int('n', 1), S.int('nsimu', 1)
    p, ind = sampled(S, n)
    lo, hi, R = S.arr('lo', (n,)), S.arr('hi', (n,)), S.arr('R', (p, p))
    par = S.obj(MP, _parind=ind, _local=S.mk((n,), lambda i: 0, 'i'), _names=S.symlist(n, lambda i: S.label(i)), _lower_limits=lo, _upper_limits=hi, _value=S.arr('value', (n,)),
                _thetamu=S.arr('mu', (n,)), _thetasigma=S.arr('sg', (n,)))
    full = S.arr('full', (n, n))
    cov = S.obj(CP, _R=R, _covchain=S.arr('cc', (p, p)), _meanchain=S.arr('mc', (p,)), _qcov_scale=S.real('qs', pos=True), _qcovorig=full, _qcov_original=S.snap(full), _RDR=None)
    return n, N, p, ind, par, cov, lo, hi, R, full


def basic(S):
    n, N, p, ind, par, cov, lo, hi, R, full = setting(S)
    full0, R0 = S.snap(full), S.snap(R)
    tot, out = S.int('total', 0, N), S.int('outside', 0)
    th = S.arr('theta', (n,))
    o = S.new(RS)
    S.method(o, 'add_basic', nsimu=N, covariance=cov, parameters=par, rejected=S.dict(dict(total=tot, outside_bounds=out)), simutime=1, theta=th)
    r = lambda k: S.item(S.get(o, 'results'), k)
    gram = lambda i, j: S.sum(p, lambda k: S.item(R0, k, i) * S.item(R0, k, j))
    S.ensure_forall('final-parameter-vector', (n,), lambda i: S.eq(S.item(r('theta'), i), S.item(th, i)))
    S.ensure('rejection-rates', S.and_(S.eq(r('total_rejected') * N, tot), S.eq(r('rejected_outside_bounds') * N, out)))
    S.ensure('run-length', S.eq(r('nsimu'), N))
    S.ensure_forall('proposal-covariance-is-RtR', (p, p), lambda i, j: S.eq(S.item(r('qcov'), i, j), gram(i, j)))
    S.ensure_forall('proposal-factor', (p, p), lambda i, j: S.eq(S.item(r('R'), i, j), S.item(R0, i, j)))
    S.ensure_forall('full-covariance-at-sampled-positions', (p, p), lambda i, j: S.eq(S.item(r('qcovorig'), S.item(ind, i), S.item(ind, j)), gram(i, j)))
    S.ensure_forall('full-covariance-elsewhere', (n, n), lambda i, j: S.or_(S.and_(S.member(ind, i), S.member(ind, j)), S.eq(S.item(r('qcovorig'), i, j), S.item(full0, i, j))))
    S.ensure_forall('limits-of-sampled-parameters', (p,), lambda i: S.and_(S.eq(S.item(S.item(r('limits'), 0), i), S.item(lo, S.item(ind, i))), S.eq(S.item(S.item(r('limits'), 1), i), S.item(hi, S.item(ind, i)))))
    S.ensure('one-name-per-sampled-parameter', S.eq(S.len(r('names')), p))
    S.ensure_forall('names-of-sampled-parameters', (p,), lambda i: S.name_is(S.item(r('names'), i), S.item(ind, i)))
    S.ensure_forall('all-names', (n,), lambda i: S.name_is(S.item(r('allnames'), i), i))
    S.ensure_forall('adaptation-mean-and-covariance', (p, p), lambda i, j: S.and_(S.eq(S.item(r('cov'), i, j), S.item(S.get(cov, '_covchain'), i, j)), S.eq(S.item(r('mean'), i), S.item(S.get(cov, '_meanchain'), i))))


def stages(S):
    """per-stage counts add up to the number of simulations that were not rejected"""
    k, N = S.int('ntry', 2), S.int('nsimu', 1)
    it = S.arr('iacce', (k,), dtype='i', lo=0, hi=9)
    it0 = S.snap(it)
    tot = S.int('total', 0)
    o = S.obj(RS, results=S.dict(dict(nsimu=N)), basic=True)
    S.method(o, 'add_dram', drscale=S.arr('ds', (k - 1,)), RDR=None, total_rejected=tot, drsettings=S.obj(DR, iacce=it, dr_step_counter=3))
    v = S.item(S.get(o, 'results'), 'iacce')
    S.ensure('one-count-per-stage', S.eq(S.len(v), k))
    S.ensure_forall('later-stages-keep-their-counts', (k - 1,), lambda i: S.eq(S.item(v, i + 1), S.item(it0, i + 1)))
    S.ensure('counts-sum-to-accepted-simulations', S.eq(S.item(v, 0) + S.sum(k - 1, lambda i: S.item(it0, i + 1)), N - tot))


def options_kept(S):
    n, N, p, ind, par, cov, lo, hi, R, full = setting(S)
    opt = S.obj(SO, nsimu=N, method='dram', adaptint=S.int('adaptint', 0), ntry=2, updatesigma=True, savesize=S.int('savesize', 1), qcov_adjust=S.real('qa'), burnintime=0, printint=3, verbosity=0,
                waitbar=False, drscale=None, debug=0, dodram=1, doram=0, maxmem=0, RDR=None, stats=0, initqcovn=None, maxiter=None, _SimulationOptions__options_set=True, skip=1)
    ms = S.obj(MS, sigma2=S.arr('s2', (2,)), N=S.arr('N', (2,), dtype='i', lo=1, hi=9), N0=S.arr('N0', (2,)), S20=S.arr('S20', (2,)), sos_function=None, prior_function=None, model_function=None,
               prior_update_function=None, prior_pars=None, nsos=2, nbatch=1, _default_N0=True, _declared_N=None)
    o = S.new(RS)
    S.method(o, 'add_options', options=opt)
    S.method(o, 'add_model', model=ms)
    mu, sg = S.arr('m_', (n,)), S.arr('s_', (n,))
    S.method(o, 'add_prior', mu=mu, sigma=sg, priortype=1)
    r = lambda k: S.item(S.get(o, 'results'), k)
    for k in ('nsimu', 'adaptint', 'savesize', 'qcov_adjust', 'ntry'):
        S.ensure('options-as-used', S.eq(S.item(r('simulation_options'), k), S.get(opt, k)))
    S.ensure('options-as-used', S.item(r('simulation_options'), 'method') == 'dram')
    for k in ('sigma2', 'N', 'N0', 'S20'):
        S.ensure_forall('model-settings-as-used', (2,), lambda i: S.eq(S.item(S.item(r('model_settings'), k), i), S.item(S.get(ms, k), i)))
    S.ensure_forall('priors-as-used', (n,), lambda i: S.and_(S.eq(S.item(S.item(r('prior'), 'mu'), i), S.item(mu, i)), S.eq(S.item(S.item(r('prior'), 'sigma'), i), S.item(sg, i))))
    S.ensure('settings-objects-untouched', S.has(opt, 'verbosity') and S.has(ms, 'prior_pars'))


def light(S):
    keys = ['chain', 's2chain', 'sschain', 'theta', 'qcov', 'names', 'covchain', 'prior']
    d = S.dict({k: i for i, k in enumerate(keys)})
    o = S.call('pymcmcstat.structures.ResultsStructure:lighten_results', d)
    for i, k in enumerate(keys):
        if i < 3:
            S.ensure('chains-dropped', not S.has(o, k))
        else:
            S.ensure('everything-else-kept', S.has(o, k) and S.valid(S.eq(S.item(o, k), i)))
        S.ensure('original-keeps-everything', S.has(d, k))


def wiring(ntry):
    def c(S):
        n, N, p, ind, par, cov, lo, hi, R, full = setting(S)
        opt = S.obj(SO, nsimu=N, ntry=ntry, drscale=None)
        ms = S.obj(MS, prior_type=1)
        ch, ss, s2 = S.arr('chain', (N, p)), S.arr('ss', (N, 1)), S.arr('s2c', (N, 1))
        rej = S.dict(dict(total=S.int('rej', 0), in_adaptation_interval=0, outside_bounds=0))
        rejn = S.item(rej, 'total')
        dr = S.obj(DR, iacce=S.arr('ia', (2,), dtype='i', lo=0, hi=9), dr_step_counter=0)
        ia1 = S.item(S.get(dr, 'iacce'), 1)
        mc = S.obj(MC, simulation_options=opt, model_settings=ms, parameters=par, _covariance=cov, _sampling_methods=S.obj(None, delayed_rejection=dr), _MCMC__rejected=rej, _MCMC__simulation_time=1,
                   _MCMC__chain=ch, _MCMC__s2chain=s2, _MCMC__sschain=ss)
        for k in ('add_options', 'add_model'):
            S.summary(RS + '.' + k, lambda S, env: None)
        S.method(mc, '_MCMC__generate_simulation_results')
        r = lambda k: S.item(S.get(S.get(mc, 'simulation_results'), 'results'), k)
        val = S.get(par, '_value')
        S.ensure_forall('final-parameter-vector', (n,), lambda i: S.eq(S.item(r('theta'), i), S.item(val, i)))
        for k, a, w in (('chain', ch, p), ('sschain', ss, 1), ('s2chain', s2, 1)):
            S.ensure_forall('chains-reported', (N, w), lambda t, i: S.eq(S.item(r(k), t, i), S.item(a, t, i)))
        S.ensure('rejection-rate', S.eq(r('total_rejected') * N, rejn))
        if ntry > 1:
            S.ensure('stage-counts', S.eq(S.item(r('iacce'), 0) + S.item(r('iacce'), 1), N - rejn))
            S.ensure('later-stage-count', S.eq(S.item(r('iacce'), 1), ia1))
        S.ensure_forall('priors-as-used', (n,), lambda i: S.and_(S.eq(S.item(S.item(r('prior'), 'mu'), i), S.item(S.get(par, '_thetamu'), i)), S.eq(S.item(S.item(r('prior'), 'sigma'), i), S.item(S.get(par, '_thetasigma'), i))))
    c.__name__ = 'summary_%dtry' % ntry
    c.symbolic_only = True
    return c


CONTRACTS = [basic, stages, options_kept, light, wiring(1), wiring(2)]
