"""C14 - a restarted simulation continues from where the previous one ended."""
from .common import simulator, MP, MC, INF
from .c05 import sampled
NAN = float('nan')
ASSUMPTIONS = ['C14: parameter names are distinct']


def rows(us):
    def c(S):
        q = simulator(S, us, 2, True)
        off, p, m = q.off, q.p, q.m
        ch = lambda a: S.get(q.mc, '_MCMC__' + a)
        S.ensure('chain-index-at-last-row', S.eq(ch('chain_index'), q.rows - 1))
        S.ensure_forall('earlier-rows-unchanged', (off + 1, p), lambda r, i: S.eq(S.item(ch('chain'), r, i), q.TH(q.H(r), i)))
        S.ensure_forall('earlier-sums-of-squares-unchanged', (off + 1, m), lambda r, j: S.eq(S.item(ch('sschain'), r, j), q.SS(q.H(r), j)))
        S.ensure_forall('new-rows-follow-the-steps-taken', (q.rows, p), lambda r, i: S.eq(S.item(ch('chain'), r, i), q.TH(S.item(q.G, r), i)))
        S.ensure_forall('new-sums-of-squares-belong-to-new-rows', (q.rows, m), lambda r, j: S.eq(S.item(ch('sschain'), r, j), q.SS(S.item(q.G, r), j)))
        if us:
            S.ensure_forall('earlier-variances-unchanged', (off + 1, m), lambda r, j: S.eq(S.item(ch('s2chain'), r, j), q.S2(q.HV(r), j)))
            S.ensure_forall('new-variances-are-the-draws', (q.rows, m), lambda r, j: S.eq(S.item(ch('s2chain'), r, j), q.S2(S.item(q.V, r), j)))
    c.__name__ = 'continued_%s' % ('s2' if us else 'fixed')
    c.symbolic_only = True
    c.cost = 6
    return c


def expand(us):
    def c(S):
        k, n, p, m = S.int('k', 1), S.int('nsimu', 1), S.int('p', 1), S.int('m', 1)
        ch, ss, s2 = S.arr('chain', (k, p)), S.arr('ss', (k, m)), S.arr('s2', (k, m))
        mc = S.obj(MC, simulation_options=S.obj(None, chainfile='c', sschainfile='s', s2chainfile='v'), _MCMC__chain=ch, _MCMC__sschain=ss, _MCMC__s2chain=s2 if us else None)
        old = [S.snap(x) for x in (ch, ss, s2)]
        S.method(mc, '_MCMC__expand_chains', nsimu=n, npar=p, nsos=m, updatesigma=us)
        S.ensure('variance-chain-only-when-sampled', us or S.get(mc, '_MCMC__s2chain') is None)
        for a, o, w in (('chain', old[0], p), ('sschain', old[1], m)) + ((('s2chain', old[2], m),) if us else ()):
            x = S.get(mc, '_MCMC__' + a)
            S.ensure('room-for-the-new-rows', S.and_(S.eq(S.shape(x)[0], k + n - 1), S.eq(S.shape(x)[1], w)))
            S.ensure_forall('earlier-rows-kept', (k, w), lambda r, i: S.eq(S.item(x, r, i), S.item(o, r, i)))
    c.__name__ = 'expand_chains_%s' % ('s2' if us else 'fixed')
    return c


def final_values(S):
    n = S.int('n', 1)
    p, ind = sampled(S, n)
    th0, lo, hi = S.arr('theta0', (n,)), S.arr('lo', (n,)), S.arr('hi', (n,))
    mu, sg = S.arr('mu', (n,), ext=True, nan=True, cvals=[0., 1., NAN]), S.arr('sg', (n,), ext=True, cvals=[INF, 1.])
    fin = S.arr('final', (n,))
    # a sampled parameter is one listed in the results
    par = S.records(n, dict(name=lambda i: S.label(i), theta0=th0, prior_mu=mu, minimum=lo, maximum=hi, prior_sigma=sg, sample=lambda i: S.pyb(S.member(ind, i)), local=lambda i: 0))
    o = S.obj(MP, parameters=par)
    res = S.dict(dict(parind=ind, names=S.symlist(p, lambda i: S.label(S.item(ind, i))), local=S.mk((n,), lambda i: 0, 'i'), theta=fin))
    fld = lambda j, k: S.item(S.item(S.get(o, 'parameters'), j), k)
    done = lambda j, k: S.and_(S.member(ind, j), S.rank(ind, j) < k)

    def inv(S, env, k):
        return [((n,), lambda j: S.eq(fld(j, 'theta0'), S.ite(done(j, k), S.item(fin, j), S.item(th0, j)))),
                ((n,), lambda j: S.eq(fld(j, 'prior_mu'), S.ite(S.and_(done(j, k), S.isnan(S.item(mu, j))), S.item(th0, j), S.item(mu, j))))]
    S.loop_inv('params', inv)
    pre = {}

    def inner(S, env, k):
        nm = S.labels(env)
        if len(nm) != 1:
            return None
        e = nm[0]
        if S.ident(k, 0):
            pre['t'], pre['m'] = S.field(S.get(o, 'parameters'), 'theta0'), S.field(S.get(o, 'parameters'), 'prior_mu')
        t, u = pre['t'], pre['m']
        hit = lambda j: S.and_(S.eq(j, e), j < k)
        return [((n,), lambda j: S.eq(fld(j, 'theta0'), S.ite(S.and_(hit(j), S.member(ind, j)), S.item(fin, j), S.item(t, j)))),
                ((n,), lambda j: S.eq(fld(j, 'prior_mu'), S.ite(S.and_(hit(j), S.isnan(S.item(u, j))), S.item(t, j), S.item(u, j))))]
    S.loop_inv('inner', inner)
    S.method(o, '_results_to_params', res, 1)
    S.ensure_forall('sampled-parameters-start-at-final-values', (p,), lambda i: S.eq(fld(S.item(ind, i), 'theta0'), S.item(fin, S.item(ind, i))))
    S.ensure_forall('other-parameters-keep-declared-values', (n,), lambda j: S.or_(S.member(ind, j), S.eq(fld(j, 'theta0'), S.item(th0, j))))
    S.ensure_forall('limits-and-widths-kept', (n,), lambda j: S.and_(S.eq(fld(j, 'minimum'), S.item(lo, j)), S.eq(fld(j, 'maximum'), S.item(hi, j)), S.eq(fld(j, 'prior_sigma'), S.item(sg, j))))
    S.ensure_forall('declared-prior-means-kept', (n,), lambda j: S.or_(S.isnan(S.item(mu, j)), S.eq(fld(j, 'prior_mu'), S.item(mu, j))))
    S.ensure_forall('unset-prior-mean-stays-at-the-declared-value', (n,), lambda j: S.or_(S.not_(S.isnan(S.item(mu, j))), S.isnan(fld(j, 'prior_mu')), S.eq(fld(j, 'prior_mu'), S.item(th0, j))))
    S.ensure_forall('unset-prior-mean-fixed-for-sampled-parameters', (p,), lambda i: S.not_(S.isnan(fld(S.item(ind, i), 'prior_mu'))))


def restart(how):
    def c(S):
        n = S.int('n', 1)
        q0, last = S.arr('final_qcov', (n, n)), S.int('last', 0)
        res = S.dict(dict(qcovorig=q0, qcov=S.arr('qcov_sampled', (1, 1)), theta=S.arr('theta', (n,))))
        calls = []
        opt = S.obj('pymcmcstat.settings.SimulationOptions:SimulationOptions', json_restart_file='r.json' if how == 'file' else None, qcov=S.arr('users_qcov', (n, n)), nsimu=S.int('nsimu', 1), updatesigma=False)
        mc = S.obj(MC, parameters=S.obj(MP, npar=n), simulation_options=opt, model_settings=S.obj(None, nsos=1, sigma2=1), _mcmc_status=how == 'memory',
                   simulation_results=S.obj(None, results=res), _MCMC__chain_index=last)
        note = lambda nm, val=lambda env: None: (lambda S, env: calls.append((nm, val(env))))
        S.summary('pymcmcstat.structures.ResultsStructure:ResultsStructure.load_json_object', lambda S, env: res)
        S.summary(MP + '._results_to_params', note('params', lambda env: env['results']))
        S.summary(MC + '._initialize_simulation', note('init', lambda env: (S.snap(S.get(S.get(env['self'], 'simulation_options'), 'qcov')), S.get(env['self'], '_MCMC__chain_index'))))
        S.summary(MC + '.__initialize_chains', note('fresh', lambda env: S.get(env['self'], '_MCMC__chain_index')))
        S.summary(MC + '.__expand_chains', note('expand', lambda env: env['nsimu']))
        r = S.tryrun(lambda: S.method(mc, '_MCMC__setup_simulator', use_previous_results=how in ('memory', 'none')))
        names = [x[0] for x in calls]
        if how == 'none':
            S.ensure('refused-without-previous-results', S.raised(r) and r.cls == 'SystemExit' and not calls)
            return
        S.ensure('set-up-completes', not S.raised(r))
        S.ensure('values-taken-over-before-the-set-up', names == ['params', 'init', 'expand' if how == 'memory' else 'fresh'])
        if len(calls) == 3:
            S.ensure('values-come-from-the-previous-results', S.same_obj(calls[0][1], res))
            if how == 'file':
                S.ensure_forall('proposal-covariance-is-the-final-one', (n, n), lambda i, j: S.eq(S.item(calls[1][1][0], i, j), S.item(q0, i, j)))
                S.ensure('starts-at-row-zero', S.eq(S.get(mc, '_MCMC__chain_index'), 0))
            else:
                S.ensure('continues-after-the-last-row', S.eq(S.get(mc, '_MCMC__chain_index'), last))
                S.ensure('room-for-the-requested-rows', S.eq(calls[2][1], S.get(opt, 'nsimu')))
    c.__name__ = 'restart_' + how
    c.symbolic_only = True
    return c


CONTRACTS = [restart('memory'), restart('file'), restart('none'), rows(False), rows(True), expand(False), expand(True), final_values]
