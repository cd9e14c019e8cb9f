"""C05 - only sampled parameters vary and the model sees the right vector."""
from .common import INF, MP, MC, simulator, sampled, start
SOS = 'pymcmcstat.procedures.SumOfSquares:SumOfSquares'
ASSUMPTIONS = ['C05: parameters declared local to a batch (documented as "still testing") are outside the claim; sampled positions are an increasing list of valid positions (established by open_parameters)']


def vector_seen(style):
    def c(S):
        n = S.int('n', 1)
        p, ind = sampled(S, n)
        val = S.arr('value', (n,))
        decl = S.snap(val)
        seen = []

        def sos(S, q, data, custom=None):
            seen.append(S.snap(q))
            return S.const_arr([S.ufun('ss', [q])])

        def model(S, x, q):
            seen.append(S.snap(q))
            return S.const_arr([[S.ufun('y', [q])]])
        D = S.obj(None, xdata=S.list([S.const_arr([[S.num(0)]])]), ydata=S.list([S.const_arr([[S.num(1)]])]), weight=S.list([1]))
        o = S.new(SOS, S.obj(None, sos_function=S.fn(sos) if style == 'sos' else None, model_function=S.fn(model), nbatch=1), D,
                  S.obj(MP, _parind=ind, _initial_value=val, _local=S.arr('loc', (n,), lo=0, hi=0), npar=p))
        th = [S.arr('theta%d' % k, (p,)) for k in range(3)]
        for t in th:
            S.method(o, 'evaluate_sos_function', t)
        S.ensure('one-evaluation-per-point', len(seen) == 3)
        for k in range(min(3, len(seen))):
            S.ensure('full-length-vector', S.eq(S.len(seen[k]), n))
            S.ensure_forall('sampled-entries-equal-the-point', (p,), lambda i: S.eq(S.item(seen[k], S.item(ind, i)), S.item(th[k], i)))
        for k in range(min(3, len(seen))):
            S.ensure_forall('other-entries-keep-declared-value', (n,), lambda j: S.or_(S.member(ind, j), S.eq(S.item(seen[k], j), S.item(decl, j))))
    c.__name__ = 'vector_seen_by_%s_function' % style
    return c


def open_parameters(S):
    n = S.int('n', 1)
    th, lo, hi = S.arr('theta0', (n,)), S.arr('minimum', (n,), ext=True, cvals=[-INF, -5.]), S.arr('maximum', (n,), ext=True, cvals=[INF, 5.])
    mu, sg = S.arr('mu', (n,), ext=True, nan=True, cvals=[0., 1., float('nan')]), S.arr('sg', (n,), ext=True, cvals=[INF, 1., 0.])
    sm, ad = S.arr('sample', (n,), dtype='b'), S.arr('adapt', (n,), dtype='b')
    rec = S.records(n, dict(name=lambda i: S.label(i), theta0=lambda i: S.item(th, i), minimum=lambda i: S.item(lo, i), maximum=lambda i: S.item(hi, i),
                            prior_mu=lambda i: S.item(mu, i), prior_sigma=lambda i: S.item(sg, i), sample=lambda i: S.pyb(S.item(sm, i)), local=lambda i: 0,
                            adapt=lambda i: S.pyb(S.item(ad, i))))
    o = S.obj(MP, parameters=rec)
    S.method(o, '_openparameterstructure', S.int('nbatch', 1, cmax=3))
    g = lambda a: S.get(o, a)
    S.ensure_forall('initial-values-in-declaration-order', (n,), lambda i: S.and_(S.eq(S.item(g('_initial_value'), i), S.item(th, i)), S.eq(S.item(g('_value'), i), S.item(th, i))))
    S.ensure_forall('limits-in-declaration-order', (n,), lambda i: S.and_(S.eq(S.item(g('_lower_limits'), i), S.item(lo, i)), S.eq(S.item(g('_upper_limits'), i), S.item(hi, i))))
    S.ensure_forall('prior-means-in-declaration-order', (n,), lambda i: S.eq(S.item(g('_thetamu'), i), S.ite(S.isnan(S.item(mu, i)), S.item(th, i), S.item(mu, i))))
    S.ensure_forall('prior-widths-in-declaration-order', (n,), lambda i: S.eq(S.item(g('_thetasigma'), i), S.ite(S.eq(S.item(sg, i), 0), S.num(INF), S.item(sg, i))))
    ind, p = g('_parind'), g('npar')
    S.ensure('one-position-per-sampled-parameter', S.eq(S.len(ind), p))
    S.ensure_forall('positions-are-sampled-parameters', (p,), lambda i: S.and_(0 <= S.item(ind, i), S.item(ind, i) < n, S.truthy(S.item(sm, S.item(ind, i)))))
    S.ensure_forall('positions-increase', (p, p), lambda i, j: S.implies(i < j, S.item(ind, i) < S.item(ind, j)))
    na = g('_no_adapt')
    S.ensure('one-adaptation-flag-per-sampled-parameter', S.eq(S.len(na), p))
    S.ensure_forall('adaptation-flag-of-the-same-parameter', (p,), lambda i: S.iff(S.truthy(S.item(na, i)), S.not_(S.truthy(S.item(ad, S.item(ind, i))))))
    S.ensure('one-name-per-parameter', S.eq(S.len(g('_names')), n))
    S.ensure_forall('names-in-declaration-order', (n,), lambda i: S.name_is(S.item(g('_names'), i), i))
    S.ensure_forall('every-sampled-parameter-listed', (n,), lambda j: S.iff(S.member(ind, j), S.truthy(S.item(sm, j))))



def start_wiring(S):
    """set-up of a run: prior, sum of squares and starting point all refer to the sampled parameters, in order"""
    q = start(S)
    n, m, p, ind, seen, pr, iv0, mu, sg = q.n, q.m, q.p, q.ind, q.seen, q.pr, q.iv0, q.mu, q.sg0
    S.method(q.mc, '_initialize_simulation')
    st = S.get(q.mc, '_MCMC__initial_set')
    at = lambda a, i: S.item(a, S.item(ind, i))
    S.ensure_forall('starting-point-is-initial-value-of-sampled-parameters', (p,), lambda i: S.eq(S.item(S.get(st, 'theta'), i), at(iv0, i)))
    S.ensure('starting-point-has-one-entry-per-sampled-parameter', S.eq(S.len(S.get(st, 'theta')), p))
    S.ensure('start-evaluated', len(seen) >= 1 and len(pr) >= 1)
    for v in seen:
        S.ensure_forall('start-evaluated-at-full-initial-vector', (n,), lambda j: S.eq(S.item(v, j), S.item(iv0, j)))
    for a, b, c in pr:
        S.ensure_forall('prior-refers-to-sampled-parameters', (p,), lambda i: S.and_(S.eq(S.item(a, i), at(iv0, i)), S.eq(S.item(b, i), at(mu, i)), S.eq(S.item(c, i), at(sg, i))))
    S.ensure_forall('start-carries-its-sum-of-squares', (m,), lambda j: S.eq(S.item(S.get(st, 'ss'), j), S.item(S.ufun('ss', [iv0], m), j)))
    S.ensure('start-carries-its-prior', S.eq(S.get(st, 'prior'), S.ufun('prior', [S.get(st, 'theta')])))
    S.ensure_forall('start-carries-the-error-variance', (m,), lambda j: S.eq(S.item(S.get(st, 'sigma2'), j), S.item(q.s2, j)))


def declared(S):
    """a declared parameter keeps what the user said and where; what is left out gets the documented default"""
    o = S.new(MP)
    k = S.choice('before', [0, 1, 2])
    for i in range(k):
        S.method(o, 'add_model_parameter', name='q%d' % i, theta0=S.real('t%d' % i))
    th, lo, hi, mu, sg = S.real('theta0'), S.real('minimum'), S.real('maximum'), S.real('mu'), S.real('sigma')
    sm, ad = S.choice('sample', [True, False, 0, 1]), S.choice('adapt', [True, False])
    full = S.choice('full', [True, False])
    if full:
        S.method(o, 'add_model_parameter', name='x', theta0=th, minimum=lo, maximum=hi, prior_mu=mu, prior_sigma=sg, sample=sm, adapt=ad)
    else:
        S.method(o, 'add_model_parameter')
    S.method(o, 'add_model_parameter', name='last', theta0=lo)
    P = S.get(o, 'parameters')
    S.ensure('one-entry-per-declaration', S.eq(S.len(P), k + 2))
    for i in range(k):
        S.ensure('declaration-order', S.item(S.item(P, i), 'name') == 'q%d' % i)
    S.ensure('declaration-order', S.item(S.item(P, k + 1), 'name') == 'last' and S.item(S.item(P, k), 'name') == ('x' if full else '$p_{%d}$' % k))
    d = lambda a: S.item(S.item(P, k), a)
    want = dict(theta0=th, minimum=lo, maximum=hi, prior_mu=mu, prior_sigma=sg) if full else dict(theta0=S.num(1), minimum=S.num(-INF), maximum=S.num(INF), prior_mu=S.num(0), prior_sigma=S.num(INF))
    for a, v in want.items():
        x = d(a)
        S.ensure('declared-%s' % a, S.eq(S.vec(x, 0) if S.isarr(x) else x, v))
    S.ensure('declared-sampling', S.truthy(d('sample')) == (bool(sm) if full else True))
    S.ensure('declared-adaptation', S.truthy(d('adapt')) == (ad if full else True))


def custom_outputs(ntry):
    """the outputs of the custom samplers of one step are what the next step hands to the sum-of-squares function"""
    def c(S):
        q = simulator(S, True, ntry, adapt='custom')
        S.ensure('whole-run-simulated', S.eq(S.get(q.g, 'row'), q.n - 1))
    c.__name__ = 'custom_outputs_%dtry' % ntry
    c.symbolic_only = True
    c.cost = 5
    return c


CONTRACTS = [start_wiring, vector_seen('sos'), vector_seen('model'), open_parameters, declared] + [custom_outputs(k) for k in (1, 2)]
