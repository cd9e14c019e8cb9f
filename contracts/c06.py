"""C06 - adaptation keeps the exact weighted moments of the accepted history."""
from .common import simulator
AD = 'pymcmcstat.samplers.Adaptation:'


def initialize(S):
    n, p = S.int('n', 1), S.int('p', 1)
    x, w = S.arr('x', (n, p)), S.arr('w', (n,), pos=True)
    W = S.sum(n, lambda k: S.item(w, k))
    S.assume(W > 0)
    xcov, xmean, wsum = S.call(AD + 'initialize_covariance_mean_sum', x, w)
    S.ensure('weight-sum', S.eq(wsum, W))
    mu = lambda i: S.sum(n, lambda k: S.item(x, k, i) * S.item(w, k)) / W
    S.ensure_forall('mean-of-all-rows', (p,), lambda i: S.eq(S.item(xmean, i), mu(i)))
    if S.branch(W > 1):
        S.ensure_forall('covariance-of-all-rows', (p, p), lambda i, j: S.eq(
            S.item(xcov, i, j),
            S.sum(n, lambda k: S.item(w, k) * (S.item(x, k, i) - mu(i)) * (S.item(x, k, j) - mu(j))) / (W - 1)))
    else:
        S.ensure_forall('covariance-zero-for-one-row', (p, p), lambda i, j: S.eq(S.item(xcov, i, j), 0))


def update(weights):
    """recursive update = weighted moments of old data plus new rows; unit weights (as the sampler uses them) or one weight per row"""
    def c(S):
        n, p = S.int('last', 0) + 1, S.int('p', 1)
        x = S.arr('x', (n, p))
        C0, m0, W0 = S.arr('C0', (p, p)), S.arr('m0', (p,)), S.real('W0', lo=1)
        if weights == 'unit':
            w = S.arr('one', (1,), lo=1, hi=1)
            S.assume(S.eq(S.item(w, 0), 1))
            wt, tot = lambda t: 1, lambda k: k
        else:
            w = S.arr('w', (n,), pos=True)
            wt, tot = lambda t: S.item(w, t), lambda k: S.sum(k, lambda t: S.item(w, t))
        sx = lambda k, i: S.sum(k, lambda t: wt(t) * S.item(x, t, i))
        sxx = lambda k, i, j: S.sum(k, lambda t: wt(t) * S.item(x, t, i) * S.item(x, t, j))
        # scatter and sums represented by the old moments
        picks = {}

        def mkinv(q):
            def inv(S, env, k):
                sc, ve, ma = S.kinds(env)
                if q not in picks:
                    combos = [(a, b, c) for a, v in sc if S.ident(v, W0) for b, u in ve if S.ident(u, m0) for c, t in ma if S.ident(t, C0)]
                    picks[q] = combos[q] if q < len(combos) else None
                if picks[q] is None:
                    return None
                v, m, C = (env[nm] for nm in picks[q])
                W = W0 + tot(k)
                return [((), lambda: S.and_(S.eq(S.vec(v, 0), W), tot(k) >= 0), 'w'),
                        ((p,), lambda i: S.eq(W * S.item(m, i), W0 * S.item(m0, i) + sx(k, i)), 'm'),
                        ((p, p), lambda i, j: S.eq((W - 1) * S.item(C, i, j), (W0 - 1) * S.item(C0, i, j) + W0 * S.item(m0, i) * S.item(m0, j)
                                                   + sxx(k, i, j) - W * S.item(m, i) * S.item(m, j)), 'c')]
            return inv
        for q in range(4):
            S.loop_inv('moments%d' % q, mkinv(q))
        W = W0 + tot(n)
        mu = lambda i: (W0 * S.item(m0, i) + sx(n, i)) / W
        xcov, xmean, wsum = S.call(AD + 'update_covariance_mean_sum', x, w, C0, m0, W0)
        S.ensure('weight-sum', S.eq(S.vec(wsum, 0), W))
        S.ensure_forall('mean-of-old-and-new', (p,), lambda i: S.eq(S.item(xmean, i), mu(i)))
        S.ensure_forall('covariance-of-old-and-new', (p, p), lambda i, j: S.eq(
            (W - 1) * S.item(xcov, i, j),
            (W0 - 1) * S.item(C0, i, j) + W0 * S.item(m0, i) * S.item(m0, j) + sxx(n, i, j) - W * mu(i) * mu(j)))
    c.__name__ = 'update' if weights == 'unit' else 'update_%s_weight' % weights
    return c


def adaptation_step(kind):
    """one adaptation: exactly the rows not consumed so far enter the statistics, each once"""
    def c(S):
        p, rows = S.int('p', 1), S.int('rows', 2)
        now = S.int('chainind', 1 if kind == 'first' else 0, rows - 1)
        last = S.num(0) if kind == 'first' else S.int('last', 0, now)
        ntry = S.choice('ntry', [1, 2])
        if kind == 'first':
            C0 = m0 = W0 = None
        else:
            C0, m0, W0 = S.arr('C0', (p, p)), S.arr('m0', (p,)), S.real('W0', lo=1)
        chain = S.arr('chain', (rows, p))
        isimu, burn = S.int('isimu', 1), S.int('burnintime', 0)
        opt = S.obj('pymcmcstat.settings.SimulationOptions:SimulationOptions', burnintime=burn, burnin_scale=S.real('burnin_scale', pos=True), ntry=ntry, drscale=S.arr('drscale', (1,), pos=True),
                    alphatarget=S.num(.234), etaparam=S.num(.7), qcov_adjust=S.real('adjust', pos=True), doram=False, verbosity=0)
        R = S.arr('R', (p, p))
        cov = S.obj('pymcmcstat.procedures.CovarianceProcedures:CovarianceProcedures', _last_index_since_adaptation=last, _R=R, _covchain=C0, _meanchain=m0, _wsum=W0, _no_adapt_index=S.arr('no_adapt', (p,), dtype='b'),
                    _qcov_scale=S.real('qcov_scale', pos=True), _qcov=S.arr('Q', (p, p)), _RDR=None, _invR=None)
        ia = S.int('iiadapt', 1)
        rej = S.dict(dict(in_adaptation_interval=S.int('rej', 0, ia), total=0, outside_bounds=0))
        ch0 = S.snap(chain)
        if S.sym:
            def summ(S, env):
                """proved above (initialize, update): the moments of the old data and the new rows"""
                x = env['x']
                n = S.shape(x)[0]
                if not S.branch(n > 0):
                    return (env['oldcov'], env['oldmean'], env['oldwsum'])
                c1, m1, w1 = S.arr('c1', (p, p)), S.arr('m1', (p,)), S.real('w1')
                oc, om, ow = env['oldcov'], env['oldmean'], env['oldwsum']
                none = oc is None
                w = S.num(0) if none else ow
                S.assume(S.eq(w1, w + n))
                S.assume_forall((p,), lambda i: S.eq(w1 * S.item(m1, i), (0 if none else w * S.item(om, i)) + S.sum(n, lambda t: S.item(x, t, i))))
                S.assume_forall((p, p), lambda i, j: S.eq((w1 - 1) * S.item(c1, i, j), (0 if none else (w - 1) * S.item(oc, i, j) + w * S.item(om, i) * S.item(om, j))
                                                          + S.sum(n, lambda t: S.item(x, t, i) * S.item(x, t, j)) - w1 * S.item(m1, i) * S.item(m1, j)))
                return (c1, m1, w1)
            S.summary(AD + 'update_covariance_mean_sum', summ)
        S.summary(AD + 'check_for_singular_cov_matrix', lambda S, env: env['R']) if S.sym else None
        S.summary(AD + 'update_delayed_rejection', lambda S, env: (None, None)) if S.sym else None
        ad = S.obj(AD + 'Adaptation')
        out = S.tryrun(lambda: S.method(ad, 'run_adaptation', cov, opt, isimu, ia, rej, chain, now, S.mk((1, p), lambda a, i: 0), p, S.num(.5)))
        if S.raised(out):
            return S.ensure('only-a-singular-matrix-fails', out.cls == 'LinAlgError')
        g = lambda a: S.get(out, a)
        if S.branch(isimu < burn):
            S.ensure('burn-in-consumes-no-rows', S.eq(g('_last_index_since_adaptation'), last))
            if kind == 'first':
                S.ensure('burn-in-leaves-statistics', g('_covchain') is None and g('_meanchain') is None and g('_wsum') is None)
            else:
                S.ensure('burn-in-leaves-statistics', S.eq(S.vec(g('_wsum'), 0), W0))
                S.ensure_forall('burn-in-leaves-statistics', (p,), lambda i: S.eq(S.item(g('_meanchain'), i), S.item(m0, i)))
                S.ensure_forall('burn-in-leaves-statistics', (p, p), lambda i, j: S.eq(S.item(g('_covchain'), i, j), S.item(C0, i, j)))
            return
        S.ensure('rows-up-to-the-current-one-are-consumed', S.eq(g('_last_index_since_adaptation'), now))
        n = now - last
        none = kind == 'first'
        w = S.num(0) if none else W0
        w1, m1, c1 = S.vec(g('_wsum'), 0), g('_meanchain'), g('_covchain')
        S.ensure('weight-counts-every-row-once', S.eq(w1, w + n))
        S.ensure_forall('mean-of-all-consumed-rows', (p,), lambda i: S.eq(w1 * S.item(m1, i), (0 if none else w * S.item(m0, i)) + S.sum(n, lambda t: S.item(ch0, last + t, i))))
        S.ensure_forall('covariance-of-all-consumed-rows', (p, p), lambda i, j: S.eq(
            (w1 - 1) * S.item(c1, i, j), (0 if none else (w - 1) * S.item(C0, i, j) + w * S.item(m0, i) * S.item(m0, j)) + S.sum(n, lambda t: S.item(ch0, last + t, i) * S.item(ch0, last + t, j)) - w1 * S.item(m1, i) * S.item(m1, j)))
        S.ensure_forall('chain-not-modified', (rows, p), lambda r, i: S.eq(S.item(chain, r, i), S.item(ch0, r, i)))
    c.__name__ = 'adaptation_step_' + kind
    return c


def history_handed_over(ntry):
    """adaptation gets the history of the run"""
    def c(S):
        q = simulator(S, True, ntry, adapt='rows')
        S.ensure('whole-run-simulated', S.eq(S.get(q.g, 'row'), q.n - 1))
    c.__name__ = 'history_handed_over_%dtry' % ntry
    c.symbolic_only = True
    c.cost = 5
    return c


CONTRACTS = [initialize, update('unit'), update('own'), adaptation_step('first'), adaptation_step('later')] + [history_handed_over(k) for k in (1, 2)]
