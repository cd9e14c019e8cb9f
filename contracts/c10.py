"""C10 - priors are set up and evaluated as documented."""
from .common import INF, MP, start
PF = 'pymcmcstat.procedures.PriorFunction:PriorFunction'
ASSUMPTIONS = ['C10: prior means and points are finite; prior widths are positive or infinite once set up']


def default_prior(S):
    p = S.int('p', 1)
    th, mu = S.arr('theta', (p,)), S.arr('mu', (p,))
    sg = S.arr('sigma', (p,), ext=True, pos=True, cvals=[INF, .5, 2., 1.])
    S.assume_forall((p,), lambda i: S.num(0) < S.item(sg, i))
    o = S.new(PF, None, mu, sg)
    r = S.method(o, 'evaluate_prior', th)

    def term(i):
        s = S.item(sg, i)
        d = S.item(mu, i) - S.item(th, i)
        return S.ite(S.isfinite(s), S.ite(S.isfinite(s), d / S.ite(S.isfinite(s), s, 1), 0) * S.ite(S.isfinite(s), d / S.ite(S.isfinite(s), s, 1), 0), 0)
    S.ensure('sum-of-squared-standardised-distances', S.eq(S.vec(r, 0), S.sum(p, term)))


def user_prior(S):
    p = S.int('p', 1)
    th, mu, sg = S.arr('theta', (p,)), S.arr('mu', (p,)), S.arr('sigma', (p,), pos=True)
    val = S.xreal('value')
    got = []

    def f(S, theta, mu, sigma):
        got.append((S.snap(theta), S.snap(mu), S.snap(sigma)))
        return val
    o = S.new(PF, S.fn(f), mu, sg)
    r = S.method(o, 'evaluate_prior', th)
    S.ensure('called-once', len(got) == 1)
    S.ensure('value-used-unchanged', S.eq(r, val))
    for a, b, c in got:
        S.ensure_forall('receives-point-means-and-widths', (p,), lambda i: S.and_(
            S.eq(S.item(a, i), S.item(th, i)), S.eq(S.item(b, i), S.item(mu, i)), S.eq(S.item(c, i), S.item(sg, i))))


def prior_mean(S):
    mu, v = S.xreal('mu'), S.real('value')
    r = S.call(MP + '.setup_prior_mu', mu, v)
    S.ensure('nan-mean-means-initial-value', S.eq(r, S.ite(S.isnan(mu), v, mu)))


def prior_width(S):
    """widths of zero or less become infinite, the others stay"""
    n = S.int('n', 1)
    sg = S.arr('sigma', (n,), ext=True, cvals=[INF, .5, 2., 0., -1., -INF])
    s0 = S.snap(sg)
    par = S.obj(MP, _thetasigma=sg)
    S.method(par, '_check_prior_sigma', 0)
    out = S.get(par, '_thetasigma')
    S.ensure('one-width-per-parameter', S.eq(S.len(out), n))
    S.ensure_forall('width-zero-or-less-is-infinite-others-kept', (n,), lambda i: S.eq(S.item(out, i), S.ite(S.item(s0, i) <= 0, S.num(INF), S.item(s0, i))))


def declared_zero_width(S):
    s = S.xreal('sigma', nan=False)
    r = S.call(MP + '.setup_prior_sigma', s)
    S.ensure('zero-width-is-infinite-others-kept', S.eq(r, S.ite(S.eq(s, 0), S.num(INF), s)))


def start_prior(S):
    """the prior of a run gets the means and widths of the sampled parameters, a width of zero or less being infinite"""
    q = start(S, real=('_check_prior_sigma',), wide=True)
    S.method(q.mc, '_initialize_simulation')
    x = lambda a, i: S.item(a, S.item(q.ind, i))
    S.ensure('prior-evaluated-at-the-start', len(q.pr) >= 1)
    for a, b, c in q.pr:
        S.ensure_forall('prior-mean-of-the-sampled-parameter', (q.p,), lambda i: S.eq(S.item(b, i), x(q.mu, i)))
        S.ensure_forall('prior-width-zero-or-less-is-infinite', (q.p,), lambda i: S.eq(S.item(c, i), S.ite(x(q.sg0, i) <= 0, S.num(INF), x(q.sg0, i))))


CONTRACTS = [start_prior, default_prior, user_prior, prior_mean, prior_width, declared_zero_width]
