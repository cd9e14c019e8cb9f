"""C04 - chains are a faithful, aligned record of the simulated history.

Ghost state: every set returned by a sampler step carries an identity; theta, ss and prior are
arbitrary functions of that identity.  G[k] is the identity that the step outcomes dictate for row k
(the candidate if step k accepted, G[k-1] otherwise)."""
from .common import MC, PS, simulator


def rows(us, ntry):
    def c(S):
        q = simulator(S, us, ntry)
        n, p, m = q.n, q.p, q.m
        S.ensure('chain-index-at-last-row', S.eq(S.get(q.mc, '_MCMC__chain_index'), n - 1))
        S.ensure_forall('row-is-accepted-candidate-or-previous-row', (n, p), lambda r, i: S.eq(S.item(S.get(q.mc, '_MCMC__chain'), r, i), q.TH(S.item(q.G, r), i)))
        S.ensure_forall('sum-of-squares-row-belongs-to-parameter-row', (n, m), lambda r, j: S.eq(S.item(S.get(q.mc, '_MCMC__sschain'), r, j), q.SS(S.item(q.G, r), j)))
        if us:
            S.ensure_forall('error-variance-row-is-the-draw-of-that-step', (n, m), lambda r, j: S.eq(S.item(S.get(q.mc, '_MCMC__s2chain'), r, j), q.S2(S.item(q.V, r), j)))
        rej = S.get(q.mc, '_MCMC__rejected')
        S.ensure('total-rejected', S.eq(S.item(rej, 'total'), S.get(q.g, 'rej')))
        S.ensure('rejected-outside-limits', S.eq(S.item(rej, 'outside_bounds'), S.get(q.g, 'out')))
        S.ensure_forall('final-value-is-last-row', (p,), lambda i: S.eq(S.item(S.get(q.par, '_value'), S.item(q.ind, i)), q.TH(S.item(q.G, n - 1), i)))
    c.__name__ = 'simulator_%s_%dtry' % ('s2' if us else 'fixed', ntry)
    c.symbolic_only = True
    c.cost = 5
    return c


def first_row(us):
    def c(S):
        n, p, m = S.int('nsimu', 1), S.int('p', 1), S.int('m', 1)
        th, ss, s2 = S.arr('theta', (p,)), S.arr('ss', (m,)), S.arr('s2', (m,), pos=True)
        mc = S.obj(MC, simulation_options=S.obj(None, chainfile='c', sschainfile='s', s2chainfile='v'), _MCMC__initial_set=S.obj(PS, theta=th, ss=ss, prior=0, sigma2=s2))
        S.method(mc, '_MCMC__initialize_chains', chainind=0, nsimu=n, npar=p, nsos=m, updatesigma=us, sigma2=s2)
        g = lambda a: S.get(mc, '_MCMC__' + a)
        for a, v, w in (('chain', th, p), ('sschain', ss, m)) + ((('s2chain', s2, m),) if us else ()):
            S.ensure('one-row-per-simulation', S.and_(S.eq(S.shape(g(a))[0], n), S.eq(S.shape(g(a))[1], w)))
            S.ensure_forall('first-row-is-the-starting-point', (w,), lambda i: S.eq(S.item(g(a), 0, i), S.item(v, i)))
        if not us:
            S.ensure('no-variance-chain-unless-sampled', g('s2chain') is None)
    c.__name__ = 'first_row_%s' % ('s2' if us else 'fixed')
    return c


CONTRACTS = [first_row(False), first_row(True)] + [rows(us, nt) for us in (False, True) for nt in (1, 2)]
