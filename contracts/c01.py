"""C01 - every sampled state respects the parameter limits."""
from .common import MP, SU, INF, metropolis, dr_driver, inside, parameters, start

ASSUMPTIONS = ['C01: the delayed-rejection driver is verified for 2, 3 and 4 tries (the number of tries is the only bound); parameter values are finite numbers']


def outside_bounds(S):
    p = S.int('p', 1)
    th = S.arr('th', (p,))
    lo, hi = S.arr('lo', (p,), ext=True, cvals=[-INF, -1., 0.]), S.arr('hi', (p,), ext=True, cvals=[INF, 1., 0.])
    r = S.call(SU + 'is_sample_outside_bounds', th, lo, hi)
    ok = lambda i: S.and_(S.item(lo, i) <= S.item(th, i), S.item(th, i) <= S.item(hi, i))
    if S.branch(S.truthy(r)):
        S.ensure('strictly-true', r is True or S.sym)
        S.assume_forall((p,), lambda i: S.not_(S.or_(S.item(th, i) < S.item(lo, i), S.item(th, i) > S.item(hi, i))))
        S.ensure('outside-means-a-component-is-outside', False)
    else:
        S.ensure_forall('inside-means-no-component-outside', (p,), lambda i: S.not_(S.or_(S.item(th, i) < S.item(lo, i), S.item(th, i) > S.item(hi, i))))


def metropolis_limits(S):
    q = metropolis(S)
    ins = inside(S, S.get(q.new, 'theta'), q.lo, q.hi, q.ind, q.p)
    if S.branch(S.truthy(q.accept)):
        S.ensure_forall('accepted-point-inside-limits', (q.p,), ins)
    for e in S.events('sos') + S.events('prior'):
        S.ensure_forall('functions-evaluated-only-inside-limits', (q.p,), inside(S, e[1], q.lo, q.hi, q.ind, q.p))


def driver(ntry):
    def c(S):
        q = dr_driver(S, ntry)
        S.assume_forall((q.p,), inside(S, q.ot, q.lo, q.hi, q.ind, q.p))
        S.ensure_forall('resulting-point-inside-limits', (q.p,), inside(S, S.get(q.out, 'theta'), q.lo, q.hi, q.ind, q.p))
        for e in S.events('sos') + S.events('prior'):
            S.ensure_forall('functions-evaluated-only-inside-limits', (q.p,), inside(S, e[1], q.lo, q.hi, q.ind, q.p))
    c.__name__ = 'delayed_rejection_limits_%d_tries' % ntry
    return c


def declared(S, **kw):
    n = S.int('n', 1)
    p = S.int('p', 1, n)
    par, lo, hi, ind = parameters(S, p, n, **kw)
    iv = S.arr('iv', (n,), cvals=[0., 1., -1., 3., 50., -50.])
    names = S.symlist(n, lambda i: 'name')
    S.put(par, '_names', names)
    S.put(par, '_initial_value', iv)
    return n, p, par, lo, hi, ind, iv


def limits_checked(S):
    n, p, par, lo, hi, ind, iv = declared(S, lov=(-INF, -3., 0., 0., 1.), hiv=(INF, 3., 0., 1., 2., 0.5))
    r = S.tryrun(lambda: S.method(par, '_check_parameter_limits'))
    ok = lambda i: S.item(lo, S.item(ind, i)) <= S.item(hi, S.item(ind, i))
    if hasattr(r, 'cls'):
        S.ensure('refusal-is-an-exit', r.cls == 'SystemExit')
        S.assume_forall((p,), ok)
        S.ensure('refused-only-if-a-pair-of-limits-is-incompatible', False)
    else:
        S.ensure_forall('accepted-only-if-all-limits-are-compatible', (p,), ok)


def initial_values_checked(S):
    n, p, par, lo, hi, ind, iv = declared(S)
    r = S.tryrun(lambda: S.method(par, '_check_initial_values_wrt_parameter_limits'))
    x = lambda a, i: S.item(a, S.item(ind, i))
    ok = lambda i: S.not_(S.or_(x(iv, i) < x(lo, i), x(iv, i) > x(hi, i)))
    if hasattr(r, 'cls'):
        S.ensure('refusal-is-an-exit', r.cls == 'SystemExit')
        S.assume_forall((p,), ok)
        S.ensure('refused-only-if-a-value-is-outside', False)
    else:
        S.ensure_forall('accepted-only-if-all-values-are-inside', (p,), ok)


def start_refused(S):
    """a run is set up, and anything evaluated, only if every pair of limits is compatible and every initial value inside"""
    q = start(S, real=('_check_parameter_limits', '_check_initial_values_wrt_parameter_limits'), wide=True)
    r = S.tryrun(lambda: S.method(q.mc, '_initialize_simulation'))
    x = lambda a, i: S.item(a, S.item(q.ind, i))
    ok = lambda i: S.and_(x(q.lo, i) <= x(q.hi, i), x(q.lo, i) <= x(q.iv0, i), x(q.iv0, i) <= x(q.hi, i))
    if hasattr(r, 'cls'):
        S.ensure('refusal-is-an-exit', r.cls == 'SystemExit')
        S.ensure('nothing-evaluated-when-refused', len(q.seen) == 0 and len(q.pr) == 0)
        S.assume_forall((q.p,), ok)
        S.ensure('refused-only-if-limits-or-a-value-are-bad', False)
    else:
        S.ensure_forall('run-starts-only-with-compatible-limits-and-values-inside', (q.p,), ok)


CONTRACTS = [outside_bounds, start_refused, metropolis_limits, limits_checked, initial_values_checked] + [driver(k) for k in (2, 3, 4)]
