"""C07 - proposal matrices always match the proposal covariance."""
from .common import simulator
from .common import INF, MP
AD = 'pymcmcstat.samplers.Adaptation:'
CP = 'pymcmcstat.procedures.CovarianceProcedures:CovarianceProcedures'
SO = 'pymcmcstat.settings.SimulationOptions:SimulationOptions'
ASSUMPTIONS = ['C07: numpy.linalg.cholesky returns a lower-triangular L with L L^T = A or raises; numpy.linalg.solve(A, I) returns the inverse or raises',
               'C07: number of delayed-rejection tries at most 5 (constant per contract); dimensions, matrices and stage factors arbitrary']


def gram(S, R, p):
    return lambda i, j: S.sum(p, lambda k: S.item(R, k, i) * S.item(R, k, j))


def sym(S, name, p):
    """symmetric matrix"""
    if S.sym:
        a = S.arr(name, (p, p))
        S.assume_forall((p, p), lambda i, j: S.eq(S.item(a, i, j), S.item(a, j, i)))
        return a
    import numpy as np
    r = np.random.RandomState(S.int(name + '_seed', 0, 10 ** 6))
    A = r.randn(p, r.choice([max(1, p - 1), p, p + 2]))
    return A.dot(A.T) * 10. ** r.choice([-3, 0, 2]) + (np.eye(p) if r.rand() < .3 else 0) - (np.eye(p) * r.choice([0, 1e-3]) if r.rand() < .3 else 0)


def below_burnin(S):
    p = S.int('p', 1)
    R = S.arr('R', (p, p))
    R0 = S.snap(R)
    ia = S.int('iiadapt', 1)
    rej = S.int('rejected', 0, ia)
    sc = S.real('scale', pos=True)
    out = S.call(AD + 'below_burnin_threshold', S.dict(dict(in_adaptation_interval=rej, total=rej, outside_bounds=0)), ia, R, sc, 0)
    f = S.num(rej) / S.num(ia)
    hi, lo = f > S.num(.95), f < S.num(.05)
    S.ensure_forall('mostly-rejected-shrinks-mostly-accepted-widens', (p, p), lambda i, j: S.eq(
        S.item(out, i, j), S.ite(hi, S.item(R0, i, j) / sc, S.ite(lo, S.item(R0, i, j) * sc, S.item(R0, i, j)))))
    S.ensure_forall('given-matrix-not-changed', (p, p), lambda i, j: S.eq(S.item(R, i, j), S.item(R0, i, j)))


def not_adapted(S):
    p = S.int('p', 1)
    C, Q = S.arr('C', (p, p)), S.arr('Q', (p, p))
    na = S.arr('no_adapt', (p,), dtype='b')
    C0, Q0 = S.snap(C), S.snap(Q)
    out = S.call(AD + 'update_cov_from_covchain', C, Q, na)
    S.ensure_forall('non-adapted-rows-and-columns-from-original-covariance', (p, p), lambda i, j: S.eq(
        S.item(out, i, j), S.ite(S.or_(S.truthy(S.item(na, i)), S.truthy(S.item(na, j))), S.item(Q0, i, j), S.item(C0, i, j))))
    S.ensure_forall('statistics-not-changed', (p, p), lambda i, j: S.and_(S.eq(S.item(C, i, j), S.item(C0, i, j)), S.eq(S.item(Q, i, j), S.item(Q0, i, j))))


def adapted_factor(S):
    p = S.int('p', 1)
    up = sym(S, 'up', p)
    R = S.arr('R', (p, p))
    sc, adj = S.real('scale', pos=True), S.real('adjust', pos=True)
    ia = S.int('iiadapt', 1)
    rej = S.dict(dict(in_adaptation_interval=S.int('rej', 0, ia), total=0, outside_bounds=0))
    u0, R0 = S.snap(up), S.snap(R)
    out = S.call(AD + 'check_for_singular_cov_matrix', up, R, p, adj, sc, rej, ia, 0)
    g = gram(S, out, p)
    up2 = S.mk((p, p), lambda i, j: S.item(u0, i, j) + S.ite(S.eq(i, j), adj, 0))
    if S.posdef(u0):
        S.ensure_forall('factor-of-adapted-covariance', (p, p), lambda i, j: S.eq(g(i, j), sc * sc * S.item(u0, i, j)))
    elif S.posdef(up2):
        S.ensure_forall('factor-of-covariance-plus-small-diagonal', (p, p), lambda i, j: S.eq(g(i, j), sc * sc * S.item(up2, i, j)))
    else:
        S.ensure_forall('previous-matrix-kept', (p, p), lambda i, j: S.eq(S.item(out, i, j), S.item(R0, i, j)))


def stages_ok(S, R, RDR, invR, ntry, d, nd, p):
    S.ensure('one-matrix-and-inverse-per-try', S.and_(S.eq(S.len(RDR), ntry), S.eq(S.len(invR), ntry)))
    A, B = [S.item(RDR, k) for k in range(ntry)], [S.item(invR, k) for k in range(ntry)]
    f = S.num(1)
    for k in range(ntry):
        if k:
            f = f * S.item(d, S.min(S.num(k), nd) - 1)
        S.ensure_forall('stage-matrix-is-first-divided-by-stage-factors', (p, p), lambda i, j: S.eq(S.item(A[k], i, j), S.item(R, i, j) / f))
        if S.well_conditioned(A[k]):
            S.ensure_forall('stored-inverse-is-the-inverse', (p, p), lambda i, j: S.eq(
                S.sum(p, lambda q: S.item(A[k], i, q) * S.item(B[k], q, j)), S.ite(S.eq(i, j), 1, 0)))


def stages(ntry):
    def c(S):
        p, nd = S.int('p', 1), S.int('ndr', 1, cmax=4)
        R = S.arr('R', (p, p))
        d = S.arr('drscale', (nd,), pos=True)
        r = S.tryrun(lambda: S.call(AD + 'update_delayed_rejection', R, p, ntry, d))
        if S.raised(r):
            return S.ensure('only-a-singular-matrix-fails', r.cls == 'LinAlgError')
        RDR, invR = r
        if ntry == 1:
            S.ensure('no-stage-matrices-for-one-try', RDR is None and invR is None)
        else:
            stages_ok(S, R, RDR, invR, ntry, d, nd, p)
    c.__name__ = 'adapted_stages_%d_tries' % ntry
    return c


def stages_any(S):
    """any number of tries: every stage matrix is the one before divided by its factor"""
    p, nd, nt = S.int('p', 1), S.int('ndr', 1, cmax=4), S.int('ntry', 2, cmax=9)
    R = S.arr('R', (p, p))
    d = S.arr('drscale', (nd,), pos=True)
    r = S.tryrun(lambda: S.call(AD + 'update_delayed_rejection', R, p, nt, d))
    if S.raised(r):
        return S.ensure('only-a-singular-matrix-fails', r.cls == 'LinAlgError')
    RDR, invR = r
    S.ensure('one-matrix-and-inverse-per-try', S.and_(S.eq(S.len(RDR), nt), S.eq(S.len(invR), nt)))
    at = lambda L, k, i, j: S.item(S.item(L, k), i, j)
    S.ensure_forall('first-stage-is-the-proposal-matrix', (p, p), lambda i, j: S.eq(at(RDR, 0, i, j), S.item(R, i, j)))
    unit = lambda k: (lambda i, j: S.eq(S.sum(p, lambda q: at(RDR, k, i, q) * at(invR, k, q, j)), S.ite(S.eq(i, j), 1, 0)))
    if S.well_conditioned(S.item(RDR, 0)):
        S.ensure_forall('first-stored-inverse-is-the-inverse', (p, p), unit(0))
    for k in S.some('stage', nt - 1):
        f = S.item(d, S.min(k + 1, nd) - 1)
        S.ensure('lemma-factors-positive', f > 0)
        S.assume(f > 0)
        S.ensure_forall('stage-matrix-is-the-one-before-divided-by-its-factor', (p, p), lambda i, j: S.eq(at(RDR, k + 1, i, j) * f, at(RDR, k, i, j)))
        if S.well_conditioned(S.item(RDR, k + 1)):
            for i in S.some('row', p):
                for j in S.some('column', p):
                    if S.sym:                     # induction over the stages
                        S.assume(unit(k)(i, j))
                    S.ensure('stored-inverse-is-the-inverse', unit(k + 1)(i, j))


def setup(S, n, ntry, **over):
    q = type('Q', (), {})()
    q.n = n
    p = q.p = S.int('p', 1, n)
    q.ind = S.arr('parind', (p,), dtype='i', lo=0, hi=n - 1)
    S.assume_forall((p, p), lambda i, j: S.implies(i < j, S.item(q.ind, i) < S.item(q.ind, j)))
    q.nd = S.int('ndr', 1, cmax=4)
    q.d = S.arr('drscale', (q.nd,), pos=True)
    q.sig = S.arr('sigma', (n,), pos=True, ext=True, cvals=[INF, .5, 2.])
    q.val = S.arr('value', (n,), cvals=[0., 1., -2.])
    q.sig0 = S.snap(q.sig)
    q.par = S.obj(MP, npar=p, _parind=q.ind, _thetasigma=q.sig, _initial_value=q.val, _no_adapt=S.arr('na', (p,), dtype='b'))
    o = dict(initqcovn=None, qcov=None, adascale=None, method='dram', ntry=ntry, drscale=q.d, RDR=None)
    o.update(over)
    q.opt = S.obj(SO, **o)
    q.c = S.obj(CP)
    q.r = S.tryrun(lambda: S.method(q.c, '_initialize_covariance_settings', q.par, q.opt))
    return q


def diagonal(S, q, v):
    """R diagonal with R[i,i]^2 = v(i), hence R^T R = diag(v)"""
    p = q.p
    if S.raised(q.r):
        return S.ensure('diagonal-covariance-always-accepted', False)
    R, C = S.get(q.c, '_R'), S.get(q.c, '_qcov')
    S.ensure_forall('factor-of-initial-covariance', (p, p), lambda i, j: S.eq(S.item(R, i, j) * S.item(R, i, j), S.ite(S.eq(i, j), v(S.item(q.ind, i)), 0)))
    S.ensure_forall('proposal-covariance-restricted-to-sampled', (p, p), lambda i, j: S.eq(S.item(C, i, j), S.ite(S.eq(i, j), v(S.item(q.ind, i)), 0)))


def started(S, q, Q, ntry, ok=None):
    """R^T R = Q(i, j) restricted to the sampled parameters"""
    p = q.p
    if S.raised(q.r):
        S.ensure('only-a-singular-matrix-fails', q.r.cls == 'LinAlgError')
        return False
    R = S.get(q.c, '_R')
    if S.branch(S.eq(p, 1)):
        g = lambda i, j: S.item(R, i, i) * S.item(R, i, j)
        if ok is not None and not S.branch(ok(S.item(q.ind, 0))):
            return False
    else:
        g = gram(S, R, p)
    S.ensure_forall('factor-of-initial-covariance', (p, p), lambda i, j: S.eq(g(i, j), Q(S.item(q.ind, i), S.item(q.ind, j))))
    S.ensure_forall('proposal-covariance-restricted-to-sampled', (p, p), lambda i, j: S.eq(S.item(S.get(q.c, '_qcov'), i, j), Q(S.item(q.ind, i), S.item(q.ind, j))))
    if ntry > 1:
        stages_ok(S, R, S.get(q.c, '_RDR'), S.get(q.c, '_invR'), ntry, q.d, q.nd, p)
    return True


def start_from_matrix(S):
    n = S.int('n', 2)
    Q = sym(S, 'Q', n)
    Q0 = S.snap(Q)
    q = setup(S, n, 1, qcov=Q, method='mh')
    started(S, q, lambda i, j: S.item(Q0, i, j), 1, lambda i: S.num(0) <= S.item(Q0, i, i))
    S.ensure_forall('given-covariance-not-changed', (n, n), lambda i, j: S.eq(S.item(Q, i, j), S.item(Q0, i, j)))


def start_from_variances(S):
    n = S.int('n', 1)
    Q = S.arr('Q', (n,), pos=True)
    Q0 = S.snap(Q)
    q = setup(S, n, 1, qcov=Q, method='mh')
    diagonal(S, q, lambda i: S.item(Q0, i))


def start_default(S):
    n = S.int('n', 1)
    q = setup(S, n, 1, method='mh')

    def v(i):
        s, x = S.item(q.sig0, i), S.item(q.val, i)
        return S.ite(S.isfinite(s), s * s, S.ite(S.eq(x, 0), 1, x * x * S.num(.05) * S.num(.05)))
    if S.branch(S.eq(n, 1)):
        diagonal(S, q, v)
    else:
        started(S, q, lambda i, j: S.ite(S.eq(i, j), v(i), 0), 1)


def start_stages(ntry):
    def c(S):
        n = S.int('n', 1)
        Q = S.arr('Q', (n,), pos=True)
        q = setup(S, n, ntry, qcov=Q, method='dr')
        if S.raised(q.r):
            return S.ensure('only-a-singular-matrix-fails', q.r.cls == 'LinAlgError')
        stages_ok(S, S.get(q.c, '_R'), S.get(q.c, '_RDR'), S.get(q.c, '_invR'), ntry, q.d, q.nd, q.p)
    c.__name__ = 'start_stages_%d_tries' % ntry
    return c


def scale(S):
    n = S.int('n', 1)
    q = setup(S, n, 1, method='mh', adascale=S.choice('given', [None, 0, 1.5, 3]), qcov=S.arr('Q', (n,), pos=True))
    if S.raised(q.r):
        return
    a = S.get(q.opt, 'adascale')
    sc = S.get(q.c, '_qcov_scale')
    if a is None or not S.branch(S.num(0) < a):
        S.ensure('default-scale', S.and_(sc > 0, S.eq(sc * sc * q.p, S.num(2.4) * S.num(2.4))))
    else:
        S.ensure('given-scale', S.eq(sc, a))


def stored_by_adaptation(ntry):
    """after one adaptation the stored matrices belong together and to the adapted covariance"""
    def c(S):
        p, rows = S.int('p', 1), 3
        now = S.int('chainind', 0, 2)
        W0, m0 = S.real('W0', lo=2), S.arr('m0', (p,))
        C0, Q = sym(S, 'C0', p), sym(S, 'Q', p)
        R = S.arr('R', (p, p))
        R0 = S.snap(R)
        nd = S.int('ndr', 1, cmax=4)
        d = S.arr('drscale', (nd,), pos=True)
        na = S.arr('no_adapt', (p,), dtype='b')
        sc, adj, bs = S.real('qcov_scale', pos=True), S.real('adjust', pos=True), S.real('burnin_scale', pos=True)
        isimu, burn = S.int('isimu', 1), S.int('burnintime', 0)
        opt = S.obj(SO, burnintime=burn, burnin_scale=bs, ntry=ntry, drscale=d, alphatarget=S.num(.234), etaparam=S.num(.7), qcov_adjust=adj, doram=False, verbosity=0)
        cov = S.obj(CP, _last_index_since_adaptation=now, _R=R, _covchain=C0, _meanchain=m0, _wsum=W0, _no_adapt_index=na, _qcov_scale=sc, _qcov=Q, _RDR=None, _invR=None)
        ia = S.int('iiadapt', 1)
        rj = S.int('rej', 0, ia)
        Q0, Cc = S.snap(Q), S.snap(C0)
        out = S.tryrun(lambda: S.method(S.obj(AD + 'Adaptation'), 'run_adaptation', cov, opt, isimu, ia, S.dict(dict(in_adaptation_interval=rj, total=0, outside_bounds=0)), S.arr('chain', (rows, p)), now,
                                        S.mk((1, p), lambda a, i: 0), p, S.num(.5)))
        if S.raised(out):
            return S.ensure('only-a-singular-matrix-fails', out.cls == 'LinAlgError')
        Rn, RDR, invR = S.get(out, '_R'), S.get(out, '_RDR'), S.get(out, '_invR')
        if ntry == 1:
            S.ensure('no-stage-matrices-for-one-try', RDR is None and invR is None)
        else:
            stages_ok(S, Rn, RDR, invR, ntry, d, nd, p)
        if S.branch(isimu < burn):
            f = S.num(rj) / S.num(ia)
            S.ensure_forall('burn-in-only-scales', (p, p), lambda i, j: S.eq(S.item(Rn, i, j), S.ite(f > S.num(.95), S.item(R0, i, j) / bs, S.ite(f < S.num(.05), S.item(R0, i, j) * bs, S.item(R0, i, j)))))
            return
        up = S.mk((p, p), lambda i, j: S.ite(S.or_(S.truthy(S.item(na, i)), S.truthy(S.item(na, j))), S.item(Q0, i, j), S.item(Cc, i, j)))
        up2 = S.mk((p, p), lambda i, j: S.item(up, i, j) + S.ite(S.eq(i, j), adj, 0))
        g = gram(S, Rn, p)
        if S.posdef(up):
            S.ensure_forall('stored-factor-of-adapted-covariance', (p, p), lambda i, j: S.eq(g(i, j), sc * sc * S.item(up, i, j)))
        elif S.posdef(up2):
            S.ensure_forall('stored-factor-of-covariance-plus-small-diagonal', (p, p), lambda i, j: S.eq(g(i, j), sc * sc * S.item(up2, i, j)))
        else:
            S.ensure_forall('previous-matrix-kept', (p, p), lambda i, j: S.eq(S.item(Rn, i, j), S.item(R0, i, j)))
    c.__name__ = 'stored_by_adaptation_%d_tries' % ntry
    return c


def matrix_in_use(ntry):
    """every step proposes with the matrix of the latest adaptation"""
    def c(S):
        q = simulator(S, True, ntry, adapt='matrix')
        S.ensure('whole-run-simulated', S.eq(S.get(q.g, 'row'), q.n - 1))
    c.__name__ = 'matrix_in_use_%dtry' % ntry
    c.symbolic_only = True
    c.cost = 5
    return c


def robust_update(S):
    """the robust adaptive method: R^T R + eta (min(1, alpha) - target) v v^T, v = R^T u / |u|, with eta = isimu^-etaparam"""
    p = S.int('p', 1, cmax=4)
    R = S.arr('R', (p, p))
    u = S.arr('u', (1, p))
    isimu = S.int('isimu', 1)
    eta, target, alpha = S.real('etaparam', pos=True), S.real('target'), S.real('alpha')
    R0, u0 = S.snap(R), S.snap(u)
    n2 = S.sum(p, lambda i: S.item(u0, 0, i) * S.item(u0, 0, i))
    S.assume(n2 > 0)
    out = S.call(AD + 'update_cov_via_ram', u, isimu, eta, p, target, alpha, R)
    f = (S.min(S.num(1), alpha) - target) / S.pow(S.num(isimu), eta)
    g, r = gram(S, R0, p), S.sqrt(n2)
    v = lambda i: S.sum(p, lambda k: S.item(u0, 0, k) * S.item(R0, k, i)) / r
    S.ensure_forall('robust-adaptive-covariance', (p, p), lambda i, j: S.eq(S.item(out, i, j), g(i, j) + f * v(i) * v(j)))
    S.ensure_forall('given-matrix-not-changed', (p, p), lambda i, j: S.eq(S.item(R, i, j), S.item(R0, i, j)))


CONTRACTS = [stages_any, below_burnin, not_adapted, adapted_factor] + [stages(k) for k in (1, 2, 3, 5)] + [start_from_matrix, start_from_variances, start_default] + [start_stages(k) for k in (2, 3, 5)] + [scale] + [stored_by_adaptation(k) for k in (1, 2, 3)] + [matrix_in_use(k) for k in (1, 2)] + [robust_update]
