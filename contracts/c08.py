"""C08 - error variances follow the conjugate inverse-gamma update."""
from .common import EV
MS = 'pymcmcstat.settings.ModelSettings:ModelSettings'
ASSUMPTIONS = ['C08: the gamma generator is used through its contract (C09): some positive number depending on the requested shape and scale',
               'C08: sums of squares are finite and the scale denominator is positive']


def conjugate_update(S):
    m = S.int('m', 1)
    N0, S20, N, s2, ss = S.arr('N0', (m,), lo=0), S.arr('S20', (m,), pos=True), S.arr('N', (m,), lo=1), S.arr('sigma2', (m,), pos=True), S.arr('ss', (m,), pos=True)
    model = S.obj(None, N0=N0, S20=S20, N=N, sigma2=s2)
    n0, s20, n_, s_ = S.snap(N0), S.snap(S20), S.snap(N), S.snap(ss)
    g = lambda a, b: S.ufun('gam', [a, b])

    def gammar(S, m, n, a, b=1):
        S.ensure('one-draw-per-request', S.and_(S.eq(m, 1), S.eq(n, 1)))
        v = g(a, b)
        S.assume(v > 0)
        return S.mk((1, 1), lambda i, j: v)
    ev = S.obj(EV, gammar=S.fn(gammar))
    out = S.method(ev, 'update_error_variance', ss, model)
    S.ensure('one-variance-per-group', S.eq(S.len(out), m))
    S.ensure_forall('variance-is-inverse-of-the-gamma-draw-of-its-group', (m,), lambda j: S.eq(
        S.item(out, j) * g((S.item(n0, j) + S.item(n_, j)) / 2, 2 / (S.item(n0, j) * S.item(s20, j) + S.item(s_, j))), 1))
    S.ensure_forall('prior-settings-and-counts-unchanged', (m,), lambda j: S.and_(
        S.eq(S.item(S.get(model, 'N0'), j), S.item(n0, j)), S.eq(S.item(S.get(model, 'S20'), j), S.item(s20, j)),
        S.eq(S.item(S.get(model, 'N'), j), S.item(n_, j)), S.eq(S.item(ss, j), S.item(s_, j))))


def settings_per_group(S):
    """the three settings get one entry per group and never share storage with each other"""
    m = S.int('nsos', 1)
    ks = []
    arrs = {}
    for nm in ('S20', 'N0', 'sigma2'):
        one = S.choice('one_' + nm, [True, False])
        arrs[nm] = S.arr(nm, (1,) if one else (m,), pos=True)
        ks.append(one)
    shared = S.choice('shared', [False, True])
    if shared:
        arrs['S20'] = arrs['sigma2']
        ks[0] = ks[2]
    snap = {k: S.snap(v) for k, v in arrs.items()}
    N = S.arr('N', (m,), dtype='i', lo=1, hi=9)
    md = S.obj(MS, S20=arrs['S20'], N0=arrs['N0'], sigma2=arrs['sigma2'], N=N, Nshape=None)
    S.method(md, '_check_dependent_model_settings_wrt_nsos', m)
    for nm, one in zip(('S20', 'N0', 'sigma2'), ks):
        v = S.get(md, nm)
        S.ensure('one-entry-per-group', S.eq(S.len(v), m))
        S.ensure_forall('setting-of-the-same-group-or-the-shared-value', (m,), lambda j: S.eq(S.item(v, j), S.item(snap[nm], 0 if one else j)))
    a = [S.get(md, x) for x in ('S20', 'N0', 'sigma2')]
    S.ensure('variance-does-not-share-storage-with-prior-settings', not S.same_obj(a[0], a[2]) and not S.same_obj(a[1], a[2]))
    S.ensure('number-of-groups-recorded', S.eq(S.get(md, 'nsos'), m))


CONTRACTS = [conjugate_update, settings_per_group]
