import copy
import math
import numpy as np


def chains(s):
    from pymcmcstat.chain import ChainProcessing as CP
    r = s.r
    k = r.choice([1, 2, 3, 5])
    p = r.choice([1, 2, 3])
    pres = []
    same = r.random() < .5
    n0 = r.choice([1, 2, 7, 10, 33, 100])
    for i in range(k):
        n = n0 if same else r.choice([1, 2, 7, 10, 33, 100])
        pres.append(dict(chain=s.np.randn(n, p), nsimu=n, theta=i))
    keep = [q['chain'].copy() for q in pres]
    b = r.choice([0, 10, 25, 33, 50, 66.6, 90, 99])
    s.desc = dict(n=[q['nsimu'] for q in pres], b=b)
    kw = {} if b == 50 and r.random() < .5 else dict(burnin_percentage=b)
    cut = [math.floor(q['nsimu'] * b / 100) for q in pres]
    C, idx = CP.generate_combined_chain_with_index(pres, **kw)
    s.same('combined-rows-in-order', C, np.concatenate([c[a:] for c, a in zip(keep, cut)]))
    s.check('labelled-with-their-chain', list(idx) == ['Chain %d' % i for i in range(k) for _ in range(keep[i].shape[0] - cut[i])], idx[:5])
    L = CP.generate_chain_list(pres, **kw)
    s.check('one-entry-per-chain', len(L) == k)
    for i in range(min(k, len(L))):
        s.same('listed-rows-in-order', L[i], keep[i][cut[i]:])
    for q, c in zip(pres, keep):
        s.same('chains-not-modified', q['chain'], c)


KEYS = ['a', 'b', 'c', 'color', 'fig', 'x']


def tree(r, depth):
    d = {}
    for k in r.sample(KEYS, r.randint(0, 4)):
        if depth and r.random() < .4:
            d[k] = tree(r, depth - 1)
        else:
            d[k] = r.choice([1, 'v', None, [1, 2], 3.5, True, (), 0, False, ''])
    return d


def user(r, default, depth):
    d = {}
    for k in r.sample(KEYS, r.randint(0, 4)):
        if k in default and isinstance(default[k], dict):
            d[k] = user(r, default[k], depth - 1)
        else:
            d[k] = r.choice([2, 'w', None, [3], {'z': 1}, False, 0, ''])
    return d


def merged(a, u):
    out = {}
    for k in list(a) + [k for k in u if k not in a]:
        if k in a and k in u:
            out[k] = merged(a[k], u[k]) if isinstance(a[k], dict) else u[k]
        else:
            out[k] = a[k] if k in a else u[k]
    return out


def settings(s):
    from pymcmcstat.utilities import general as G
    from pymcmcstat.plotting import utilities as U
    r = s.r
    a = tree(r, 3)
    u = user(r, a, 3)
    s.desc = dict(default=a, user=u)
    a0, u0 = copy.deepcopy(a), copy.deepcopy(u)
    for f in (G.check_settings, U.check_settings):
        o = f(a, u)
        s.check('defaults-kept-and-user-values-taken', o == merged(a0, u0), (o, merged(a0, u0)))
        s.check('inputs-not-changed', a == a0 and u == u0, (a, u))
        o2 = f(a)
        s.check('no-user-settings-gives-defaults', o2 == a0)
        o3 = f(a, None)
        s.check('no-user-settings-gives-defaults', o3 == a0)
        for k in o:
            if not isinstance(o[k], dict):
                o[k] = 'changed'
        s.check('result-is-a-new-dictionary', a == a0 and u == u0)
    if a:
        k = r.choice(list(a))
        q = G.removekey(a, k)
        s.check('removekey', q == {x: a0[x] for x in a0 if x != k} and a == a0)


def names(s):
    from pymcmcstat.plotting import utilities as U
    from pymcmcstat.chain import ChainStatistics as CS
    r = s.r
    n = r.choice([1, 2, 3, 7, 12])
    given = None if r.random() < .2 else ['nm%d' % i for i in range(r.randint(0, n))]
    want = (given or []) + ['$p_{%d}$' % i for i in range(len(given or []), n)]
    cp = lambda: None if given is None else list(given)
    s.check('names-fill-missing-positions', U.generate_names(n, cp()) == want)
    s.check('names-fill-missing-positions', U.extend_names_to_match_nparam(cp(), n) == want)
    s.check('default-names', U.generate_default_names(n) == ['$p_{%d}$' % i for i in range(n)])
    if given is not None:
        s.check('names-fill-missing-positions', CS.get_parameter_names(n, dict(names=cp())) == want)
    a, b, nm, fs = U.setup_plot_features(n, cp(), None)
    s.check('names-fill-missing-positions', nm == want)
    s.check('grid-has-room', a * b >= n, (a, b, n))
    s.check('figure-size-default', list(fs) == [5, 4])
    s.check('figure-size-kept', U.setup_plot_features(n, cp(), [7, 2])[3] == [7, 2])


def grids(s):
    from pymcmcstat.plotting import utilities as U
    for n in range(1, 60):
        a, b = U.generate_subplot_grid(n)
        s.check('grid-has-room', a * b >= n and a >= 1 and b >= 1, (a, b, n))
    n = s.r.randint(60, 10 ** 6)
    a, b = U.generate_subplot_grid(n)
    s.check('grid-has-room', a * b >= n, (a, b, n))


def subsamples(s):
    from pymcmcstat.plotting import utilities as U
    r = s.r
    nsimu, mp, skip = r.randint(1, 400), r.choice([1, 2, 7, 50, 150, 500]), r.choice([1, 2, 3, 10])
    s.desc = dict(nsimu=nsimu, mp=mp, skip=skip)
    q = list(U.setup_subsample(skip, mp, nsimu))
    s.check('subsample-starts-at-row-zero', len(q) > 0 and q[0] == 0)
    s.check('subsample-increasing-valid-rows', all(b > a for a, b in zip(q, q[1:])) and all(0 <= a < nsimu and int(a) == a for a in q))
    s.check('subsample-evenly-spaced', len(q) < 2 or len({b - a for a, b in zip(q, q[1:])}) == 1)
    if nsimu <= mp:
        s.check('requested-skip-used', q == list(range(0, nsimu, skip)))


grids.runs = 10
SCENARIOS = [chains, settings, names, grids, subsamples]
