"""C12 - options and settings are normalised consistently before sampling."""
from .common import simulator
SO = 'pymcmcstat.settings.SimulationOptions:SimulationOptions'
MS = 'pymcmcstat.settings.ModelSettings:ModelSettings'
ASSUMPTIONS = ['C12: the sampling methods are the five documented ones; user values are whole numbers where a count is expected']
METHODS = ['mh', 'am', 'dr', 'dram', 'ram']


def method_defaults(S):
    m = S.choice('method', METHODS)
    ga, gt = S.choice('give_adaptint', [False, True]), S.choice('give_ntry', [False, True])
    a, t, n = S.int('adaptint', 0), S.int('ntry', 1), S.int('nsimu', 1)
    kw = {}
    if ga:
        kw['adaptint'] = a
    if gt:
        kw['ntry'] = t
    o = S.new(SO)
    S.method(o, 'define_simulation_options', nsimu=n, method=m, **kw)
    g = lambda x: S.get(o, x)
    ad = g('adaptint')
    if m in ('mh', 'dr'):
        S.ensure('plain-methods-never-adapt', S.eq(ad, 0))
    elif ga:
        S.ensure('users-adaptation-interval-wins', S.eq(ad, a))
    else:
        S.ensure('adaptive-methods-adapt-by-default', S.eq(ad, 1 if m == 'ram' else 100))
    if gt:
        S.ensure('users-number-of-tries-wins', S.eq(g('ntry'), t))
    else:
        S.ensure('default-number-of-tries', S.eq(g('ntry'), 2 if m in ('dr', 'dram') else 1))
    S.ensure('number-of-simulations-kept', S.eq(g('nsimu'), n))
    S.ensure('method-kept', g('method') == m)


def user_choices(S):
    """every explicit choice is stored as given"""
    vals = dict(qcov=S.arr('qcov', (2, 2)), adascale=S.real('adascale', pos=True), qcov_adjust=S.real('adj', pos=True), burnintime=S.int('burnintime', 0),
                burnin_scale=S.real('bs', pos=True), savesize=S.int('savesize'), drscale=S.arr('drscale', (3,), pos=True), initqcovn=S.int('initn', 0), alphatarget=S.real('at'),
                etaparam=S.real('eta'), lastadapt=S.int('lastadapt', 0), printint=S.int('printint', 1), skip=S.int('skip', 1))
    us = S.choice('updatesigma', [True, False])
    o = S.new(SO)
    S.method(o, 'define_simulation_options', method='dram', updatesigma=us, savedir='d', chainfile='c', s2chainfile='s2', sschainfile='ss', covchainfile='cv', save_to_bin=True, results_filename='r', **vals)
    for k, v in vals.items():
        got = S.get(o, k)
        if S.isarr(v):
            if len(S.shape(v)) == 1:
                S.ensure_forall('users-choice-kept', (3,), lambda i: S.eq(S.item(got, i), S.item(v, i)))
            else:
                S.ensure_forall('users-choice-kept', (2, 2), lambda i, j: S.eq(S.item(got, i, j), S.item(v, i, j)))
        else:
            S.ensure('users-choice-kept', S.eq(got, v))
    S.ensure('users-updatesigma-kept', S.iff(S.truthy(S.get(o, 'updatesigma')), us))
    for k, v in dict(savedir='d', chainfile='c', s2chainfile='s2', sschainfile='ss', covchainfile='cv', results_filename='r', save_to_bin=True).items():
        S.ensure('users-file-choices-kept', S.get(o, k) == v)


def save_size(S):
    n, s, us = S.int('nsimu', 1), S.int('savesize'), S.choice('updatesigma', [True, False])
    la = S.int('lastadapt', 0)
    N0 = S.choice('N0', ['none', 'default', 'user'])
    o = S.new(SO)
    S.method(o, 'define_simulation_options', nsimu=n)
    for k, v in dict(savesize=s, nsimu=n, ntry=S.int('ntry', 1), lastadapt=la, printint=S.choice('printint', [None, 7]), adaptint=S.int('adaptint', 0), dodram=0, updatesigma=us).items():
        S.put(o, k, v)
    S.method(o, '_check_dependent_simulation_options', S.obj(MS, N0=None if N0 == 'none' else S.arr('n0', (1,)), _default_N0=N0 == 'default'))
    S.ensure('save-size-within-run-or-whole-run', S.eq(S.get(o, 'savesize'), S.ite(S.and_(1 <= s, s <= n), s, n)))
    S.ensure('run-length-kept', S.eq(S.get(o, 'nsimu'), n))
    S.ensure('last-adaptation-step-given-or-end-of-run', S.eq(S.get(o, 'lastadapt'), S.ite(la < 1, n, la)))
    S.ensure('prior-accuracy-switches-updating-on', S.iff(S.truthy(S.get(o, 'updatesigma')), us or N0 == 'user'))


def next_run(S):
    """options used for a second run: what the user gave stays, what he left open follows the new run"""
    n1, n2, l1, l2, again = S.int('nsimu1', 1), S.int('nsimu2', 1), S.int('lastadapt1', 0), S.int('lastadapt2', 0), S.choice('redefined', [False, True])
    o, md = S.new(SO), S.obj(MS, N0=None, _default_N0=False)
    S.method(o, 'define_simulation_options', nsimu=n1, lastadapt=l1)
    S.method(o, '_check_dependent_simulation_options', md)
    if again:
        S.method(o, 'define_simulation_options', nsimu=n2, lastadapt=l2)
    else:
        S.put(o, 'nsimu', n2)
    S.method(o, '_check_dependent_simulation_options', md)
    l = l2 if again else l1
    S.ensure('last-adaptation-step-given-or-end-of-this-run', S.eq(S.get(o, 'lastadapt'), S.ite(l < 1, n2, l)))
    S.ensure('save-size-within-this-run', S.and_(1 <= S.get(o, 'savesize'), S.get(o, 'savesize') <= n2))


def settings_sizes(S):
    m = S.int('nsos', 1, cmax=3)
    lens, arrs = {}, {}
    for nm in ('S20', 'N0', 'sigma2'):
        lens[nm] = m if S.choice('full_' + nm, [True, False]) else S.int('len_' + nm, 1, cmax=2)
        arrs[nm] = S.arr(nm, (lens[nm],), pos=True)
    k = S.int('len_N', 1, cmax=3)
    N = S.arr('N', (k,), dtype='i', lo=1, hi=9)
    md = S.obj(MS, S20=arrs['S20'], N0=arrs['N0'], sigma2=arrs['sigma2'], N=N, Nshape=None)
    snap = {a: S.snap(b) for a, b in arrs.items()}
    N0 = S.snap(N)
    r = S.tryrun(lambda: S.method(md, '_check_dependent_model_settings_wrt_nsos', m))
    fits = lambda a: S.or_(S.eq(a, 1), S.eq(a, m))
    ok = S.and_(fits(lens['S20']), fits(lens['N0']), fits(lens['sigma2']), S.or_(S.eq(k, 1), S.eq(k, m), S.eq(m, 1)))
    if S.raised(r):
        S.ensure('refusal-is-an-exit', r.cls == 'SystemExit')
        return S.ensure('refused-only-if-sizes-cannot-be-matched', S.not_(ok))
    S.ensure('accepted-only-if-sizes-match', ok)
    for nm in ('S20', 'N0', 'sigma2'):
        v = S.get(md, nm)
        S.ensure('one-entry-per-group', S.eq(S.len(v), m))
        S.ensure_forall('own-value-or-shared-value', (m,), lambda j: S.eq(S.item(v, j), S.item(snap[nm], S.ite(S.eq(lens[nm], 1), 0, j))))
    v = S.get(md, 'N')
    S.ensure('one-count-per-group', S.eq(S.len(v), m))
    if S.branch(S.eq(k, 1)):
        S.ensure_forall('single-count-shared', (m,), lambda j: S.eq(S.item(v, j), S.item(N0, 0)))
    elif S.branch(S.eq(m, 1)):
        S.ensure('counts-summed-for-one-group', S.eq(S.item(v, 0), S.sum(k, lambda i: S.item(N0, i))))
    else:
        S.ensure_forall('own-count-kept', (m,), lambda j: S.eq(S.item(v, j), S.item(N0, j)))


def declared_counts(S):
    u, d = S.int('nu', 1, cmax=3), S.int('nd', 1, cmax=3)
    U, D = S.arr('declared', (u,), dtype='i', lo=0, hi=1), S.arr('data', (d,), dtype='i', lo=0, hi=1)
    r = S.tryrun(lambda: S.call(MS + '._check_number_of_observations', U, D))
    n = S.max(u, d)
    at = lambda a, l, i: S.item(a, S.ite(S.eq(l, 1), 0, i))
    sizes = S.or_(S.eq(u, d), S.eq(u, 1), S.eq(d, 1))
    agree = lambda i: S.eq(at(U, u, i), at(D, d, i))
    if S.raised(r):
        S.ensure('refusal-is-an-exit', r.cls == 'SystemExit')
        if S.branch(sizes):
            S.assume_forall((n,), agree)
            S.ensure('refused-only-if-declared-counts-contradict-the-data', False)
    else:
        S.ensure('accepted-only-if-sizes-can-be-matched', sizes)
        S.ensure_forall('accepted-only-if-counts-agree', (n,), agree)
        S.ensure_forall('agreed-counts-used', (n,), lambda i: S.eq(S.item(r, i), at(U, u, i)))


def variance_defaults(S):
    """defaults for variance, prior variance and prior accuracy"""
    hs, h0, hn = S.choice('has_sigma2', [True, False]), S.choice('has_S20', [True, False]), S.choice('has_N0', [True, False])
    k = S.int('k', 1)
    s2, s20, n0 = S.arr('sigma2', (k,), pos=True), S.arr('S20', (k,), pos=True), S.arr('N0', (k,), pos=True)
    n = S.int('n', 1)
    NAN = S.mk((1,), lambda i: S.num(float('nan')))
    md = S.obj(MS, nbatch=None, N=None, _declared_N=None, N0=n0 if hn else None, sigma2=s2 if hs else None, S20=s20 if h0 else NAN, _default_N0=False)
    D = S.obj('pymcmcstat.settings.DataStructure:DataStructure', n=S.list([n]), shape=S.list([(n, 1)]))
    S.method(md, '_check_dependent_model_settings', D, S.obj(SO))
    g = lambda a: S.get(md, a)
    S.ensure('number-of-batches-from-the-data', S.eq(g('nbatch'), 1))
    S.ensure('counts-from-the-data', S.eq(S.item(g('N'), 0), n))
    one = lambda a, v: (S.ensure('single-default', S.eq(S.len(g(a)), 1)), S.ensure('default-value', S.eq(S.item(g(a), 0), v)))
    kept = lambda a, x: (S.ensure('users-value-kept', S.eq(S.len(g(a)), k)), S.ensure_forall('users-value-kept', (k,), lambda i: S.eq(S.item(g(a), i), S.item(x, i))))
    kept('N0', n0) if hn else one('N0', 1 if hs else 0)
    if hs:
        kept('sigma2', s2)
    elif h0 and hn:
        kept('sigma2', s20)
    else:
        one('sigma2', 1)
    if h0:
        kept('S20', s20)
    elif hs:
        kept('S20', s2)
    else:
        one('S20', 1)


def adapts_when_due(ntry):
    """a run adapts only with an adaptation interval and only up to the last adaptation step"""
    def c(S):
        q = simulator(S, True, ntry, adapt='due')
        S.ensure('whole-run-simulated', S.eq(S.get(q.g, 'row'), q.n - 1))
    c.__name__ = 'adapts_when_due_%dtry' % ntry
    c.symbolic_only = True
    c.cost = 5
    return c


CONTRACTS = [next_run, method_defaults, user_choices, save_size, settings_sizes, declared_counts, variance_defaults] + [adapts_when_due(k) for k in (1, 2)]
