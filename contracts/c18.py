"""C18 - credible and prediction intervals come from matching posterior rows."""
from .c05 import sampled
UP = 'pymcmcstat.propagation:'
PI = 'pymcmcstat.plotting.PredictionIntervals:PredictionIntervals'
PU = 'pymcmcstat.plotting.utilities:'
ASSUMPTIONS = ['C18: uniform draws are strictly between 0 and 1 (a draw of exactly 0 selects the last row); model responses are finite',
               'C18: scipy interp1d through the points 0..n-1 is linear interpolation between neighbouring entries',
               'C18: parameters declared local to a batch are outside the claim']


def noise(S, y, z, s2, t):
    d = z * S.sqrt(s2)
    return y + d if t == 0 else S.pow(S.sqrt(y) + d, 2) if t == 1 else y * S.exp(d)


def block(S, size):
    """the normal draws, when they were made as one block (one per entry)"""
    ds = S.draws('n')
    if len(ds) != 1:
        S.undecided('one-block-of-draws')
        return None
    S.ensure('own-noise-per-entry', S.eq(S.draw_size(ds[0]), size))
    return ds[0]


def observation(t, multi):
    def c(S):
        n = S.int('n', 1)
        y = S.arr('y', (n,), lo=0)
        s2 = S.arr('s2', (1,), lo=0) if multi else S.real('s2', 0)
        v = S.item(s2, 0) if multi else s2
        y0 = S.snap(y)
        r = S.call(UP + 'observation_sample', s2, y, t)
        S.ensure('one-observation-per-response', S.eq(S.len(r), n))
        d = block(S, n)
        if d is None:
            return
        S.ensure_forall('noise-has-the-given-variance', (n,), lambda i: S.eq(S.item(r, i), noise(S, S.item(y0, i), S.draw_item(d, i), v, t)))
        S.ensure_forall('response-not-modified', (n,), lambda i: S.eq(S.item(y, i), S.item(y0, i)))
    c.__name__ = 'observation_type%d_%s' % (t, 'vector' if multi else 'scalar')
    return c


def observation_columns(t, shared):
    """PredictionIntervals: one variance per response column, or one shared by all columns"""
    def c(S):
        n, m = S.int('n', 1), S.int('columns', 1, cmax=4)
        w = 1 if shared else m
        y = S.arr('y', (n, m), lo=0)
        s2 = S.arr('s2', (1, w), lo=0)
        y0 = S.snap(y)
        r = S.call(PI + '._observation_sample', s2, y, t)
        S.ensure('one-observation-per-response', S.and_(S.eq(S.shape(r)[0], n), S.eq(S.shape(r)[1], m)))
        d = block(S, n * m)
        if d is None:
            return
        S.ensure_forall('noise-has-the-variance-of-its-column', (n, m), lambda i, j: S.eq(S.item(r, i, j), noise(S, S.item(y0, i, j), S.draw_item(d, i, j), S.item(s2, 0, 0 if shared else j), t)))
        S.ensure_forall('response-not-modified', (n, m), lambda i, j: S.eq(S.item(y, i, j), S.item(y0, i, j)))
    c.__name__ = 'observation_columns_type%d_%s' % (t, 'shared' if shared else 'own')
    return c


def sample_rows(where):
    def c(S):
        n, k = S.int('nsimu', 1), S.int('nsample', 1)
        rows, m = S.call(where, k, n)
        ds = S.draws('u')
        for d in ds:
            S.assume_forall((S.draw_size(d),), lambda i: S.draw_item(d, i) > 0)
        S.ensure('number-of-rows', S.and_(S.eq(m, S.min(n, k)), S.eq(S.len(rows), S.min(n, k))))
        S.ensure_forall('valid-rows', (m,), lambda i: S.and_(0 <= S.item(rows, i), S.item(rows, i) < n))
        S.ensure_forall('all-rows-in-order-when-enough-are-asked-for', (m,), lambda i: S.implies(k >= n, S.eq(S.item(rows, i), i)))
    c.__name__ = 'sample_rows_' + ('method' if 'Prediction' in where else 'function')
    return c


def error_variances(S):
    n = S.int('nsimu', 2)
    S.ensure('no-variance-stays-none', S.call(UP + 'check_s2chain', None, n) is None)
    v = S.real('value', 0)
    kind = S.choice('kind', ['float', 'one', 'rows', 'row', 'matrix', 'column'])
    m = S.int('columns', 1, cmax=4)
    if kind == 'float':
        s2, look = v, lambda i, j: v
    elif kind == 'one':
        s2 = S.const_arr([v])
        look = lambda i, j: v
    elif kind == 'rows':
        s2 = S.arr('s2', (n,))
        look = lambda i, j: S.item(s2, i)
    elif kind == 'row':
        s2 = S.arr('s2', (1, m))
        look = lambda i, j: S.item(s2, 0, j)
    elif kind == 'column':
        s2 = S.arr('s2', (n, 1))
        look = lambda i, j: S.item(s2, i, 0)
    else:
        s2 = S.arr('s2', (n, m))
        look = lambda i, j: S.item(s2, i, j)
    r = S.call(UP + 'check_s2chain', s2, n)
    sh = S.shape(r)
    S.ensure('one-row-per-posterior-row', S.eq(sh[0], n))
    if len(sh) == 1:
        S.ensure_forall('variance-of-the-row', (n,), lambda i: S.eq(S.item(r, i), look(i, 0)))
    else:
        S.ensure('columns-kept', S.or_(S.eq(sh[1], 1), S.eq(sh[1], m)))
        S.ensure_forall('variance-of-the-row', (n, sh[1]), lambda i, j: S.eq(S.item(r, i, j), look(i, j)))


def levels(S):
    n = S.int('n', 1)
    L = S.arr('limits', (n,), lo=0, hi=100)
    r = S.call(UP + '_convert_limits', L)
    S.ensure('one-pair-per-level', S.eq(S.len(r), n))
    S.ensure_forall('symmetric', (n,), lambda i: S.eq(S.item(S.item(r, i), 0) + S.item(S.item(r, i), 1), 1))
    S.ensure_forall('matches-its-level', (n,), lambda i: S.eq((S.item(S.item(r, i), 1) - S.item(S.item(r, i), 0)) * 100, S.item(L, i)))


def interval_levels(S):
    """levels used by PredictionIntervals (the upper end of the 90% level is a known finding: excluded)"""
    which = S.choice('kind', [None, 's2'])
    r = S.call(PI + '._setup_interval_limits', None if which is None else S.arr('s2', (3, 1)))
    want = [.005, .025, .05, .25, .5, .75, .95, .975, .995] if which is None else [.025, .5, .975]
    S.ensure('number-of-levels', S.eq(S.len(r), len(want)))
    for i, w in enumerate(want):
        if w != .95:
            S.ensure('documented-levels', S.eq(S.item(r, i), S.num(w)))


def quantiles(where):
    def c(S):
        n, m, k = S.int('n', 1), S.int('columns', 1, cmax=3), S.int('levels', 1, cmax=4)
        if S.branch(n < 2):
            return
        x = S.arr('x', (n, m))
        x0 = S.snap(x)
        p = S.arr('p', (k,), lo=0, hi=1)

        def interp1d(S, xs, ys, axis=0, **kw):
            N, M = S.shape(ys)
            S.ensure('interpolation-points', S.eq(S.len(xs), N))
            S.ensure_forall('interpolation-points', (N,), lambda i: S.eq(S.item(xs, i), i))

            def f(S, t):
                def at(a, j):
                    i = S.floor(S.item(t, a))
                    i = S.ite(i >= N - 1, N - 2, i)
                    return S.item(ys, i, j) + (S.item(t, a) - i) * (S.item(ys, i + 1, j) - S.item(ys, i, j))
                return S.mk((S.len(t), M), at)
            return S.fn(f)
        S.ext_hook('scipy.interpolate.interp1d', interp1d)
        r = S.call(where, x, p)
        S.ensure('one-row-per-level', S.and_(S.eq(S.shape(r)[0], k), S.eq(S.shape(r)[1], m)))
        o = S.sorted(x0)
        for a in S.some('level', k):
            for j in S.some('column', m):
                t = S.item(p, a) * (n - 1)
                i = S.floor(t)
                i = S.ite(i >= n - 1, n - 2, i)
                S.ensure('interpolated-order-statistics', S.eq(S.item(r, a, j), S.item(o, i, j) + (t - i) * (S.item(o, i + 1, j) - S.item(o, i, j))))
        S.ensure_forall('input-not-modified', (n, m), lambda i, j: S.eq(S.item(x, i, j), S.item(x0, i, j)))
    c.__name__ = 'quantiles_' + ('plotting' if 'plotting' in where else 'propagation')
    return c


def OBS(S, s2, y, t, n):
    """stands for the noisy response drawn for (variance, response, type): a tag for what it was drawn from"""
    return S.ufun('obs%d' % t, [s2, y], n)


def propagate(kind, t=0):
    """model at a posterior row, noise with the variance of that row (one response column)"""
    def c(S):
        n, N, m = S.int('n', 1), S.int('nsimu', 2), S.int('m', 1)
        p, ind = sampled(S, n)
        theta, chain = S.arr('theta', (n,)), S.arr('chain', (N, p))
        th0, ch0 = S.snap(theta), S.snap(chain)
        k = S.int('k', 1)
        S.assume(k <= N)
        rows = S.arr('rows', (k,), dtype='i', lo=0, hi=N - 1)
        S.summary(UP + 'define_sample_points', lambda S, env: (rows, k))
        S.summary(UP + 'check_s2chain', lambda S, env: env['s2chain'])
        S.summary(UP + 'observation_sample', lambda S, env: OBS(S, S.vec(env['s2'], 0), env['y'], t, m))
        s2 = None if kind == 'none' else S.arr('s2', (N,) if kind == 'rows' else (N, 1), lo=0)
        data = S.obj(None)
        y = lambda q: S.ufun('y', [q], m)

        def model(S, q, d):
            S.ensure('model-gets-the-data', S.same_obj(d, data))
            return y(q)
        S.loop_inv('others', lambda S, env, k: [((n,), lambda j, v=v: S.or_(S.member(ind, j), S.eq(S.item(v, j), S.item(th0, j))), nm) for nm, v in S.kinds(env)[1]])
        r = S.call(UP + 'calculate_intervals', chain, S.dict(dict(parind=ind, theta=theta)), data, S.fn(model), s2, S.int('nsample', 1), False, t)
        cr, pr = S.item(r, 'credible'), S.item(r, 'prediction')
        S.ensure('one-prediction-per-sample', S.and_(S.eq(S.shape(cr)[0], k), S.eq(S.shape(cr)[1], m)))
        for a in S.some('sample', k):
            row = S.item(rows, a)
            q = S.mk((n,), lambda j: S.ite(S.member(ind, j), S.item(ch0, row, S.rank(ind, j)), S.item(th0, j)))
            S.ensure_forall('credible-is-model-at-row', (m,), lambda i: S.eq(S.item(cr, a, i), S.item(y(q), i)))
            if s2 is None:
                S.ensure('no-prediction-without-error-variance', pr is None)
            else:
                v = S.item(s2, row) if kind == 'rows' else S.item(s2, row, 0)
                S.ensure_forall('prediction-has-variance-of-same-row', (m,), lambda i: S.eq(S.item(pr, a, i), S.item(OBS(S, v, S.mk((m,), lambda e: S.item(cr, a, e)), t, m), i)))
        S.ensure_forall('chain-not-modified', (N, p), lambda i, j: S.eq(S.item(chain, i, j), S.item(ch0, i, j)))
        S.ensure_forall('reported-theta-not-modified', (n,), lambda j: S.eq(S.item(theta, j), S.item(th0, j)))
    c.__name__ = 'propagate_%s' % kind
    c.symbolic_only = True
    return c


def propagate_columns(kind, t=0, w=2):
    """the same for a model with several response columns (2): noise with the variance of row and column"""
    def c(S):
        n, N, m = S.int('n', 1), S.int('nsimu', 3), S.int('m', 2)
        p, ind = sampled(S, n)
        theta, chain = S.arr('theta', (n,)), S.arr('chain', (N, p))
        th0, ch0 = S.snap(theta), S.snap(chain)
        k = S.int('k', 1)
        S.assume(k <= N)
        rows = S.arr('rows', (k,), dtype='i', lo=0, hi=N - 1)
        S.summary(UP + 'define_sample_points', lambda S, env: (rows, k))
        S.summary(UP + 'check_s2chain', lambda S, env: env['s2chain'])
        S.summary(UP + 'observation_sample', lambda S, env: OBS(S, S.vec(env['s2'], 0), env['y'], t, m))
        s2 = None if kind == 'none' else S.arr('s2', (N,) if kind == 'rows' else (N, w if kind == 'columns' else 1), lo=0)
        data = S.obj(None)
        S.peel()

        def y(q):
            f = [S.ufun('y%d' % j, [q], m) for j in range(w)]
            return S.mk((m, w), lambda i, j: S.item(f[0], i) if w == 1 else S.ite(S.eq(j, 0), S.item(f[0], i), S.item(f[1], i)))

        def model(S, q, d):
            S.ensure('model-gets-the-data', S.same_obj(d, data))
            return y(q)
        S.loop_inv('others', lambda S, env, k: [((n,), lambda j, v=v: S.or_(S.member(ind, j), S.eq(S.item(v, j), S.item(th0, j))), nm) for nm, v in S.kinds(env)[1]])
        r = S.call(UP + 'calculate_intervals', chain, S.dict(dict(parind=ind, theta=theta)), data, S.fn(model), s2, S.int('nsample', 1), False, t)
        S.ensure('one-entry-per-response', S.eq(S.len(r), w))
        for c in range(w):
            cr, pr = S.item(S.item(r, c), 'credible'), S.item(S.item(r, c), 'prediction')
            S.ensure('one-prediction-per-sample', S.and_(S.eq(S.shape(cr)[0], k), S.eq(S.shape(cr)[1], m)))
            for a in S.some('sample%d' % c, k):
                S.branch(S.eq(a, 0))
                row = S.item(rows, a)
                q = S.mk((n,), lambda j: S.ite(S.member(ind, j), S.item(ch0, row, S.rank(ind, j)), S.item(th0, j)))
                S.ensure_forall('credible-is-model-at-row', (m,), lambda i: S.eq(S.item(cr, a, i), S.item(y(q), i, c)))
                if s2 is None:
                    S.ensure('no-prediction-without-error-variance', pr is None)
                else:
                    v = S.item(s2, row) if kind == 'rows' else S.item(s2, row, c if kind == 'columns' else 0)
                    S.ensure_forall('prediction-has-variance-of-same-row', (m,), lambda i: S.eq(S.item(pr, a, i), S.item(OBS(S, v, S.mk((m,), lambda e: S.item(cr, a, e)), t, m), i)))
        S.ensure_forall('chain-not-modified', (N, p), lambda i, j: S.eq(S.item(chain, i, j), S.item(ch0, i, j)))
        S.ensure_forall('reported-theta-not-modified', (n,), lambda j: S.eq(S.item(theta, j), S.item(th0, j)))
    c.__name__ = 'propagate_columns_%s' % kind
    c.symbolic_only = True
    return c


def batch_predictions(kind):
    """one data batch of PredictionIntervals: model at every sampled row, noise with the variances of that row"""
    def c(S):
        n, k, m, w = S.int('n', 1), S.int('k', 1), S.int('m', 1), S.int('w', 1, cmax=3)
        p, ind = sampled(S, n)
        theta, test = S.arr('theta', (n,)), S.arr('chain', (k, p))
        th0, ch0 = S.snap(theta), S.snap(test)
        data = S.obj(None)

        def y(q):
            f = S.ufun('y', [q], m * w)
            return S.mk((m, w), lambda i, j: S.item(f, i * w + j))

        def model(S, d, q):
            S.ensure('model-gets-its-own-batch', S.same_obj(d, data))
            return y(q)
        o = S.obj(PI, _PredictionIntervals__theta=theta, _PredictionIntervals__parind=ind)
        S.loop_inv('others', lambda S, env, k: [((n,), lambda j, v=v: S.or_(S.member(ind, j), S.eq(S.item(v, j), S.item(th0, j))), nm) for nm, v in S.kinds(env)[1]])
        every = S.mk((n,), lambda j: True, 'b')
        if kind == 'credible':
            cr = S.method(o, '_calc_credible_ii', test, m, w, False, every, S.fn(model), data)
        else:
            s2 = S.arr('s2', (k, w), lo=0)

            def obs(S, env):
                f = S.ufun('obs', [env['s2elem'], env['ypred']], m * w)
                return S.mk((m, w), lambda i, j: S.item(f, i * w + j))
            S.summary(PI + '._observation_sample', obs)
            cr, pr = S.method(o, '_calc_credible_and_prediction_ii', test, s2, m, w, False, 0, every, S.fn(model), data)
        for a in S.some('sample', k):
            q = S.mk((n,), lambda j: S.ite(S.member(ind, j), S.item(ch0, a, S.rank(ind, j)), S.item(th0, j)))
            S.ensure_forall('credible-is-model-at-row', (m, w), lambda i, j: S.eq(S.item(cr, a, i, j), S.item(y(q), i, j)))
            if kind != 'credible':
                f = obs(S, dict(s2elem=S.mk((1, w), lambda i, j: S.item(s2, a, j)), ypred=S.mk((m, w), lambda i, j: S.item(cr, a, i, j))))
                S.ensure_forall('prediction-has-variances-of-same-row', (m, w), lambda i, j: S.eq(S.item(pr, a, i, j), S.item(f, i, j)))
        S.ensure_forall('chain-not-modified', (k, p), lambda i, j: S.eq(S.item(test, i, j), S.item(ch0, i, j)))
    c.__name__ = 'batch_' + kind
    c.symbolic_only = True
    return c


def variance_columns(S):
    """which error-variance columns belong to which batch (3 batches)"""
    nb = 3
    cols = [S.int('cols%d' % b, 1, cmax=3) for b in range(nb)]
    w = S.int('width', 1, cmax=8)
    r = S.tryrun(lambda: S.call(PI + '._analyze_s2chain', nb, S.arr('s2', (4, w)), S.list(cols)))
    tot = cols[0] + cols[1] + cols[2]
    if S.raised(r):
        S.ensure('refusal-is-an-exit', r.cls == 'SystemExit')
        return S.ensure('refused-only-when-no-assignment-fits', S.and_(S.not_(S.eq(w, 1)), S.not_(S.eq(w, tot)), S.not_(S.eq(w, nb))))
    S.ensure('accepted-only-when-an-assignment-fits', S.or_(S.eq(w, 1), S.eq(w, tot), S.eq(w, nb)))
    off = 0
    for b in range(nb):
        lo, hi = S.item(r, b, 0), S.item(r, b, 1)
        percol = S.and_(S.eq(w, tot), S.not_(S.eq(w, 1)))
        S.ensure('shared-variance-used-by-every-batch', S.implies(S.eq(w, 1), S.and_(S.eq(lo, 0), S.eq(hi, 1))))
        S.ensure('own-columns-per-response', S.implies(percol, S.and_(S.eq(lo, off), S.eq(hi, off + cols[b]))))
        S.ensure('own-column-per-batch', S.implies(S.and_(S.not_(S.eq(w, 1)), S.not_(S.eq(w, tot))), S.and_(S.eq(lo, b), S.eq(hi, b + 1))))
        off = off + cols[b]


def after_burnin(S):
    """rows after the burn-in, the same for chain and error variances"""
    N, p, m, b = S.int('nsimu', 1), S.int('p', 1), S.int('m', 1, cmax=3), S.int('burnin', 0)
    S.assume(b < N)
    ch, s2, th = S.arr('chain', (N, p)), S.arr('s2', (N, m)), S.arr('theta', (p,))
    t = S.choice('sstype', [None, 0, 1, 2])
    res = dict(chain=ch, s2chain=s2, parind=S.arr('ind', (p,), dtype='i', lo=0, hi=5), local=S.arr('loc', (p,), lo=0, hi=0), model_settings=S.dict(dict(nbatch=1)), theta=th)
    if t is not None:
        res['sstype'] = t
    o = S.obj(PI)
    S.method(o, '_assign_features_from_results_structure', S.dict(res), b)
    g = lambda k: S.get(o, '_PredictionIntervals__' + k)
    S.ensure('rows-after-burn-in', S.and_(S.eq(S.shape(g('chain'))[0], N - b), S.eq(S.shape(g('s2chain'))[0], N - b)))
    S.ensure_forall('posterior-rows-after-burn-in', (N - b, p), lambda i, j: S.eq(S.item(g('chain'), i, j), S.item(ch, b + i, j)))
    S.ensure_forall('error-variances-of-the-same-rows', (N - b, m), lambda i, j: S.eq(S.item(g('s2chain'), i, j), S.item(s2, b + i, j)))
    S.ensure_forall('reported-parameter-vector', (p,), lambda j: S.eq(S.item(g('theta'), j), S.item(th, j)))
    r = S.method(o, '_setup_sstype', None)
    S.ensure('transformation-of-the-run', S.eq(r, 0 if t is None else t))
    S.ensure('explicit-normal-transformation', S.eq(S.method(o, '_setup_sstype', 0), 0))


def several_batches(kind):
    """every batch gets its own data, model, response size and error variances (2 batches)"""
    def c(S):
        k, p, N, w = S.int('k', 1), S.int('p', 1), S.int('nsimu', 1), 5
        D = S.list([S.obj(None, tag=b) for b in range(2)])
        F = [S.fn(lambda S, d, q: None) for _ in range(2)]
        own = S.choice('models', [True, False])
        test, s2 = S.arr('test', (k, p)), S.arr('s2', (N, w))
        rows = S.arr('rows', (k,), dtype='i', lo=0, hi=N - 1)
        nrow, ncol = [3, 4], [1, 2]
        index = S.const_arr([[1, 2], [2, 4]], 'i')
        lims = S.arr('lims', (3,))
        loc = S.arr('loc', (p,), lo=0, hi=0)
        seen, made = [], {}

        def calc(S, env):
            b = len(seen)
            seen.append({k: (S.snap(v) if S.isarr(v) else v) for k, v in env.items()})
            made['y%d' % b] = S.arr('y%d' % b, (k, nrow[b % 2], ncol[b % 2]))
            made['o%d' % b] = S.arr('o%d' % b, (k, nrow[b % 2], ncol[b % 2]))
            return made['y%d' % b] if kind == 'credible' else (made['y%d' % b], made['o%d' % b])
        S.summary(PI + ('._calc_credible_ii' if kind == 'credible' else '._calc_credible_and_prediction_ii'), calc)
        got = []

        def quant(S, env):
            got.append((S.snap(env['response']), env['ncol']))
            return len(got) - 1
        S.summary(PI + '._generate_quantiles', quant)
        o = S.obj(PI, datapred=D, modelfunction=S.list(F) if own else F[0], _PredictionIntervals__nrow=S.list(nrow), _PredictionIntervals__ncol=S.list(ncol),
                  _PredictionIntervals__local=loc, _PredictionIntervals__s2chain_index=index, _PredictionIntervals__ndatabatches=2)
        if kind == 'credible':
            r = S.method(o, '_calculate_ci_for_data_sets', test, False, lims)
        else:
            r = S.method(o, '_calculate_ci_and_pi_for_data_sets', test, s2, rows, False, 0, lims)
        S.ensure('one-calculation-per-batch', len(seen) == 2)
        for b, e in enumerate(seen):
            S.ensure('own-data', S.eq(S.get(e['datapredii'], 'tag'), b))
            S.ensure('own-response-size', S.and_(S.eq(e['nrow'], nrow[b]), S.eq(e['ncol'], ncol[b])))
            S.ensure('own-model', e['modelfun'] is F[b if own else 0])
            S.ensure_forall('sampled-rows', (k, p), lambda i, j: S.eq(S.item(e['testchain'], i, j), S.item(test, i, j)))
            if kind != 'credible':
                lo = [1, 2][b]
                S.ensure_forall('error-variances-of-the-sampled-rows-and-own-columns', (k, ncol[b]), lambda i, j: S.eq(S.item(e['tests2chain'], i, j), S.item(s2, S.item(rows, i), lo + j)))
        parts = [('y', r)] if kind == 'credible' else [('y', r[0]), ('o', r[1])]
        for nm, lst in parts:
            S.ensure('one-result-per-batch', S.eq(S.len(lst), 2))
            for b in range(2):
                x, nc = got[next(q for q in range(len(got)) if S.valid(S.eq(S.item(lst, b), q)))]
                S.ensure('quantiles-of-its-own-batch', S.eq(nc, ncol[b]))
                S.ensure_forall('quantiles-of-its-own-batch', (k, nrow[b], ncol[b]), lambda i, a, j: S.eq(S.item(x, i, a, j), S.item(made['%s%d' % (nm, b)], i, a, j)))
    c.__name__ = 'several_batches_' + kind
    c.symbolic_only = True
    return c


CONTRACTS = [batch_predictions('credible'), batch_predictions('prediction'), variance_columns, after_burnin, several_batches('credible'), several_batches('prediction')] + [propagate_columns('none'), propagate_columns('rows'), propagate_columns('columns'), propagate_columns('shared')] + [propagate('none'), propagate('rows'), propagate('column')] + [observation(t, m) for t in (0, 1, 2) for m in (False, True)] + [observation_columns(t, m) for t in (0, 1, 2) for m in (False, True)] + \
    [sample_rows(UP + 'define_sample_points'), sample_rows(PI + '._define_sample_points'), error_variances, levels, interval_levels,
     quantiles(UP + 'generate_quantiles'), quantiles(PU + 'empirical_quantiles')]
