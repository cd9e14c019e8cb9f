import numpy as np


class Fixed:
    """every standard normal draw is the same constant: the outcome does not depend on drawing order"""

    def __init__(self, c):
        self.c, self.count = c, 0

    def __enter__(self):
        self.old = {k: getattr(np.random, k) for k in ('standard_normal', 'randn', 'normal')}
        me = self

        def arr(shape):
            me.count += int(np.prod(shape)) if shape is not None and np.shape(shape) != () or shape == () else 1 if shape is None else int(shape)
            return me.c if shape is None else np.full(shape, me.c)
        np.random.standard_normal = lambda size=None: arr(size)
        np.random.randn = lambda *a: arr(a if a else None)
        np.random.normal = lambda loc=0., scale=1., size=None: loc + scale * arr(size if size is not None else (np.broadcast(loc, scale).shape or None))
        return self

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(np.random, k, v)


def noisy(y, s2, c, t):
    d = c * np.sqrt(s2)
    return y + d if t == 0 else (np.sqrt(y) + d) ** 2 if t == 1 else y * np.exp(d)


def posterior(s, total=None):
    r = s.r
    nsimu = r.choice([2, 3, 7, 30])
    ntheta = r.choice([1, 2, 3, 4])
    ns = r.randint(1, ntheta)
    ind = sorted(r.sample(range(ntheta), ns))
    theta = np.array([round(r.random() + .5, 3) for _ in range(ntheta)])
    chain = s.np.rand(nsimu, ns) + .5
    return nsimu, ind, theta, chain


def mk_model(s, rows, cols, twod):
    W = s.np.rand(rows, cols) + .2

    def f(q):
        q = np.asarray(q, dtype=float)
        y = np.zeros((rows, cols))
        for j in range(cols):
            y[:, j] = W[:, j] * (1 + q[0]) + np.sum((np.arange(q.size) + 1 + j) * q) * .1 + .05 * np.arange(rows) * q[-1]
        return y if twod else y[:, 0]
    return f


def propagation(s):
    from pymcmcstat import propagation as up
    r = s.r
    nsimu, ind, theta, chain = posterior(s)
    twod = r.random() < .6
    rows = r.choice([2, 3, 6])
    cols = r.choice([1, 2, 3]) if twod else 1
    multi = twod and cols > 1
    f = mk_model(s, rows, cols, twod)
    data = object()
    calls = []

    def model(q, d):
        calls.append((np.array(q, copy=True), d))
        return f(q)
    kind = r.choice(['none', 'float', 'one', 'rows1d', 'rows2d1', 'cols', 'fixedcols'])
    if kind in ('cols', 'fixedcols') and not multi:
        kind = 'rows2d1'
    if kind == 'fixedcols' and cols == nsimu:
        kind = 'cols'
    if kind == 'one' and nsimu == 1:
        kind = 'float'
    base = s.np.rand(nsimu, cols) * .05 + .01
    if kind == 'none':
        s2, look = None, None
    elif kind == 'float':
        s2, look = .03, lambda i, j: .03
    elif kind == 'one':
        s2, look = np.array([.04]), lambda i, j: .04
    elif kind == 'rows1d':
        s2, look = base[:, 0].copy(), lambda i, j: base[i, 0]
    elif kind == 'rows2d1':
        s2, look = base[:, :1].copy(), lambda i, j: base[i, 0]
    elif kind == 'cols':
        s2, look = base.copy(), lambda i, j: base[i, j]
    else:
        s2, look = base[0].copy(), lambda i, j: base[0, j]
        if r.random() < .5:
            s2 = s2.reshape(1, -1)
    t = r.choice([0, 0, 1, 2])
    nsample = r.choice([1, 2, nsimu - 1, nsimu, nsimu + 1, 5, 500])
    nsample = max(1, nsample)
    pin = r.choice([lambda x: list(x), lambda x: np.array(x)])(ind)
    res = dict(parind=pin, theta=r.choice([lambda x: list(x), lambda x: x.copy()])(theta))
    keep = (chain.copy(), None if s2 is None else np.array(s2, copy=True), np.array(res['theta'], copy=True))
    s.desc = dict(nsimu=nsimu, ind=ind, theta=theta, kind=kind, nsample=nsample, sstype=t, shape=(rows, cols, twod), seed=s.seed)
    c = r.choice([.7, -1.3, 2.])
    with Fixed(c) as fx:
        out = up.calculate_intervals(chain, res, data, model, s2chain=s2, nsample=nsample, waitbar=False, sstype=t)
    s.same('chain-not-modified', chain, keep[0])
    if s2 is not None:
        s.same('s2chain-not-modified', s2, keep[1])
    s.same('reported-theta-not-modified', res['theta'], keep[2])
    k = min(nsample, nsimu)
    outs = out if isinstance(out, list) else [out]
    s.check('one-entry-per-response', len(outs) == (cols if multi else 1), len(outs))
    if not s.check('one-prediction-per-sample', len(calls) == k and all(o['credible'].shape[0] == k for o in outs), (len(calls), k)):
        return
    rowsused = []
    for q, d in calls:
        s.check('model-gets-the-data', d is data)
        m = [i for i in range(nsimu) if np.array_equal(q[ind], chain[i])]
        if not s.check('sampled-entries-from-a-posterior-row', bool(m), q):
            return
        o = [j for j in range(theta.size) if j not in ind]
        s.check('other-entries-at-reported-values', np.array_equal(q[o], theta[o]), q)
        rowsused.append(m[0])
    if nsample >= nsimu:
        s.check('all-rows-used-in-order', rowsused == list(range(nsimu)), rowsused)
    for j, o in enumerate(outs):
        Y = np.array([f(q).reshape(rows, -1)[:, j] if multi else f(q).reshape(-1) for q, _ in calls])
        s.close('credible-is-model-at-row', o['credible'], Y)
        if s2 is None:
            s.check('no-prediction-without-error-variance', o['prediction'] is None)
        else:
            s.close('prediction-noise-has-variance-of-same-row', o['prediction'], np.array([noisy(Y[a], look(i, j), c, t) for a, i in enumerate(rowsused)]), detail=(kind, t))
    if s2 is not None:
        s.check('every-entry-has-its-own-noise', fx.count >= k * rows * cols, (fx.count, k * rows * cols))
    # quantiles
    x = s.np.randn(r.choice([2, 3, 10, 41]), r.choice([1, 4]))
    x0 = x.copy()
    p = np.sort(s.np.rand(r.choice([1, 3])))
    g = up.generate_quantiles(x, p)
    s.close('quantiles-interpolate-order-statistics', g, np.quantile(x0, p, axis=0))
    s.same('quantile-input-not-modified', x, x0)


def batches(s, t='none', lims=None, onlyci=None):
    """PredictionIntervals over one or more data batches"""
    from pymcmcstat.plotting.PredictionIntervals import PredictionIntervals
    from pymcmcstat.settings.DataStructure import DataStructure
    r = s.r
    nsimu, ind, theta, chain = posterior(s)
    nb = r.choice([1, 1, 2, 3])
    data = DataStructure()
    fs, shp, udo = [], [], []
    for b in range(nb):
        rows = r.choice([2, 3, 5])
        cols = r.choice([1, 1, 2, 3])
        x = s.np.rand(rows)
        y = s.np.rand(rows, cols)
        udo.append('batch%d' % b)
        data.add_data_set(x, y, user_defined_object='batch%d' % b)
        twod = cols > 1 or r.random() < .5
        fs.append(mk_model(s, rows, cols, twod))
        shp.append((rows, cols))
    burn = r.choice([0, 0, 1, nsimu // 2])
    if nsimu - burn < 2:
        burn = 0
    ncols = [c for _, c in shp]
    kinds = ['none', 'shared']
    kinds += ['percol'] if sum(ncols) > 1 else []
    kinds += ['perbatch'] if nb > 1 and sum(ncols) != nb else []
    kind = r.choice(kinds) if onlyci is None else ('none' if onlyci else r.choice(kinds[1:]))
    w = {'none': 1, 'shared': 1, 'percol': sum(ncols), 'perbatch': nb}[kind]
    s2 = s.np.rand(nsimu, w) * .05 + .01
    off = np.concatenate(([0], np.cumsum(ncols)))

    def look(i, b, j):
        return s2[i, {'shared': 0, 'percol': off[b] + j, 'perbatch': b}[kind]]
    calls = []

    def wrap(b):
        def m(d, th):
            k = int(d.user_defined_object[0][5:])
            calls.append((k, b, np.array(th, copy=True), d))
            return fs[k](th)
        return m
    models = [wrap(b) for b in range(nb)] if r.random() < .4 else wrap(None)
    rs = r.choice([None, 0, 1, 2]) if t == 'none' else r.choice([None, 0, 0, 1, 2])
    res = dict(chain=chain, s2chain=None if kind == 'none' else s2, parind=np.array(ind), local=np.zeros(theta.size),
               model_settings=dict(nbatch=nb), theta=theta.copy())
    if rs is not None:
        res['sstype'] = rs
    keep = chain.copy(), s2.copy(), theta.copy()
    nsample = r.choice([None, 2, nsimu, 500]) if nsimu - burn > 2 else 500
    calc = r.choice([True, True, False, 'on', 'off']) if kind != 'none' else True
    s.desc = dict(nsimu=nsimu, ind=ind, theta=theta, kind=kind, nsample=nsample, results_sstype=rs, shapes=shp, calc=calc, burn=burn, seed=s.seed, explicit=t)
    PI = PredictionIntervals()
    PI.setup_prediction_interval_calculation(res, data, models, burnin=burn)
    calls.clear()
    c = r.choice([.7, -1.3, 2.])
    kw = {} if t == 'none' else dict(sstype=t)
    with Fixed(c) as fx:
        PI.generate_prediction_intervals(nsample=nsample, calc_pred_int=calc, **kw)
    s.same('chain-not-modified', chain, keep[0])
    s.same('s2chain-not-modified', s2, keep[1])
    s.same('reported-theta-not-modified', res['theta'], keep[2])
    n = nsimu - burn
    k = n if nsample is None else min(n, nsample)
    o = [j for j in range(theta.size) if j not in ind]
    used = [[] for _ in range(nb)]
    for q, b, th, d in calls:
        s.check('model-of-its-own-batch', b is None or b == q, (q, b))
        m = [i for i in range(burn, nsimu) if np.array_equal(th[ind], chain[i])]
        if not s.check('sampled-entries-from-a-posterior-row', bool(m), th):
            return
        s.check('other-entries-at-reported-values', np.array_equal(th[o], theta[o]), th)
        used[q].append(m[0])
    wantpi = kind != 'none' and calc in (True, 'on')
    ci, pi = PI.intervals['credible_intervals'], PI.intervals['prediction_intervals']
    s.check('prediction-intervals-iff-requested', (pi is not None) == wantpi)
    lv = np.array([.025, .5, .975]) if wantpi else np.array([.005, .025, .05, .25, .5, .75, .95, .975, .995])
    nt = 0
    for b in range(nb):
        if not s.check('one-prediction-per-sample', len(used[b]) == k, (len(used[b]), k)):
            return
        if k == n:
            s.check('all-rows-used-in-order', used[b] == list(range(burn, nsimu)))
        q0 = [cc[2] for cc in calls if cc[0] == b]
        Y = np.array([fs[b](th).reshape(shp[b]) for th in q0])
        for j in range(shp[b][1]):
            if lims is not None:
                lims(s, ci[b][j], Y[:, :, j], wantpi)
                continue
            E = np.quantile(Y[:, :, j], lv, axis=0)
            G = np.array(ci[b][j])
            sel = [i for i in range(len(lv)) if lv[i] != .95]
            s.check('number-of-levels', G.shape == E.shape, (G.shape, E.shape))
            s.close('credible-quantiles', G[sel], E[sel], rtol=1e-7)
            s.check('quantiles-increase-with-level', bool(np.all(np.diff(G, axis=0) >= -1e-12)))
            if wantpi:
                tt = rs or 0 if t == 'none' else t
                O = lambda tt: np.quantile(np.array([noisy(Y[a, :, j], look(i, b, j), c, tt) for a, i in enumerate(used[b])]), lv, axis=0)
                got = np.array(pi[b][j])
                if t in ('none', 0):
                    s.close('prediction-noise-has-variance-of-same-row', got, O(tt), detail=(kind, tt))
                elif not np.allclose(got, O(tt), rtol=1e-7):
                    s.check('explicit-sstype-ignored-type-0-used' if np.allclose(got, O(0), rtol=1e-7) else 'prediction-noise-of-explicit-sstype', False, (t, rs))
                nt += k * shp[b][0]
    s.check('every-entry-has-its-own-noise', fx.count >= nt, (fx.count, nt))


def prediction_intervals(s):
    batches(s)


def explicit_type_zero(s):
    batches(s, t=0)


explicit_type_zero.weight = .3


def explicit_type(s):
    batches(s, t=s.r.choice([1, 2]), onlyci=False)


explicit_type.runs = 40


def credible_level_95(s):
    def lims(s, ci, Y, wantpi):
        if wantpi or len(ci) != 9:
            return
        g = np.array(ci[6])
        if np.allclose(g, np.quantile(Y, .95, axis=0), rtol=1e-7):
            s.check('upper-90-percent-level', True)
        else:
            s.check('upper-90-percent-level-is-0.9-quantile' if np.allclose(g, np.quantile(Y, .9, axis=0), rtol=1e-7) else 'upper-90-percent-level', False)
    batches(s, lims=lims, onlyci=True)


credible_level_95.runs = 40


def limits_conversion(s):
    from pymcmcstat import propagation as up
    L = [s.r.choice([50, 90, 95, 99, 99.5, 10, 0, 100]) for _ in range(s.r.choice([1, 2, 4]))]
    L0 = list(L)
    q = up._convert_limits(L)
    for l, (a, b) in zip(L0, q):
        s.close('levels-symmetric-and-match', [a + b, b - a], [1., l / 100])


limits_conversion.runs = 20


def bands(ax):
    """label -> (lower edge, upper edge) of the filled bands of a drawing, by abscissa"""
    out = {}
    for col in ax.collections:
        v = np.vstack([q.vertices for q in col.get_paths()])
        xs = np.unique(v[:, 0])
        out.setdefault(col.get_label(), []).append((xs, np.array([v[v[:, 0] == x, 1].min() for x in xs]), np.array([v[v[:, 0] == x, 1].max() for x in xs])))
    return out


def level(label):
    return float(label.split('%')[0]) / 100, label.split()[-1]


def drawn_bands(s):
    """the bands drawn are the quantile bands their labels announce (propagation.plot_intervals)"""
    from pymcmcstat import propagation as up
    import matplotlib.pyplot as plt
    r = s.r
    n, m = r.choice([5, 20]), r.choice([2, 4])
    cred, pred = s.np.rand(n, m), s.np.rand(n, m) * 3
    t = np.sort(s.np.rand(m))
    some = lambda: r.sample([50, 90, 95, 99, 99.5, 10, 66], r.choice([1, 2, 3]))
    kw = {}
    ci = pi = [95]
    if r.random() < .5:
        ci = pi = kw['limits'] = some()
    if r.random() < .5:
        ci = some()
        kw['ciset'] = dict(limits=list(ci))
    if r.random() < .5:
        pi = some()
        kw['piset'] = dict(limits=list(pi))
    kw = {k: (list(v) if isinstance(v, list) else v) for k, v in kw.items()}
    s.desc = dict(n=n, m=m, settings=kw)
    try:
        fig, ax = up.plot_intervals(dict(credible=cred, prediction=pred), t, **kw)[:2]
        B = bands(ax)
        for k, L, Y in (('CI', ci, cred), ('PI', pi, pred)):
            got = sorted(level(l)[0] for l in B if level(l)[1] == k)
            s.check('one-band-per-level', np.allclose(got, sorted(x / 100 for x in L)) if len(got) == len(L) else False, (k, got, L))
            for l in B:
                f, kk = level(l)
                if kk == k:
                    s.close('drawn-band-matches-its-label', [B[l][0][1], B[l][0][2]], np.quantile(Y, [.5 - f / 2, .5 + f / 2], axis=0), rtol=1e-6, atol=1e-8, detail=l)
    finally:
        plt.close('all')


drawn_bands.runs = 40


def drawn_bands_of_batches(s):
    """the same for PredictionIntervals.plot_prediction_intervals (upper edge of 90%: see known finding on that level)"""
    from pymcmcstat.plotting.PredictionIntervals import PredictionIntervals
    from pymcmcstat.settings.DataStructure import DataStructure
    import matplotlib.pyplot as plt
    r = s.r
    nb, cols = r.choice([1, 2]), r.choice([1, 2])
    rows, nsimu = r.choice([2, 4]), r.choice([5, 30])
    data = DataStructure()
    for b in range(nb):
        data.add_data_set(np.sort(s.np.rand(rows)), s.np.rand(rows, cols), user_defined_object=b)
    chain = s.np.rand(nsimu, 2)
    W = s.np.rand(nb, rows, cols) + .2
    used = [[] for _ in range(nb)]

    def model(d, th):
        b = d.user_defined_object[0]
        y = W[b] * th[0] + th[1]
        used[b].append(y)
        return y
    s2 = None if r.random() < .6 else s.np.rand(nsimu, 1) * .1 + .05
    res = dict(chain=chain, s2chain=s2, parind=np.array([0, 1]), local=np.zeros(2), model_settings=dict(nbatch=nb), theta=chain[-1].copy())
    PI = PredictionIntervals()
    PI.setup_prediction_interval_calculation(res, data, model)
    for u in used:
        u.clear()
    with Fixed(.8):
        PI.generate_prediction_intervals(nsample=None)
    try:
        figs, axs = PI.plot_prediction_intervals(plot_pred_int=True)
        s.check('one-drawing-per-batch-and-response', len(axs) == nb * cols, len(axs))
        q = 0
        for b in range(nb):
            Y = np.array(used[b][:nsimu])
            for j in range(cols):
                B = bands(axs[q])
                q += 1
                labs = {'99% CI', '95% CI', '90% CI', '50% CI'} if s2 is None else {'95% CI', '95% PI'}
                s.check('one-band-per-level', set(B) == labs, sorted(B))
                for l in B:
                    f, k = level(l)
                    E = Y[:, :, j] if k == 'CI' else Y[:, :, j] + .8 * np.sqrt(s2)
                    G = np.array([B[l][0][1], B[l][0][2]])
                    E = np.quantile(E, [.5 - f / 2, .5 + f / 2], axis=0)
                    s.close('drawn-band-matches-its-label', G[:1] if f == .9 else G, E[:1] if f == .9 else E, rtol=1e-6, atol=1e-8, detail=l)
    finally:
        plt.close('all')


drawn_bands_of_batches.runs = 40
SCENARIOS = [propagation, prediction_intervals, explicit_type_zero, explicit_type, credible_level_95, limits_conversion, drawn_bands, drawn_bands_of_batches]
