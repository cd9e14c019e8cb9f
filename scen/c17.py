import numpy as np
import scipy.stats

GEN = ['zero', 'normal', 'walk', 'ar', 'uniform', 'mixture', 'scaled', 'repeat']


def chain(s, n, p):
    out = np.zeros((n, p))
    for j in range(p):
        k = s.r.choice(GEN)
        e = s.np.randn(n)
        if k == 'zero':
            e = np.zeros(n)
        elif k == 'walk':
            e = np.cumsum(e)
        elif k == 'ar':
            for i in range(1, n):
                e[i] += .8 * e[i - 1]
        elif k == 'uniform':
            e = s.np.rand(n)
        elif k == 'mixture':
            e = e + 5 * (s.np.rand(n) < .3)
        elif k == 'scaled':
            e = 1e4 + 1e3 * e
        elif k == 'repeat':
            e = np.repeat(e, 3)[:n]
        out[:, j] = e
    return out


def bmstd(c, b):
    n, p = c.shape
    nb = n // b
    m = [sum(c[i, j] for i in range(n)) / n for j in range(p)]
    out = []
    for j in range(p):
        v = 0.
        for k in range(nb):
            y = sum(c[k * b:(k + 1) * b, j]) / b
            v += (y - m[j]) ** 2
        out.append(np.sqrt(v / (nb - 1) * b))
    return np.array(out)


def spectrum0(x):
    """power spectrum at frequency zero: Welch segments with a Hanning window"""
    n = len(x)
    nw = n // 4
    ov = nw // 2
    w = np.array([.5 * (1 - np.cos(2 * np.pi * (i + 1) / (nw + 1))) for i in range(nw)])
    k = (n - ov) // (nw - ov)
    tot = 0.
    for q in range(k):
        seg = x[q * (nw - ov):q * (nw - ov) + nw]
        tot += float(np.dot(w, seg)) ** 2
    return tot / (k * float(np.dot(w, w)))


def geweke_ref(c, a, b):
    n = c.shape[0]
    na = int(np.floor(a * n))
    nb = n - int(np.floor(b * n))
    z = []
    for j in range(c.shape[1]):
        A, B = c[:na, j], c[nb:, j]
        z.append((A.mean() - B.mean()) / np.sqrt(spectrum0(A) / na + spectrum0(B) / (n - nb)))
    z = np.array(z)
    return z, 2 * scipy.stats.norm.sf(np.abs(z))


def iact_ref(c):
    n, p = c.shape
    tau, m = np.zeros(p), np.zeros(p)
    for j in range(p):
        x = c[:, j] - c[:, j].mean()
        rho = np.array([float(np.dot(x, np.roll(x, k))) for k in range(n)])
        if rho[0] == 0:
            continue
        rho = rho / rho[0]
        sn = -1 / 3
        for i in range(n):
            sn += rho[i] - 1 / 6
            if abs(sn) < 1e-9:
                tau[j] = m[j] = np.nan         # too close to the cut to decide
                break
            if sn < 0:
                tau[j] = 2 * (sn + i / 6)
                m[j] = i + 1
                break
    return tau, m


def psrf_ref(x):
    n, m = x.shape
    mean = [sum(x[:, k]) / n for k in range(m)]
    var = [sum((x[:, k] - mean[k]) ** 2) / (n - 1) for k in range(m)]
    g = sum(mean) / m
    B = n * sum((q - g) ** 2 for q in mean) / (m - 1)
    W = sum(var) / m
    sp = (n - 1) / n * W + B / n
    V = sp + B / (m * n)
    R = (m + 1) / m * sp / W - (n - 1) / (m * n)
    return dict(R=np.sqrt(R), B=B, W=W, V=R * W, neff=min(m * n * R * W / B, m * n))


def single_chain(s):
    from pymcmcstat.chain import ChainStatistics as CS
    r = s.r
    n = r.choice([40, 41, 57, 100, 199, 200, 250, 401])
    p = r.choice([1, 2, 3, 5])
    c = chain(s, n, p)
    c0 = c.copy()
    s.desc = dict(n=n, p=p, seed=s.seed)
    st = CS.chainstats(c, returnstats=True)
    s.same('chain-not-modified', c, c0)
    s.close('mean', st['mean'], [sum(c0[:, j]) / n for j in range(p)])
    s.close('std', st['std'], [np.sqrt(sum((c0[:, j] - c0[:, j].mean()) ** 2) / n) for j in range(p)])
    bm = bmstd(c0, max(10, n // 20))
    s.close('batch-mean-std', st['bmstd'], bm, rtol=1e-6)
    s.close('monte-carlo-error', st['mcerr'], bm / np.sqrt(n), rtol=1e-6)
    z, pv = geweke_ref(c0, .1, .5)
    s.close('geweke-z', st['geweke']['z'], z, rtol=1e-6)
    s.close('geweke-p', st['geweke']['p'], pv, rtol=1e-6, atol=1e-8)
    t, m = iact_ref(c0)
    ok = ~np.isnan(t)
    s.close('iact-tau', np.array(st['iact']['tau'])[ok], t[ok], rtol=1e-6, atol=1e-8)
    s.close('iact-m', np.array(st['iact']['m'])[ok], m[ok])
    b = r.choice([2, 3, 7, 10])
    s.close('batch-mean-std-given-b', CS.batch_mean_standard_deviation(c, b), bmstd(c0, b), rtol=1e-6)
    a, bb = r.choice([(.1, .5), (.2, .5), (.3, .4), (.25, .6)])
    z2, p2 = CS.geweke(c, a, bb)
    z, pv = geweke_ref(c0, a, bb)
    s.close('geweke-z-given-windows', z2, z, rtol=1e-6)
    s.close('geweke-p-given-windows', p2, pv, rtol=1e-6, atol=1e-8)
    s.same('chain-not-modified', c, c0)
    # columns are independent
    j = r.randrange(p)
    st1 = CS.chainstats(c[:, j:j + 1].copy(), returnstats=True)
    for k in ('mean', 'std', 'bmstd', 'mcerr'):
        s.close('columns-independent', st1[k][0], st[k][j], rtol=1e-9, detail=k)
    s.close('columns-independent', [st1['geweke']['z'][0], st1['geweke']['p'][0]], [st['geweke']['z'][j], st['geweke']['p'][j]], detail='geweke')
    if ok[j]:
        s.close('columns-independent', [st1['iact']['tau'][0], st1['iact']['m'][0]], [st['iact']['tau'][j], st['iact']['m'][j]], detail='iact')
    if r.random() < .3:
        e = s.raises(lambda: CS.batch_mean_standard_deviation(c[:r.choice([5, 12, 19])], 10))
        s.check('too-few-batches-refused', e is not None)
        e = s.raises(lambda: CS.geweke(c, .6, .5))
        s.check('overlapping-windows-refused', e is not None)


def several_chains(s):
    from pymcmcstat.chain import ChainStatistics as CS
    r = s.r
    n, p, m = r.choice([2, 3, 10, 50]), r.choice([1, 2, 4]), r.choice([2, 3, 5])
    full = 2 * n
    cs = [chain(s, full, p) + r.choice([0, 1, 5]) for _ in range(m)]
    asdict = r.random() < .5
    names = r.choice([None, ['q%d' % j for j in range(p)]])
    cs0 = [c.copy() for c in cs]
    if asdict:
        res = CS.gelman_rubin([dict(chain=c, nsimu=full) for c in cs], names=None if names is None else list(names), display=False)
        use = [c[full // 2:] for c in cs0]
    else:
        res = CS.gelman_rubin(cs, names=None if names is None else list(names), display=False)
        use = cs0
    for a, b in zip(cs, cs0):
        s.same('chains-not-modified', a, b)
    keys = list(res)
    s.check('one-entry-per-parameter', len(keys) == p and (names is None or keys == names), keys)
    for j, k in enumerate(keys):
        ref = psrf_ref(np.stack([c[:, j] for c in use], axis=1))
        for q in ('R', 'B', 'W', 'V', 'neff'):
            s.close('gelman-rubin-' + q, res[k][q], ref[q], rtol=1e-6)
    own = ['mine%d' % j for j in range(p)]
    res = CS.gelman_rubin(cs, results=dict(names=list(own)), display=False)
    s.check('entries-under-the-names-of-the-results', list(res) == own, list(res))
    e = s.raises(lambda: CS.gelman_rubin(cs[:1], display=False))
    s.check('single-chain-refused', e is not None)


SCENARIOS = [single_chain, several_chains]
