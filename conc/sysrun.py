"""Whole simulations of the real code against an independent DRAM reference.

A random problem is run with every random draw, every user-function call and every
Cholesky factorisation recorded; the reference then follows the recorded draws step by
step, re-synchronising on the actual chain after each step, so that one rounding
difference can never cascade.  Clauses are tagged with the properties they decide."""
import numpy as np
from conc.session import Recorder

INF = float('inf')


class Rec(Recorder):
    def __enter__(self):
        Recorder.__enter__(self)
        ch = np.linalg.cholesky
        self._ch = ch

        def g(a, *x, **k):
            m = np.array(a, dtype=float, copy=True)
            try:
                r = ch(a, *x, **k)
            except BaseException:
                self.log.append(('chol', m, None))
                raise
            self.log.append(('chol', m, np.array(r, copy=True)))
            return r
        np.linalg.cholesky = g
        return self

    def __exit__(self, *a):
        np.linalg.cholesky = self._ch
        Recorder.__exit__(self, *a)


class Draws:
    """normals and uniforms in drawing order"""

    def __init__(self, log):
        self.n, self.u, self.other = [], [], []
        for seq, e in enumerate(log):
            if e[0] in ('n', 'u') or (e[0] == 'N' and not e[4][:2] and not ({'loc', 'scale'} & set(e[5]))) or (e[0] == 'U' and not e[4][:2] and not ({'low', 'high'} & set(e[5]))):
                q = self.n if e[0] in ('n', 'N') else self.u
                for v in np.asarray(e[2], dtype=float).reshape(-1):
                    q.append((seq, float(v)))
            elif e[0] in ('sos', 'prior', 'chol', 'model'):
                pass
            else:
                self.other.append(e[0])
        self.i = self.j = 0

    def normal(self, k=1):
        if self.i + k > len(self.n):
            raise OutOfDraws('normal')
        r = [v for _, v in self.n[self.i:self.i + k]]
        self.i += k
        return np.array(r)

    def uniform(self):
        if self.j >= len(self.u):
            raise OutOfDraws('uniform')
        self.j += 1
        return self.u[self.j - 1][1]

    def skip_optional_uniform(self):
        """a uniform that was drawn although its value cannot matter"""
        if self.j < len(self.u) and (self.i >= len(self.n) or self.u[self.j][0] < self.n[self.i][0]):
            self.j += 1


class OutOfDraws(Exception):
    pass


class Ambiguous(Exception):
    """decision within rounding distance: the run decides nothing further"""


# ---------------------------------------------------------------- problems
class Prob:
    pass


def problem(s, **f):
    """random set-up; keyword arguments force a choice"""
    r = s.r
    P = Prob()
    pick = lambda k, gen: f[k] if k in f else gen()
    n = pick('n', lambda: r.choice([1, 2, 2, 3, 3, 4]))
    P.par = []
    for i in range(n):
        t0 = round(r.choice([r.gauss(0, 1), r.gauss(0, 5), 1.0, 0.5, -2.0]), 3) or 0.7
        w = abs(t0) + 1
        lo = r.choice([-INF, -INF, t0 - w * r.random(), t0 - 0.05 * w, t0 - 3 * w])
        hi = r.choice([INF, INF, t0 + w * r.random(), t0 + 0.05 * w, t0 + 3 * w])
        P.par.append(dict(name=r.choice(['a', 'b', 'c', 'th']) + str(i), theta0=t0, minimum=lo, maximum=hi,
                          prior_mu=r.choice([0., t0, t0 + 1., float('nan'), 2.5]), prior_sigma=r.choice([INF, INF, 0., -1., abs(t0) + .5, 0.3]),
                          sample=r.random() < .75, adapt=r.random() < .8))
    if not any(p['sample'] for p in P.par):
        P.par[r.randrange(n)]['sample'] = True
    if f.get('allsample'):
        for p in P.par:
            p['sample'] = True
    P.n = n
    P.mode = pick('mode', lambda: r.choice(['model', 'model', 'sos', 'soscustom', 'sosscalar']))
    nb = pick('nb', lambda: r.choice([1, 1, 2, 3])) if P.mode == 'model' else r.choice([1, 1, 2])
    P.nb = nb
    P.data = []
    for b in range(nb):
        m = r.choice([1, 2, 4, 7])
        x = np.array([round(r.random() * 2, 3) for _ in range(m)])
        y = np.array([round(r.gauss(0, 2), 3) for _ in range(m)])
        shp = r.choice(['1d', '2d'])
        P.data.append(dict(x=x if shp == '1d' else x.reshape(-1, 1), y=y if shp == '1d' else y.reshape(-1, 1), m=m,
                           w=r.choice([1, 1, 0.5, 3])))
    P.nsos = nb if P.mode == 'model' else (1 if P.mode == 'sosscalar' else r.choice([1, 2, 3]))
    if P.mode == 'sosscalar' or (P.mode != 'model'):
        # observation counts must match the groups: one batch, or one group, or as many batches as groups
        if nb > 1 and P.nsos > 1 and nb != P.nsos:
            P.nsos = nb
    P.hole = r.choice([None, None, 'nan', 'inf'])
    P.userprior = pick('userprior', lambda: r.random() < .3)
    q = r.random
    ms = {}
    P.updatesigma = pick('updatesigma', lambda: q() < .6)
    if q() < .5:
        ms['sigma2'] = r.choice([0.5, 2.0, [round(abs(r.gauss(1, 1)) + .1, 3) for _ in range(P.nsos)], np.array([1.5])])
        if r.random() < .2:
            ms['sigma2'] = int(2)
    if q() < .4:
        ms['N0'] = r.choice([1, 0.5, [1. + k for k in range(P.nsos)], np.array([3.0])])
    if q() < .4:
        ms['S20'] = r.choice([0.7, 2.0, [0.5 + k for k in range(P.nsos)]])
    P.ms = ms
    o = {}
    o['nsimu'] = pick('nsimu', lambda: r.choice([2, 5, 20, 40, 60, 90]))
    o['method'] = pick('method', lambda: r.choice(['mh', 'am', 'dr', 'dram', 'dram']))
    if q() < .7:
        o['adaptint'] = r.choice([1, 3, 7, 10, 25])
    if 'ntry' in f:
        if f['ntry'] is not None:
            o['ntry'] = f['ntry']
    elif q() < .4:
        o['ntry'] = r.choice([1, 2, 3, 4])
    if q() < .4:
        o['drscale'] = np.array([r.choice([2., 3., 5., 1.5]) for _ in range(r.choice([1, 2, 3]))])
    p = sum(1 for k in P.par if k['sample'])
    if q() < .6:
        A = np.array([[r.gauss(0, 1) for _ in range(n)] for _ in range(n)])
        C = A.dot(A.T) + 0.1 * np.eye(n)
        sc = r.choice([1., .05, .3])
        if n > 1 or True:
            o['qcov'] = C * sc if r.random() < .6 else np.diag(C) * sc
    if q() < .3:
        o['adascale'] = r.choice([0.5, 1.0, 0, -1])
    if q() < .3:
        o['burnintime'] = r.choice([5, 12, 30])
        o['burnin_scale'] = r.choice([10, 2])
    if q() < .3:
        o['lastadapt'] = r.choice([1, 7, 14, 30])
    if q() < .25:
        o['initqcovn'] = r.choice([1, 4, 10.5])
    if q() < .2:
        o['qcov_adjust'] = r.choice([1e-5, 1e-3])
    if q() < .3:
        o['printint'] = r.choice([1, 3, 0])
    o['updatesigma'] = P.updatesigma
    o['verbosity'] = r.choice([0, 0, 1, 4])
    o['waitbar'] = r.random() < .1
    o['savesize'] = r.choice([0, 1, 4, 7, 50, 1000])
    P.opt = o
    P.p = p
    P.ind = [i for i, k in enumerate(P.par) if k['sample']]
    P.thr = P.par[P.ind[0]]['theta0'] + .4
    s.desc = dict(par=P.par, mode=P.mode, nb=nb, nsos=P.nsos, ms=ms, opt=o, hole=P.hole, userprior=P.userprior)
    return P


def model_y(x, th):
    x = np.asarray(x, dtype=float).reshape(-1)
    y = np.zeros(len(x))
    for k, t in enumerate(th):
        y = y + t * x ** k
    return y.reshape(-1, 1)


def ref_ss(P, th):
    """the sum of squares of the problem at the full vector th (independent of the code under test)"""
    if P.mode == 'model':
        out = []
        for d in P.data:
            y = model_y(d['x'], th).reshape(-1)
            out.append(float(np.sum(d['w'] * (np.asarray(d['y'], float).reshape(-1) - y) ** 2)))
    else:
        out = [sum((t - .3 * g) ** 2 * (1 + g + k) for k, t in enumerate(th)) for g in range(P.nsos)]
    h = P.hole and (th[P.ind[0]] > P.thr)
    if h:
        out[-1] = float(P.hole)
    return np.array(out, dtype=float)


def ref_prior(P, sub):
    mu = np.array([P.par[i]['theta0'] if np.isnan(P.par[i]['prior_mu']) else P.par[i]['prior_mu'] for i in P.ind])
    sg = np.array([INF if P.par[i]['prior_sigma'] <= 0 else P.par[i]['prior_sigma'] for i in P.ind])
    if P.userprior:
        return float(np.sum(np.abs(sub - mu))) * .5 + (1.0 if np.isinf(sg).all() else 0.)
    return float(np.sum(((mu - sub) / sg) ** 2))


class Run:
    pass


def build(P, rec, savedir=None, rngseed=None):
    from pymcmcstat.MCMC import MCMC
    mc = MCMC(rngseed=rngseed)
    for d in P.data:
        mc.data.add_data_set(d['x'], d['y'], weight=d['w'])
    for p in P.par:
        mc.parameters.add_model_parameter(**p)
    ms = {k: (v.copy() if isinstance(v, np.ndarray) else list(v) if isinstance(v, list) else v) for k, v in P.ms.items()}
    P.ms_passed = ms

    def modelf(xd, q):
        rec.log.append(('model', np.array(q, copy=True), np.array(xd, copy=True)))
        y = model_y(xd, q)
        if P.hole and q[P.ind[0]] > P.thr and np.shape(xd)[0] == P.data[-1]['m'] and np.array_equal(np.asarray(xd).reshape(-1), np.asarray(P.data[-1]['x']).reshape(-1)):
            y = y * np.nan if P.hole == 'nan' else y + np.inf
        return y

    def sosf(q, data):
        rec.log.append(('sos', np.array(q, copy=True)))
        v = ref_ss(P, np.asarray(q))
        return float(v[0]) if P.mode == 'sosscalar' else v

    def soscf(q, data, custom=None):
        return sosf(q, data)

    def priorf(th, mu, sg):
        rec.log.append(('prior', np.array(th, copy=True), np.array(mu, copy=True), np.array(sg, copy=True)))
        return float(np.sum(np.abs(np.asarray(th) - mu))) * .5 + (1.0 if np.isinf(sg).all() else 0.)
    if P.mode == 'model':
        ms['model_function'] = modelf
    else:
        ms['sos_function'] = soscf if P.mode == 'soscustom' else sosf
    if P.userprior:
        ms['prior_function'] = priorf
    mc.model_settings.define_model_settings(**ms)
    o = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in P.opt.items()}
    if savedir:
        o['savedir'] = savedir
    P.opt_passed = o
    mc.simulation_options.define_simulation_options(**o)
    return mc


def execute(s, P, savedir=None):
    R = Run()
    R.rec = rec = Rec()
    with rec:
        R.mc = build(P, rec, savedir)
        rec.log.clear()
        R.mc.run_simulation()
    R.res = R.mc.simulation_results.results
    R.log = list(rec.log)
    return R


def again(s, P, R, **opts):
    """continue in memory"""
    Q = Run()
    Q.rec = rec = R.rec
    rec.log.clear()
    with rec:
        if opts:
            R.mc.simulation_options.define_simulation_options(**opts)
        Q.mc = R.mc
        R.mc.run_simulation(use_previous_results=True)
    Q.res = R.mc.simulation_results.results
    Q.log = list(rec.log)
    return Q


# ---------------------------------------------------------------- reference settings
def ref_settings(P, opt=None):
    o = opt or P.opt
    m = o['method']
    d = dict(adaptint={'mh': 0, 'am': 100, 'dr': 0, 'dram': 100}[m], ntry={'mh': 1, 'am': 1, 'dr': 2, 'dram': 2}[m])
    if m in ('am', 'dram') and o.get('adaptint') is not None:
        d['adaptint'] = o['adaptint']
    if o.get('ntry') is not None:
        d['ntry'] = o['ntry']
    d['lastadapt'] = o.get('lastadapt', 0)
    d['updatesigma'] = bool(o.get('updatesigma', False)) or ('N0' in P.ms)
    g = P.nsos
    vec = lambda v: np.ones(g) * np.asarray(v, dtype=float).reshape(-1) if np.size(v) == 1 else np.asarray(v, dtype=float).reshape(-1)
    s2, n0, s20 = P.ms.get('sigma2'), P.ms.get('N0'), P.ms.get('S20')
    if n0 is None:
        n0 = 0. if s2 is None else 1.
        if s2 is None:
            s2 = 1.
    if s2 is None:
        s2 = s20 if s20 is not None else 1.
    if s20 is None:
        s20 = s2
    d['sigma2'], d['N0'], d['S20'] = vec(s2), vec(n0), vec(s20)
    N = [b['m'] for b in P.data]
    if g == 1:
        d['N'] = np.array([float(sum(N))])
    elif len(N) == 1:
        d['N'] = np.ones(g) * N[0]
    else:
        d['N'] = np.array(N, dtype=float)
    d['drscale'] = np.asarray(o.get('drscale', np.array([5., 4., 3.])), dtype=float)
    a = o.get('adascale')
    d['scale'] = 2.4 / np.sqrt(P.p) if a is None or a <= 0 else a
    d['adjust'] = o.get('qcov_adjust', 1e-8)
    d['burnintime'], d['burnin_scale'] = o.get('burnintime', 0), o.get('burnin_scale', 10)
    d['initqcovn'] = o.get('initqcovn')
    n = P.n
    q = o.get('qcov')
    if q is None:
        sg = np.array([INF if p['prior_sigma'] == 0 else p['prior_sigma'] for p in P.par])
        v = np.empty(n)
        for i, p in enumerate(P.par):
            w = p['prior_sigma']
            w = INF if w <= 0 else w
            v[i] = w ** 2 if np.isfinite(w) else (abs(p['theta0']) * .05) ** 2
            v[i] = v[i] or 1.0
        Q = np.diag(v)
    else:
        q = np.asarray(q, dtype=float)
        Q = np.diag(q.reshape(-1)) if q.ndim == 1 or 1 in q.shape else q
    d['Qfull'] = Q
    d['Q'] = Q[np.ix_(P.ind, P.ind)]
    return d


def gamma_ref(D, a, b):
    if a <= 0:
        return 0.0
    if a < 1:
        g = gamma_ref(D, a + 1, b)
        return g * D.uniform() ** (1 / a)
    d = a - 1 / 3.
    c = 1 / np.sqrt(9 * d)
    while True:
        while True:
            x = D.normal()[0]
            v = 1 + c * x
            if abs(v) < 1e-10:
                raise Ambiguous()
            if v > 0:
                break
        v = v ** 3
        u = D.uniform()
        t1 = 1 - .0331 * x ** 4
        if abs(u - t1) < 1e-10:
            raise Ambiguous()
        if u < t1:
            return b * d * v
        t2 = .5 * x ** 2 + d * (1 - v + np.log(v))
        if abs(np.log(u) - t2) < 1e-10:
            raise Ambiguous()
        if np.log(u) < t2:
            return b * d * v


def lp(st, s2):
    ss, pr = st['ss'], st['prior']
    return -.5 * float(np.sum(ss / s2)) - .5 * float(pr)


def alpha_ref(path, invR, s2):
    """Green-Mira probability of the path; states carry theta, ss, prior (ss = inf outside limits)"""
    L = len(path) - 1
    a1 = a2 = 1.0
    for k in range(L - 1):
        a1 *= 1 - alpha_ref(path[:k + 2], invR, s2)
        a2 *= 1 - alpha_ref(path[::-1][:k + 2], invR, s2)
        if a2 == 0:
            return 0.0
    y = lp(path[-1], s2) - lp(path[0], s2)
    for q in range(L - 1):
        f = (path[L - 1 - q]['theta'] - path[L]['theta']).dot(invR[q])
        g = (path[q + 1]['theta'] - path[0]['theta']).dot(invR[q])
        y += -.5 * (float(f.dot(f)) - float(g.dot(g)))
    with np.errstate(all='ignore'):
        r = np.exp(y) * a2 / a1 if a1 != 0 else float('nan')
    if np.isnan(r):
        return 0.0
    return min(1.0, float(r))


def moments(rows, init):
    """weighted moments of rows with an optional initial (cov, mean, weight)"""
    n, p = rows.shape
    if init is None:
        W = float(n)
        mu = rows.mean(axis=0)
        sc = (rows - mu).T.dot(rows - mu)
        C = sc / (W - 1) if W > 1 else np.zeros((p, p))
        return C, mu, W
    C0, m0, W0 = init
    W = W0 + n
    mu = (W0 * m0 + rows.sum(axis=0)) / W
    sc = (W0 - 1) * C0 + W0 * np.outer(m0 - mu, m0 - mu) + (rows - mu).T.dot(rows - mu)
    return sc / (W - 1), mu, W


def stages(R, ntry, drscale):
    out = [R]
    for i in range(1, ntry):
        out.append(out[-1] / drscale[min(i, len(drscale)) - 1])
    return out, [np.linalg.inv(x) for x in out]


# ---------------------------------------------------------------- verification of a run
class Checks:
    def __init__(self, s, props):
        self.s, self.props = s, set(props)

    def want(self, tags):
        return self.props & set(tags.split(','))

    def ok(self, tags, name, c, detail=''):
        if self.want(tags):
            self.s.check(name, c, detail)
        return bool(c)

    def close(self, tags, name, a, b, rtol=1e-6, atol=1e-8, detail=''):
        if self.want(tags):
            return self.s.close(name, a, b, rtol, atol, detail)
        return True


def near(a, b, tol=1e-7):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(a) + np.abs(b))))


def full(P, sub):
    v = np.array([p['theta0'] for p in P.par], dtype=float)
    v[P.ind] = sub
    return v


def verify(s, P, R, props, start=0, first=None, s2first=None, opt=None):
    """follow the recorded run; start: index of the first row of this run (restart), first: its initial point"""
    K = Checks(s, props)
    res = R.res
    st = ref_settings(P, opt)
    o = opt or P.opt
    ns = int(o['nsimu'])
    p, ind = P.p, P.ind
    lo = np.array([P.par[i]['minimum'] for i in ind])
    hi = np.array([P.par[i]['maximum'] for i in ind])
    chain, ssc, s2c = np.asarray(res['chain']), np.asarray(res['sschain']), res['s2chain']
    S2 = 'C01,C02,C03,C04'
    K.ok('C01,C04,C05', 'chain-shape', chain.shape == (start + ns, p) and ssc.shape == (start + ns, P.nsos), (chain.shape, ssc.shape))
    K.ok('C04,C08', 's2chain-kept-iff-updated', (s2c is not None) == st['updatesigma'])
    if chain.shape != (start + ns, p) or ssc.shape != (start + ns, P.nsos):
        return
    K.ok('C01', 'chain-inside-limits', bool(np.all(chain[start:] >= lo) and np.all(chain[start:] <= hi)), chain)
    th0 = np.array([P.par[i]['theta0'] for i in ind]) if first is None else np.asarray(first, float)
    if start == 0:
        K.close('C04,C14', 'row0-is-initial-point', chain[0], th0)
    # evaluations
    evs = [(q, e) for q, e in enumerate(R.log) if e[0] in ('sos', 'model', 'prior')]
    decl = np.array([k['theta0'] for k in P.par], float)
    non = [i for i in range(P.n) if i not in ind]
    for q, e in evs:
        v = np.asarray(e[1], float).reshape(-1)
        if e[0] == 'prior':
            K.ok('C10,C05', 'prior-sees-sampled-point', v.shape == (p,))
            if v.shape == (p,):
                K.ok('C01', 'prior-evaluated-inside', bool(np.all(v >= lo) and np.all(v <= hi)), v)
            mu = [P.par[i]['theta0'] if np.isnan(P.par[i]['prior_mu']) else P.par[i]['prior_mu'] for i in ind]
            sg = [INF if P.par[i]['prior_sigma'] <= 0 else P.par[i]['prior_sigma'] for i in ind]
            if start == 0:
                K.close('C10,C05', 'prior-gets-means-and-sigmas-of-sampled', np.concatenate([np.ravel(e[2]), np.ravel(e[3])]), np.concatenate([mu, sg]))
            continue
        K.ok('C05,C11', 'model-sees-full-vector', v.shape == (P.n,), v)
        if v.shape != (P.n,):
            return
        K.ok('C05,C14', 'not-sampled-keep-declared-value', np.array_equal(v[non], decl[non]), (v, decl))
        K.ok('C01', 'model-evaluated-inside', bool(np.all(v[ind] >= lo) and np.all(v[ind] <= hi)), v)
    pts = [(q, np.asarray(e[1], float).reshape(-1)[ind]) for q, e in evs if e[0] in ('sos', 'model')]
    ppts = [(q, np.asarray(e[1], float).reshape(-1)) for q, e in evs if e[0] == 'prior']
    pos = [0]

    def judged_at(c):
        for k in range(pos[0], len(pts)):
            if near(pts[k][1], c):
                pos[0] = k
                return True
        return any(near(v, c) for _, v in pts)
    D = Draws(R.log)
    if D.other:
        K.ok('C02,C03,C08,C09', 'draws-come-from-normal-and-uniform', False, D.other)
        return
    chols = [(e[1], e[2]) for e in R.log if e[0] == 'chol']
    Rm = None
    if P.opt.get('RDR') is not None:
        RDR = [np.asarray(x, float) for x in P.opt['RDR']]
        invR = [np.linalg.inv(x) for x in RDR]
        Rm = RDR[0]
    else:
        Rm = np.linalg.cholesky(st['Q']).T if p > 1 else np.sqrt(st['Q'])
        if np.array_equal(st['Q'], np.diag(np.diag(st['Q']))):
            Rm = np.sqrt(st['Q'])
        RDR, invR = stages(Rm, st['ntry'], st['drscale'])
    s2 = st['sigma2'].copy() if s2first is None else np.asarray(s2first, float).copy()
    if st['updatesigma'] and start == 0:
        K.close('C04,C08,C12', 's2-row0-is-initial-variance', np.asarray(s2c)[0], s2)
    rej = rin = rout = 0
    iacc = np.zeros(max(1, st['ntry']), dtype=int)
    cov = mean = None
    W = st['initqcovn']
    init = (st['Q'], th0, float(W)) if W is not None else None
    if init is not None:
        cov, mean = st['Q'], th0
    cons = 0
    ia = 0
    done = True
    try:
        for i in range(1, ns):
            k = start + i
            ia += 1
            old = dict(theta=chain[k - 1] if i > 1 or start == 0 else th0, ss=None, prior=None)
            old['ss'] = ref_ss(P, full(P, old['theta']))
            old['prior'] = ref_prior(P, old['theta'])
            row = chain[k]
            z = D.normal(p)
            cand = old['theta'] + z.dot(Rm)
            if np.any(np.abs(cand - lo) < 1e-12) or np.any(np.abs(cand - hi) < 1e-12):
                raise Ambiguous()
            outside = bool(np.any(cand < lo) or np.any(cand > hi))
            acc = False
            last_out = outside
            exp = old['theta']
            if outside:
                path = [old, dict(theta=cand, ss=np.full(P.nsos, INF), prior=0.)]
                K.ok('C01', 'outside-not-evaluated', not any(near(v, cand, 1e-12) for _, v in pts), cand)
            else:
                new = dict(theta=cand, ss=ref_ss(P, full(P, cand)), prior=ref_prior(P, cand))
                K.ok('C02,C05', 'metropolis-candidate-evaluated', judged_at(cand), (i, cand))
                if P.userprior:
                    K.ok('C10', 'prior-evaluated-at-candidate', any(near(v, cand) for _, v in ppts), cand)
                u = D.uniform()
                la = lp(new, s2) - lp(old, s2)
                lu = np.log(u) if u > 0 else -INF
                if abs(la - lu) < 1e-8 * (1 + abs(la)):
                    raise Ambiguous()
                acc = bool(la > lu)
                path = [old, new]
                if acc:
                    exp = cand
            tag = 'C02'
            if not acc and st['ntry'] > 1:
                tag = 'C03'
                for t in range(1, st['ntry']):
                    z = D.normal(p)
                    cand = old['theta'] + z.dot(RDR[t])
                    if np.any(np.abs(cand - lo) < 1e-12) or np.any(np.abs(cand - hi) < 1e-12):
                        raise Ambiguous()
                    last_out = bool(np.any(cand < lo) or np.any(cand > hi))
                    if last_out:
                        path.append(dict(theta=cand, ss=np.full(P.nsos, INF), prior=0.))
                        K.ok('C01', 'outside-not-evaluated', not any(near(v, cand, 1e-12) for _, v in pts), cand)
                        continue
                    new = dict(theta=cand, ss=ref_ss(P, full(P, cand)), prior=ref_prior(P, cand))
                    K.ok('C03,C05', 'dr-candidate-evaluated', judged_at(cand), (i, t, cand))
                    path.append(new)
                    a = alpha_ref(path, invR, s2)
                    if a >= 1 - 1e-9:
                        if a < 1:
                            raise Ambiguous()
                        D.skip_optional_uniform()
                        acc = True
                    elif a == 0:
                        # never accepted, whether or not a uniform is drawn
                        D.skip_optional_uniform()
                        acc = False
                    else:
                        u = D.uniform()
                        if abs(a - u) < 1e-8:
                            raise Ambiguous()
                        acc = bool(a > u)
                    if acc:
                        exp = cand
                        iacc[t] += 1
                        break
            ok = near(row, exp)
            K.ok('C02,C03,C04', 'row-is-accepted-candidate-or-previous-row', ok, 'row %d: got %s expected %s (accept=%s, stage rule %s)' % (k, row, exp, acc, tag))
            if not ok:
                done = False
                break
            if not acc:
                K.ok('C04,C03', 'rejection-repeats-previous-row', np.array_equal(row, chain[k - 1]) or i == 1, (k, row))
                rej += 1
                rin += 1
                rout += 1 if last_out else 0
            ss = ref_ss(P, full(P, row))
            K.ok('C04,C11', 'sschain-row-is-sos-of-row', near(ssc[k], ss, 1e-6) or (np.isnan(ssc[k]) == np.isnan(ss)).all() and near(np.nan_to_num(ssc[k]), np.nan_to_num(ss), 1e-6), (k, ssc[k], ss))
            if st['adaptint'] and ia == st['adaptint'] and (st['lastadapt'] < 1 or i <= st['lastadapt']):
                upd = True
                if i < st['burnintime']:
                    q = rin / float(ia)
                    Rm = Rm / st['burnin_scale'] if q > .95 else Rm * st['burnin_scale'] if q < .05 else Rm
                else:
                    cov, mean, W = moments(chain[:k], init) if (k > 0) else (cov, mean, W)
                    cons = k
                    up = cov.copy()
                    na = [j for j, x in enumerate(ind) if not P.par[x]['adapt']]
                    up[na, :] = st['Q'][na, :]
                    up[:, na] = st['Q'][:, na]
                    Rm = chol_step(up, Rm, st, chols, float(np.max(np.abs(mean))) if mean is not None and np.size(mean) else 0.)
                RDR, invR = stages(Rm, st['ntry'], st['drscale'])
                ia = 0
                rin = 0
            if st['updatesigma']:
                for j in range(P.nsos):
                    g = gamma_ref(D, .5 * (st['N0'][j] + st['N'][j]), 2. / (st['N0'][j] * st['S20'][j] + ss[j]))
                    with np.errstate(all='ignore'):
                        v = np.float64(1.) / g
                    K.close('C04,C08,C09', 'error-variance-row', np.asarray(s2c)[k, j], v, detail='row %d group %d' % (k, j))
                s2 = np.asarray(s2c)[k].astype(float).copy()
    except Ambiguous:
        return
    except OutOfDraws as e:
        K.ok('C02,C03,C08,C09', 'draw-protocol', False, 'no recorded %s draw left at step %d' % (e, i))
        return
    except np.linalg.LinAlgError:
        return
    if not done:
        return
    R.rej, R.rout, R.iacc = rej, rout, iacc
    K.close('C04,C15', 'total-rejected', res['total_rejected'], rej / float(ns))
    K.close('C04,C15', 'rejected-outside-bounds', res['rejected_outside_bounds'], rout / float(ns))
    if st['ntry'] > 1:
        ic = np.asarray(res['iacce'])
        K.ok('C03,C15', 'stage-acceptance-counts', ic.shape == iacc.shape and np.array_equal(ic[1:], iacc[1:]) and ic.sum() == ns - rej, (ic, iacc, rej))
        K.ok('C07,C15', 'stage-matrices', len(res['RDR']) >= st['ntry'] and all(near(x, y, 1e-5) for x, y in zip(res['RDR'], RDR)), (res['RDR'], RDR))
        K.close('C15', 'drscale-reported', res['drscale'], st['drscale'])
    K.ok('C07,C12', 'final-proposal-matrix', near(np.asarray(res['R']).T.dot(np.asarray(res['R'])), Rm.T.dot(Rm), 1e-5), (res['R'], Rm))
    if st['adaptint'] or init is not None:
        if cov is None:
            K.ok('C06', 'no-adaptation-yet', res['cov'] is None and res['mean'] is None)
        else:
            scl = np.abs(cov).max() + 1e-12
            K.ok('C06', 'adapted-covariance-of-all-rows-consumed', res['cov'] is not None and np.shape(res['cov']) == cov.shape and np.allclose(res['cov'], cov, rtol=1e-5, atol=1e-7 * scl + 1e-10 * (np.abs(mean).max() ** 2 + 1)), (res['cov'], cov))
            K.ok('C06', 'adapted-mean-of-all-rows-consumed', res['mean'] is not None and near(res['mean'], mean, 1e-6), (res['mean'], mean))
    results_checks(K, P, R, st, chain, ns, opt)


def chol_step(up, Rm, st, chols, size=0.):
    """R after adaptation; a matrix on the edge of positive definiteness follows the recorded outcome"""
    for M, final in ((up, False), (up + np.eye(len(up)) * st['adjust'], True)):
        ev = np.linalg.eigvalsh((M + M.T) / 2)
        edge = abs(ev[0]) <= 1e-9 * abs(ev[-1]) + 1e-13 * size ** 2
        if edge:
            hit = [r for m, r in chols if m.shape == M.shape and np.allclose(m, M, rtol=1e-6, atol=1e-12)]
            if not hit:
                raise Ambiguous()
            if hit[-1] is not None and all(h is not None for h in hit):
                return hit[-1].T * st['scale']
            if any(h is not None for h in hit):
                raise Ambiguous()
            continue
        if ev[0] > 0:
            return np.linalg.cholesky(M).T * st['scale']
    return Rm


def results_checks(K, P, R, st, chain, ns, opt=None):
    res = R.res
    ind, p = P.ind, P.p
    K.ok('C15,C14', 'final-vector', near(np.asarray(res['theta'], float), full(P, chain[-1]), 1e-12), (res['theta'], chain[-1]))
    K.ok('C15,C05', 'sampled-positions', list(np.asarray(res['parind']).ravel()) == list(ind), res['parind'])
    K.ok('C15,C05', 'names', list(res['names']) == [P.par[i]['name'] for i in ind] and list(res['allnames']) == [q['name'] for q in P.par], (res['names'], res['allnames']))
    K.close('C15,C05', 'limits', np.array(res['limits'], float), np.array([[P.par[i]['minimum'] for i in ind], [P.par[i]['maximum'] for i in ind]]))
    Rr = np.asarray(res['R'], float)
    K.close('C15,C07', 'qcov-is-RtR', res['qcov'], Rr.T.dot(Rr), rtol=1e-9)
    Q = np.asarray(res['qcovorig'], float)
    if K.ok('C15', 'full-covariance-size', Q.shape == (P.n, P.n), Q.shape):
        E = st['Qfull'].copy()
        E[np.ix_(ind, ind)] = Rr.T.dot(Rr)
        K.close('C15', 'full-covariance', Q, E, rtol=1e-8)
    K.close('C15', 'qcov-scale', res['qcov_scale'], st['scale'])
    K.ok('C15', 'nsimu', res['nsimu'] == ns)
    K.close('C15', 'prior-sigma', np.asarray(res['prior']['sigma'], float), [INF if q['prior_sigma'] <= 0 else q['prior_sigma'] for q in P.par])
    K.ok('C15', 'prior-type', res['prior']['priortype'] == 1)
    so, mo = res['simulation_options'], res['model_settings']
    o = opt or P.opt
    for a in ('method', 'nsimu'):
        K.ok('C15', 'option-' + a, so[a] == o[a], so[a])
    K.ok('C15,C12', 'option-ntry-adaptint', so['ntry'] == st['ntry'] and so['adaptint'] == st['adaptint'], (so['ntry'], so['adaptint']))
    K.ok('C15,C12', 'option-updatesigma', bool(so['updatesigma']) == st['updatesigma'])
    K.ok('C12', 'savesize-in-range', so['savesize'] == (o['savesize'] if 1 <= o.get('savesize', 0) <= ns else ns), so['savesize'])
    for a in ('N0', 'S20', 'N'):
        K.close('C08,C12,C15', 'setting-%s-kept-per-group' % a, np.asarray(mo[a], float), st[a])
    if not st['updatesigma']:
        K.close('C08,C12,C15', 'fixed-variance-kept', np.asarray(mo['sigma2'], float), st['sigma2'])
    for k, v in P.ms.items():
        w = P.ms_passed[k]
        K.ok('C08,C12', 'user-settings-not-changed', np.array_equal(np.asarray(v), np.asarray(w)), (k, v, w))
    for k in ('qcov', 'drscale'):
        if k in P.opt:
            K.ok('C07,C15', 'user-options-not-changed', np.array_equal(P.opt[k], P.opt_passed[k]), k)


def continued(P, res, opt):
    """the set-up a continued run starts from: sampled values moved to the last state, everything else as declared"""
    import copy
    Q = copy.copy(P)
    Q.par = [dict(k) for k in P.par]
    th = np.asarray(res['theta'], float)
    for i in P.ind:
        if np.isnan(Q.par[i]['prior_mu']):
            Q.par[i]['prior_mu'] = Q.par[i]['theta0']
        Q.par[i]['theta0'] = float(th[i])
    Q.opt = opt
    return Q
