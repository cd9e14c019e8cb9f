"""C17 - convergence diagnostics compute their published formulas."""
CS = 'pymcmcstat.chain.ChainStatistics:'
ASSUMPTIONS = ['C17: scipy.stats.norm.cdf is the standard normal distribution function; the zero-frequency entry of a discrete Fourier transform is the sum of its input',
               'C17: integrated autocorrelation time is verified for one and two parameters (any chain length), through the two Fourier transforms it asks for: an arbitrary complex transform of the chain, an arbitrary real transform (non-negative at zero) of its squared magnitudes; that these give the autocovariances is checked by scenario',
               'C17: exact arithmetic (rounding is not modelled)']


def psrf(S):
    n, m = S.int('nsimu', 2), S.int('nchains', 2)
    x = S.arr('x', (n, m))
    x0 = S.snap(x)
    mu = lambda k: S.sum(n, lambda t: S.item(x0, t, k)) / n
    var = lambda k: S.sum(n, lambda t: S.pow(S.item(x0, t, k) - mu(k), 2)) / (n - 1)
    g = S.sum(m, mu) / m
    B = S.sum(m, lambda k: S.pow(mu(k) - g, 2)) / (m - 1)           # B / n
    W = S.sum(m, var) / m
    S.assume(S.and_(W > 0, B > 0))
    r = S.call(CS + 'calculate_psrf', x, n, m)
    i = lambda k: S.item(r, k)
    S.ensure('within-chain-variance', S.eq(i('W'), W))
    S.ensure('between-chain-variance', S.eq(i('B'), B * n))
    s2 = (n - 1) * W / n + B
    R2 = (m + 1) * s2 / (m * W) - S.num(1) * (n - 1) / (m * n)
    S.ensure('pooled-variance', S.eq(i('V'), R2 * W))
    S.ensure('potential-scale-reduction', S.eq(i('R'), S.sqrt(R2)))
    S.ensure('effective-samples', S.eq(i('neff'), S.min(m * n * (R2 * W) / (B * n), m * n)))
    S.ensure_forall('chains-not-modified', (n, m), lambda a, b: S.eq(S.item(x, a, b), S.item(x0, a, b)))


def batch_means(S, default=False):
    n, p = S.int('nsimu', 1, cmax=60 if default else 9), S.int('p', 1)
    c = S.arr('chain', (n, p))
    c0 = S.snap(c)
    if default:
        b = 10 if S.branch(n < 220) else S.floor(n / 20)
        r = S.tryrun(lambda: S.call(CS + 'batch_mean_standard_deviation', c))
    else:
        b = S.int('b', 1)
        r = S.tryrun(lambda: S.call(CS + 'batch_mean_standard_deviation', c, b))
    nb = S.floor(n / b)
    if S.raised(r):
        S.ensure('refusal-is-an-exit', r.cls == 'SystemExit')
        return S.ensure('refused-only-with-too-few-batches', nb < 2)
    S.ensure('accepted-only-with-two-batches', nb >= 2)
    S.ensure('one-value-per-column', S.eq(S.len(r), p))
    mu = lambda j: S.sum(n, lambda t: S.item(c0, t, j)) / n
    y = lambda k, j: S.sum(b, lambda t: S.item(c0, k * b + t, j)) / b
    for j in S.some('column', p):
        yj = S.define('batch_mean', nb, lambda k: y(k, j))
        ss = S.sum_nonneg(nb, lambda k: S.pow(yj(k) - mu(j), 2))
        q = ss / (nb - 1)
        for f in (q >= 0, q * b >= 0):
            S.ensure('sum-of-squares-is-non-negative', f)
            S.assume(f)
        S.ensure('batch-mean-standard-deviation', S.eq(S.item(r, j), S.sqrt(q * b)))
    S.ensure_forall('chain-not-modified', (n, p), lambda a, j: S.eq(S.item(c, a, j), S.item(c0, a, j)))


def batch_means_default(S):
    batch_means(S, True)


def spectrum(S, x, n):
    """column-wise spectral estimate at frequency zero: an arbitrary positive function of the window"""
    r = S.ufun('spectrum', [x], n)
    S.assume_forall((n,), lambda j: S.item(r, j) > 0)
    return r


def windows(S, c0, n, p, a, b):
    na, nb = S.floor(a * n), n - S.floor(b * n)
    A = S.mk((na, p), lambda t, j: S.item(c0, t, j))
    B = S.mk((n - nb, p), lambda t, j: S.item(c0, nb + t, j))
    return na, nb, A, B


def geweke(S):
    n, p = S.int('nsimu', 2), S.int('p', 1)
    a, b = S.real('a', 0, 1), S.real('b', 0, 1)
    c = S.arr('chain', (n, p))
    c0 = S.snap(c)
    na, nb, A, B = windows(S, c0, n, p, a, b)
    S.assume(S.and_(na >= 1, n - nb >= 1))
    S.summary(CS + 'spectral_estimate_for_variance', lambda S, env: spectrum(S, env['x'], p))
    r = S.tryrun(lambda: S.call(CS + 'geweke', c, a, b))
    if S.raised(r):
        S.ensure('refusal-is-an-exit', r.cls == 'SystemExit')
        return S.ensure('refused-only-when-the-windows-overlap', na + nb >= n)
    S.ensure('windows-do-not-overlap', na + nb < n)
    z, pv = r
    sa, sb = spectrum(S, A, p), spectrum(S, B, p)
    m1 = lambda j: S.sum(na, lambda t: S.item(c0, t, j)) / na
    m2 = lambda j: S.sum(n - nb, lambda t: S.item(c0, nb + t, j)) / (n - nb)
    S.ensure('one-value-per-column', S.and_(S.eq(S.len(z), p), S.eq(S.len(pv), p)))
    for j in S.some('column', p):
        w = S.item(sa, j) / na + S.item(sb, j) / (n - nb)
        S.ensure('positive-spectral-density', w > 0)
        S.assume(w > 0)
        zj = (m1(j) - m2(j)) / S.sqrt(w)
        S.ensure('geweke-z-score', S.eq(S.item(z, j), zj))
        S.ensure('geweke-p-value', S.eq(S.item(pv, j), 2 * (1 - S.normcdf(S.abs(zj)))))
    S.ensure_forall('chain-not-modified', (n, p), lambda t, j: S.eq(S.item(c, t, j), S.item(c0, t, j)))


geweke.symbolic_only = True


def spectral_columns(S):
    n, p = S.int('nsimu', 8), S.int('p', 1)
    c = S.arr('chain', (n, p))
    c0 = S.snap(c)

    def psd(x, m):
        f = S.ufun('psd', [x, m], S.floor(m / 2))
        return S.mk((S.floor(m / 2), 1), lambda i, j: S.item(f, i))
    S.summary(CS + 'power_spectral_density_using_hanning_window', lambda S, env: psd(env['x'], env['nfft']))
    r = S.call(CS + 'spectral_estimate_for_variance', c)
    S.ensure('one-value-per-column', S.eq(S.len(r), p))
    for j in S.some('column', p):
        col = S.mk((n,), lambda t: S.item(c0, t, j))
        S.ensure('zero-frequency-of-the-whole-column', S.eq(S.item(r, j), S.item(psd(col, n), 0, 0)))
    S.ensure_forall('chain-not-modified', (n, p), lambda t, j: S.eq(S.item(c, t, j), S.item(c0, t, j)))


spectral_columns.symbolic_only = True

def zero_frequency(S):
    n = S.int('nsimu', 8, cmax=40)
    x = S.arr('x', (n,))
    x0 = S.snap(x)
    nw = S.floor(n / 4)
    ov = S.floor(nw / 2)
    w = lambda t: S.num(.5) * (1 - S.cos(2 * S.pi * (t + 1) / (nw + 1)))
    ww = S.sum(nw, lambda t: w(t) * w(t))
    S.assume(ww > 0)            # a Hanning window is not identically zero

    def fft(S, v, m=None, **kw):
        f = S.ufun('fft', [v], m)
        tot = S.sum(S.len(v), lambda t: S.item(v, t))
        return S.mk((m,), lambda i: S.ite(S.eq(i, 0), tot, S.item(f, i)))
    S.ext_hook('scipy.fftpack.fft', fft)
    d = nw - ov
    k = S.floor((n - ov) / d)
    S.ensure('lemma-segments-fit', k * d <= n - ov)
    S.assume(k * d <= n - ov)
    S.ensure_forall('lemma-segments-fit', (k,), lambda q: (k - 1 - q) * d >= 0)
    S.assume_forall((k,), lambda q: q * d <= n - nw)
    seg = S.define('segment', k, lambda q: S.sum(nw, lambda t: w(t) * S.item(x0, q * d + t)))
    tot = lambda q: S.sum(q, lambda r: S.pow(seg(r), 2))

    def inv(S, env, q):
        sc, ve, ma = S.kinds(env)
        return [((S.len(v),), lambda t, v=v: S.eq(S.item(v, t), q * d + t), nm) for nm, v in ve] + [((1,), lambda t, v=v: S.eq(S.item(v, 0, 0), tot(q)), nm) for nm, v in ma]
    S.loop_inv('segments', inv)
    r = S.call(CS + 'power_spectral_density_using_hanning_window', x, n)
    S.ensure('welch-estimate-at-frequency-zero', S.eq(S.item(r, 0, 0), tot(k) / (k * ww)))
    S.ensure_forall('series-not-modified', (n,), lambda t: S.eq(S.item(x, t), S.item(x0, t)))


def autocorrelation(p0):
    """the Fourier transforms through their contract: the transform of a column is a pair (A, B), the transform of the squared magnitudes without frequency zero is real, C"""
    def c(S):
        n = S.int('nsimu', 2, cmax=30)
        p = p0 or S.int('p', 1)
        ch, A, B, C = S.arr('chain', (n, p)), S.arr('A', (n, p)), S.arr('B', (n, p)), S.arr('C', (n, p))
        c0, calls = S.snap(ch), []
        S.assume_forall((p,), lambda j: S.item(C, 0, j) >= 0)

        def fft(S, v, *a, axis=-1, **kw):
            S.ensure('transform-along-the-chain', S.eq(axis, 0))
            calls.append(1)
            if len(calls) == 1:
                S.ensure_forall('transform-of-the-chain', (n, p), lambda i, j: S.eq(S.item(v, i, j), S.item(c0, i, j)))
                return S.cplx(A, B)
            S.ensure('two-transforms', len(calls) == 2)
            S.ensure_forall('squared-magnitudes-without-the-mean', (n, p), lambda i, j: S.eq(S.item(v, i, j), S.ite(S.eq(i, 0), S.num(0), S.item(A, i, j) * S.item(A, i, j) + S.item(B, i, j) * S.item(B, i, j))))
            return S.cplx(C, S.mk((n, p), lambda i, j: 0))
        S.ext_hook('scipy.fftpack.fft', fft)
        part = lambda j, k: S.sum(k, lambda i: S.item(C, i, j)) / S.item(C, 0, j) - S.num(1) / 3 - k / S.num(6)      # partial sum over the first k lags
        for j in range(p0):
            S.loop_inv('partial%d' % j, lambda S, env, k, j=j: [((), lambda v=v: S.eq(v, part(j, k)), nm) for nm, v in S.kinds(env)[0]])
        tau, m = S.call(CS + 'integrated_autocorrelation_time', ch)
        S.ensure('one-entry-per-parameter', S.and_(S.eq(S.len(tau), p), S.eq(S.len(m), p)))
        for j in range(p) if p0 else S.some('column', p):
            r0 = S.item(C, 0, j)
            s = lambda k: part(j, k)
            t, q = S.item(tau, j), S.item(m, j)
            if S.branch(S.eq(r0, 0)):
                S.ensure('constant-chain-has-none', S.and_(S.eq(t, 0), S.eq(q, 0)))
            elif S.branch(S.eq(q, 0)):
                S.ensure('none-if-the-partial-sums-stay-positive', S.eq(t, 0))
                S.ensure_forall('no-cut', (n,), lambda k: s(k + 1) >= 0)
            else:
                S.ensure('cut-within-the-chain', S.and_(1 <= q, q <= n))
                k = S.floor(q) - 1
                u = s(k) + S.item(C, k, j) / r0 - S.num(1) / 6          # = s(q)
                S.ensure('cut-at-a-whole-number-of-lags', S.eq(k + 1, q))
                S.ensure('cut-at-a-negative-partial-sum', u < 0)
                S.ensure_forall('first-such', (q - 1,), lambda k: s(k + 1) >= 0)
                S.ensure('time-from-the-sum-up-to-the-cut', S.eq(t, 2 * (u + k / S.num(6))))
        S.ensure_forall('chain-not-modified', (n, p), lambda i, j: S.eq(S.item(ch, i, j), S.item(c0, i, j)))
    c.__name__ = 'autocorrelation_time_%s' % (p0 or 'any')
    c.symbolic_only = True
    return c


def summary_wiring(S):
    n, p = S.int('nsimu', 1), S.int('p', 1)
    c = S.arr('chain', (n, p))
    c0 = S.snap(c)
    bm, z, pv, tau, m = (S.arr(k, (p,)) for k in ('bm', 'z', 'pv', 'tau', 'm'))
    for k, r in (('batch_mean_standard_deviation', bm), ('geweke', (z, pv)), ('integrated_autocorrelation_time', (tau, m)),
                 ('get_parameter_names', None), ('print_chain_statistics', None), ('print_chain_acceptance_info', None)):
        def f(S, env, k=k, r=r):
            x = env.get('chain')
            if x is not None:
                S.ensure_forall('diagnostics-see-the-whole-chain', (n, p), lambda t, j: S.eq(S.item(x, t, j), S.item(c0, t, j)))
                S.ensure('diagnostics-see-the-whole-chain', S.and_(S.eq(S.shape(x)[0], n), S.eq(S.shape(x)[1], p)))
            return r
        S.summary(CS + k, f)
    st = S.call(CS + 'chainstats', c, returnstats=True)
    i = lambda *k: S.item(S.item(st, *k[:-1]), k[-1]) if len(k) > 1 else S.item(st, k[0])
    mu = lambda j: S.sum(n, lambda t: S.item(c0, t, j)) / n
    for k in ('mean', 'std', 'bmstd', 'mcerr'):
        S.ensure('one-value-per-column', S.eq(S.len(i(k)), p))
    S.ensure_forall('mean', (p,), lambda j: S.eq(S.item(i('mean'), j), mu(j)))
    for j in S.some('column', p):
        ss = S.sum_nonneg(n, lambda t: S.pow(S.item(c0, t, j) - mu(j), 2))
        S.ensure('std', S.eq(S.item(i('std'), j), S.sqrt(ss / n)))
    S.ensure_forall('batch-mean-std-reported', (p,), lambda j: S.eq(S.item(i('bmstd'), j), S.item(bm, j)))
    S.ensure_forall('monte-carlo-error', (p,), lambda j: S.eq(S.item(i('mcerr'), j), S.item(bm, j) / S.sqrt(n)))
    for a, b, v in (('geweke', 'z', z), ('geweke', 'p', pv), ('iact', 'tau', tau), ('iact', 'm', m)):
        S.ensure_forall('diagnostic-reported-under-its-name', (p,), lambda j: S.eq(S.item(i(a, b), j), S.item(v, j)))


summary_wiring.symbolic_only = True


def several_chains(S):
    """one potential scale reduction per parameter, from the column of every chain (2 parameters, 3 chains)"""
    n = S.int('nsimu', 2)
    cs = [S.arr('chain%d' % k, (n, 2)) for k in range(3)]
    c0 = [S.snap(c) for c in cs]
    seen = []

    def f(S, env):
        seen.append((S.snap(env['x']), env['nsimu'], env['nchains']))
        return len(seen) - 1
    S.summary(CS + 'calculate_psrf', f)
    r = S.call(CS + 'gelman_rubin', S.list(cs), S.list(['a', 'b']), None, False)
    S.ensure('one-entry-per-parameter', S.eq(S.len(r), 2))
    for j, k in enumerate('ab'):
        x, m, q = seen[int(un_int(S, S.item(r, k)))]
        S.ensure('sizes', S.and_(S.eq(m, n), S.eq(q, 3)))
        S.ensure_forall('column-of-every-chain', (n, 3), lambda t, c: S.and_(*[S.implies(S.eq(c, e), S.eq(S.item(x, t, e), S.item(c0[e], t, j))) for e in range(3)]))
    e = S.tryrun(lambda: S.call(CS + 'gelman_rubin', S.list(cs[:1]), S.list(['a', 'b']), None, False))
    S.ensure('single-chain-refused', S.raised(e))


def any_chains(S):
    """any number of chains (3 parameters)"""
    n, K = S.int('nsimu', 2), S.int('K', 2)
    X = S.arr('chains', (K, n, 3))
    seen = []

    def f(S, env):
        seen.append((S.snap(env['x']), env['nsimu'], env['nchains']))
        return len(seen) - 1
    S.summary(CS + 'calculate_psrf', f)
    r = S.call(CS + 'gelman_rubin', S.symlist(K, lambda k: S.mk((n, 3), lambda t, j: S.item(X, k, t, j))), S.list(['a', 'b', 'c']), None, False)
    S.ensure('one-entry-per-parameter', S.eq(S.len(r), 3))
    for j, k in enumerate('abc'):
        x, m, q = seen[int(un_int(S, S.item(r, k)))]
        S.ensure('sizes', S.and_(S.eq(m, n), S.eq(q, K), S.eq(S.shape(x)[0], n), S.eq(S.shape(x)[1], K)))
        S.ensure_forall('column-of-every-chain', (n, K), lambda t, c: S.eq(S.item(x, t, c), S.item(X, c, t, j)))


def un_int(S, x):
    return next(k for k in range(4) if S.valid(S.eq(x, k)))


several_chains.symbolic_only = any_chains.symbolic_only = True

CONTRACTS = [psrf, batch_means, batch_means_default, geweke, spectral_columns, zero_frequency, summary_wiring, autocorrelation(1), autocorrelation(2), several_chains, any_chains]
