"""C19 - post-processing helpers keep and order what the user gave them."""
CP = 'pymcmcstat.chain.ChainProcessing:'
PU = 'pymcmcstat.plotting.utilities:'
GU = 'pymcmcstat.utilities.general:'
ASSUMPTIONS = ['C19: math.sqrt returns the exact square root (rounding is not modelled)',
               'C19: settings are merged for dictionaries with the listed shapes of keys (every combination of present / absent, flat / nested up to three levels)']


def pres_list(S, K=3):
    p = S.int('p', 1)
    N = [S.int('nsimu%d' % k, 1) for k in range(K)]
    ch = [S.arr('chain%d' % k, (N[k], p)) for k in range(K)]
    return p, N, ch, S.list([S.dict(dict(chain=ch[k], nsimu=N[k])) for k in range(K)])


def combined(S):
    """3 chains of any lengths, any burn-in percentage"""
    p, N, ch, pres = pres_list(S)
    c0 = [S.snap(c) for c in ch]
    b = S.real('percentage', 0, 99)
    C, idx = S.call(CP + 'generate_combined_chain_with_index', pres, b)
    cut = [S.floor(n * b / 100) for n in N]
    keep = [n - c for n, c in zip(N, cut)]
    off = [0, keep[0], keep[0] + keep[1]]
    S.ensure('all-rows-after-burn-in', S.and_(S.eq(S.shape(C)[0], keep[0] + keep[1] + keep[2]), S.eq(S.shape(C)[1], p)))
    S.ensure('one-label-per-row', S.eq(S.len(idx), keep[0] + keep[1] + keep[2]))
    for k in range(3):
        S.ensure_forall('rows-in-order', (keep[k], p), lambda r, j: S.eq(S.item(C, off[k] + r, j), S.item(c0[k], cut[k] + r, j)))
        for r in S.some('row%d' % k, keep[k]):
            S.ensure('labelled-with-their-chain', S.same_text(S.item(idx, off[k] + r), 'Chain {}', k))
        S.ensure_forall('chains-not-modified', (N[k], p), lambda r, j: S.eq(S.item(ch[k], r, j), S.item(c0[k], r, j)))


def listed(S):
    p, N, ch, pres = pres_list(S)
    c0 = [S.snap(c) for c in ch]
    b = S.real('percentage', 0, 99)
    L = S.call(CP + 'generate_chain_list', pres, b)
    S.ensure('one-entry-per-chain', S.eq(S.len(L), 3))
    for k in range(3):
        cut = S.floor(N[k] * b / 100)
        S.ensure('rows-after-burn-in', S.eq(S.shape(S.item(L, k))[0], N[k] - cut))
        S.ensure_forall('rows-in-order', (N[k] - cut, p), lambda r, j: S.eq(S.item(S.item(L, k), r, j), S.item(c0[k], cut + r, j)))


def listed_any(S):
    """any number of chains"""
    p, K, c = S.int('p', 1), S.int('K', 1, cmax=7), S.int('c', 1, cmax=12)
    N, X = S.arr('nsimu', (K,), dtype='i', lo=1, hi=c), S.arr('chains', (K, c, p))
    b = S.real('percentage', 0, 99)
    pres = S.records(K, dict(nsimu=lambda k: S.item(N, k), chain=lambda k: S.mk((S.item(N, k), p), lambda r, j: S.item(X, k, r, j))))
    L = S.call(CP + 'generate_chain_list', pres, b)
    S.ensure('one-entry-per-chain', S.eq(S.len(L), K))
    for k in S.some('chain', K):
        n = S.item(N, k)
        cut = S.floor(n * b / 100)
        S.ensure('rows-after-burn-in', S.eq(S.shape(S.item(L, k))[0], n - cut))
        S.ensure_forall('rows-in-order', (n - cut, p), lambda r, j: S.eq(S.item(S.item(L, k), r, j), S.item(X, k, cut + r, j)))


def default_half(S):
    p, N, ch, pres = pres_list(S, 2)
    L = S.call(CP + 'generate_chain_list', pres)
    C, idx = S.call(CP + 'generate_combined_chain_with_index', pres)
    cut = [S.floor(n / 2) for n in N]
    for k in range(2):
        S.ensure_forall('half-discarded-by-default', (N[k] - cut[k], p), lambda r, j: S.eq(S.item(S.item(L, k), r, j), S.item(ch[k], cut[k] + r, j)))
    S.ensure('half-discarded-by-default', S.eq(S.shape(C)[0], N[0] - cut[0] + N[1] - cut[1]))
    S.ensure('half-discarded-by-default', S.eq(S.len(idx), N[0] - cut[0] + N[1] - cut[1]))


def merge(where, nested):
    def c(S):
        cnt = [0]

        def value(side):
            cnt[0] += 1
            return S.real('%s%d' % (side, cnt[0]))
        # shapes: for every key absent / value / dictionary, in the defaults and in the user settings
        def shape(side, depth, other=None):
            d = {}
            for k in ('a', 'b') if depth == nested else ('c',):
                opts = ['no', 'val'] + (['dict'] if depth > 0 else [])
                if other is not None and k in other:
                    opts = ['no', 'dict'] if isinstance(other[k], dict) else ['no', 'val']
                o = S.choice('%s%s%d' % (side, k, depth), opts)
                if o == 'val':
                    d[k] = value(side)
                elif o == 'dict':
                    d[k] = shape(side, depth - 1, other[k] if other is not None and k in other else None)
            return d
        dflt = shape('d', nested)
        user = shape('u', nested, dflt)
        mk = lambda d: S.dict({k: mk(v) if isinstance(v, dict) else v for k, v in d.items()})
        D, U = mk(dflt), mk(user)
        r = S.call(where + 'check_settings', D, U)

        def same(got, d, u, name):
            keys = set(d) | set(u)
            S.ensure(name, S.eq(S.len(got), len(keys)))
            for k in sorted(keys):
                S.ensure(name, S.has(got, k))
                v = S.item(got, k)
                if isinstance(d.get(k), dict):
                    same(v, d[k], u.get(k, {}), name)
                elif k in u:
                    if isinstance(u[k], dict):
                        same(v, u[k], {}, name)
                    else:
                        S.ensure(name, S.eq(v, u[k]))
                else:
                    S.ensure(name, S.eq(v, d[k]))
        same(r, dflt, user, 'defaults-kept-and-user-values-taken')
        same(D, dflt, {}, 'default-settings-not-changed')
        same(U, user, {}, 'user-settings-not-changed')
        r = S.call(where + 'check_settings', mk(dflt))
        same(r, dflt, {}, 'no-user-settings-gives-defaults')
    c.__name__ = 'settings_%s_depth%d' % ('plotting' if 'plotting' in where else 'general', nested)
    return c


def names(S):
    n = S.int('nparam', 1)
    m = S.int('given', 0)
    S.assume(m <= n)
    kind = S.choice('kind', ['none', 'list'])
    if kind == 'none':
        m = 0
    fn = S.choice('function', ['generate_names', 'extend'])
    lst = None if kind == 'none' else S.symlist(m, lambda i: S.label(i))
    r = S.call(PU + 'generate_names', n, lst) if fn == 'generate_names' else S.call(PU + 'extend_names_to_match_nparam', lst, n)
    S.ensure('one-name-per-parameter', S.eq(S.len(r), n))
    for i in S.some('position', n):
        if S.branch(i < m):
            S.ensure('given-names-kept-in-place', S.name_is(S.item(r, i), i))
        else:
            S.ensure('missing-position-filled', S.same_text(S.item(r, i), '$p_{{{}}}$', i))


def grid(S):
    n = S.int('nparam', 1, cmax=60)
    a, b = S.call(PU + 'generate_subplot_grid', n)
    r = S.sqrt(n)
    k = S.floor(r)
    S.ensure('one-row-and-column-at-least', S.and_(a >= 1, b >= 1))

    def lemma(f):
        S.ensure('lemma-square-root', f)
        S.assume(f)
    lemma(S.eq(r * r, n))
    lemma(S.and_(r >= 1, k >= 1))
    if S.branch(2 * (r - k) < 1):
        lemma(S.eq(r * r, k * k + 2 * k * (r - k) + (r - k) * (r - k)))
        lemma(n <= k * k + k)
        if S.branch(S.eq(r, k)):
            lemma(S.eq(n, k * k))
    else:
        lemma(2 * (r - k) <= 2)
        lemma(n <= (k + 1) * (k + 1))
        if S.branch(S.eq(2 * (r - k), 1)):
            lemma(S.eq(4 * n, 4 * k * k + 4 * k + 1))
    S.ensure('grid-has-room', a * b >= n)


def subsample(S):
    skip, mx, n = S.int('skip', 1), S.int('maxpoints', 1), S.int('nsimu', 1)
    r = S.call(PU + 'setup_subsample', skip, mx, n)
    m = S.len(r)
    S.ensure('not-empty', m >= 1)
    S.ensure('starts-at-row-zero', S.eq(S.item(r, 0), 0))
    S.ensure_forall('valid-rows', (m,), lambda i: S.and_(0 <= S.item(r, i), S.item(r, i) < n))
    S.ensure_forall('increasing', (m - 1,), lambda i: S.item(r, i) < S.item(r, i + 1))


CONTRACTS = [combined, listed, listed_any, default_half] + [merge(w, d) for w in (PU, GU) for d in (0, 1, 2)] + [names, grid, subsample]
