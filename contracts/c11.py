"""C11 - default sum of squares and data bookkeeping are exact."""
from .common import MP
SOS = 'pymcmcstat.procedures.SumOfSquares:SumOfSquares'
DS = 'pymcmcstat.settings.DataStructure:DataStructure'
ASSUMPTIONS = ['C11: the default sum of squares for any number of batches with any numbers of rows, one response column, model and data values finite; adding a data set is verified after any number of others (with the row count of the data) and, with a given count, for one and three batches']


def default_sos(B):
    def c(S):
        n, p = [S.int('n%d' % b, 1) for b in range(B)], S.int('p', 1)
        x = [S.arr('x%d' % b, (n[b], 1)) for b in range(B)]
        y = [S.arr('y%d' % b, (n[b], 1)) for b in range(B)]
        w = [S.real('w%d' % b, lo=0) for b in range(B)]
        th = S.arr('theta', (p,))
        ym = [S.arr('ymodel%d' % b, (n[b], 1)) for b in range(B)]
        calls = []

        def model(S, xd, q):
            S.ensure('one-call-per-batch', len(calls) < B)
            calls.append((xd, S.snap(xd), S.snap(q)))
            return ym[len(calls) - 1]
        D = S.obj(DS, xdata=S.list(x), ydata=S.list(y), weight=S.list(w), n=S.list(n), shape=S.list([(k, 1) for k in n]), user_defined_object=S.list([0] * B))
        ss = S.call(SOS + '.mcmc_sos_function', th, D, B, S.fn(model))
        S.ensure('one-group-per-batch', S.eq(S.len(ss), B))
        S.ensure('each-batch-modelled', len(calls) == B)
        for b in range(B):
            S.ensure('model-called-on-x-data-of-the-batch', S.and_(S.eq(S.shape(calls[b][0])[0], n[b]), S.eq(S.shape(calls[b][0])[1], 1)))
            S.ensure_forall('model-called-with-the-parameter-vector', (p,), lambda i: S.eq(S.item(calls[b][2], i), S.item(th, i)))
            S.ensure('weighted-sum-of-squared-differences', S.eq(S.item(ss, b), S.sum(n[b], lambda i: w[b] * (S.item(y[b], i, 0) - S.item(ym[b], i, 0)) * (S.item(y[b], i, 0) - S.item(ym[b], i, 0)))))
            S.ensure_forall('model-called-on-x-data-values-of-the-batch', (n[b],), lambda i: S.eq(S.item(calls[b][1], i, 0), S.item(x[b], i, 0)))
    c.__name__ = 'default_sum_of_squares_%d_batch' % B
    return c


def default_sos_any(S):
    """any number of batches, each with its own number of rows; the model is any function M of the x-value, x-values being numbered"""
    B, p, c, K = S.int('B', 1, cmax=6), S.int('p', 1), S.int('c', 1, cmax=9), S.int('K', 1)
    M = S.arr('M', (K,))
    R = S.arr('rows', (B,), dtype='i', lo=1, hi=c)
    X, Y, w, th = S.arr('X', (B, c), dtype='i', lo=0, hi=K - 1), S.arr('Y', (B, c)), S.arr('w', (B,), lo=0), S.arr('theta', (p,))
    mu = lambda v: S.item(M, v)

    def model(S, xd, q):
        S.ensure_forall('model-called-with-the-parameter-vector', (p,), lambda i: S.eq(S.item(q, i), S.item(th, i)))
        return S.mk((S.shape(xd)[0], 1), lambda i, j: mu(S.item(xd, i, 0)))
    rows = lambda b: S.item(R, b)
    D = S.obj(DS, xdata=S.symlist(B, lambda b: S.mk((rows(b), 1), lambda i, j: S.item(X, b, i), 'i')), ydata=S.symlist(B, lambda b: S.mk((rows(b), 1), lambda i, j: S.item(Y, b, i))),
              weight=S.symlist(B, lambda b: S.item(w, b)), n=S.symlist(B, rows))

    def ref(b):
        d = lambda i: S.item(Y, b, i) - mu(S.item(X, b, i))
        return S.sum(rows(b), lambda i: S.item(w, b) * d(i) * d(i))
    ss = S.call(SOS + '.mcmc_sos_function', th, D, B, S.fn(model))
    S.ensure('one-group-per-batch', S.eq(S.len(ss), B))
    S.ensure_forall('weighted-sum-of-squared-differences', (B,), lambda b: S.eq(S.item(ss, b), ref(b)))


def scalar_result(S):
    n = S.int('n', 1)
    v = S.real('value')
    o = S.new(SOS, S.obj(None, sos_function=S.fn(lambda S, q, d, custom=None: v), model_function=None, nbatch=1), S.obj(None),
              S.obj(MP, _parind=S.mk((n,), lambda i: i, 'i'), _initial_value=S.arr('iv', (n,)), _local=S.arr('loc', (n,), lo=0, hi=0), npar=n))
    r = S.method(o, 'evaluate_sos_function', S.arr('theta', (n,)))
    S.ensure('scalar-is-one-group', S.eq(S.len(r), 1))
    S.ensure('value-unchanged', S.eq(S.item(r, 0), v))


def vector_result(S):
    n, m = S.int('n', 1), S.int('m', 1)
    v = S.arr('value', (m,), ext=True, nan=True, cvals=[1., 2., float('inf'), float('nan')])
    o = S.new(SOS, S.obj(None, sos_function=S.fn(lambda S, q, d, custom=None: v), model_function=None, nbatch=1), S.obj(None),
              S.obj(MP, _parind=S.mk((n,), lambda i: i, 'i'), _initial_value=S.arr('iv', (n,)), _local=S.arr('loc', (n,), lo=0, hi=0), npar=n))
    r = S.method(o, 'evaluate_sos_function', S.arr('theta', (n,)))
    S.ensure('one-entry-per-group', S.eq(S.len(r), m))
    S.ensure_forall('values-unchanged', (m,), lambda i: S.eq(S.item(r, i), S.item(v, i)))


def batches(kinds):
    def c(S):
        d = S.new(DS)
        want = []
        for b, k in enumerate(kinds):
            n = S.int('n%d' % b, 1)
            if k == 'vector':
                x, y, xs, ys = S.arr('x%d' % b, (n,)), S.arr('y%d' % b, (n,)), (n, 1), (n, 1)
            else:
                cx, cy = S.int('cx%d' % b, 1, cmax=3), S.int('cy%d' % b, 1, cmax=3)
                x, y, xs, ys = S.arr('x%d' % b, (n, cx)), S.arr('y%d' % b, (n, cy)), (n, cx), (n, cy)
            w, u = S.real('w%d' % b), S.obj(None)
            if S.choice('own_count%d' % b, [False, True]) if b == len(kinds) - 1 else False:
                c = S.int('count%d' % b, 1)
                S.method(d, 'add_data_set', x, y, n=c, weight=w, user_defined_object=u)
            else:
                c = n
                S.method(d, 'add_data_set', x, y, weight=w, user_defined_object=u)
            want.append((k, c, x, y, xs, ys, w, u))
        B = len(kinds)
        for a in ('xdata', 'ydata', 'n', 'shape', 'weight', 'user_defined_object'):
            S.ensure('one-entry-per-batch', S.eq(S.len(S.get(d, a)), B))
        for b, (k, n, x, y, xs, ys, w, u) in enumerate(want):
            for a, src, sh in (('xdata', x, xs), ('ydata', y, ys)):
                v = S.item(S.get(d, a), b)
                S.ensure('stored-as-matrix-with-a-row-per-observation', S.and_(S.eq(S.shape(v)[0], sh[0]), S.eq(S.shape(v)[1], sh[1])) if len(S.shape(v)) == 2 else False)
                S.ensure_forall('values-in-order', sh, lambda i, j: S.eq(S.item(v, i, j), S.item(src, i) if k == 'vector' else S.item(src, i, j)))
            S.ensure('number-of-observations-is-number-of-rows-unless-given', S.eq(S.item(S.get(d, 'n'), b), n))
            sh = S.item(S.get(d, 'shape'), b)
            S.ensure('recorded-shape', S.and_(S.eq(sh[0], ys[0]), S.eq(sh[1], ys[1])))
            S.ensure('weight-kept', S.eq(S.item(S.get(d, 'weight'), b), w))
            S.ensure('extra-object-kept', S.same_obj(S.item(S.get(d, 'user_defined_object'), b), u))
        tot = S.method(d, 'get_number_of_observations')
        s = want[0][1]
        for q in want[1:]:
            s = s + q[1]
        S.ensure('total-number-of-observations', S.eq(S.vec(tot, 0), s))
        S.ensure('number-of-batches', S.eq(S.method(d, 'get_number_of_batches'), B))
    c.__name__ = 'data_sets_' + '_'.join(kinds)
    return c


def one_more(kind):
    """a data set added after any number B of others"""
    def c(S):
        B, c, n = S.int('B', 0, cmax=5), S.int('c', 1, cmax=6), S.int('n', 1)
        R = S.arr('rows', (B,), dtype='i', lo=1, hi=c)
        X, Y, w0, u0 = S.arr('X', (B, c)), S.arr('Y', (B, c)), S.arr('w0', (B,)), S.arr('u0', (B,))
        rows = lambda b: S.item(R, b)
        d = S.obj(DS, xdata=S.symlist(B, lambda b: S.mk((rows(b), 1), lambda i, j: S.item(X, b, i))), ydata=S.symlist(B, lambda b: S.mk((rows(b), 1), lambda i, j: S.item(Y, b, i))),
                  weight=S.symlist(B, lambda b: S.item(w0, b)), n=S.symlist(B, rows), shape=S.symlist(B, lambda b: (rows(b), 1)), user_defined_object=S.symlist(B, lambda b: S.item(u0, b)))
        if kind == 'vector':
            x, y, xs, ys = S.arr('x', (n,)), S.arr('y', (n,)), (n, 1), (n, 1)
        else:
            cx, cy = S.int('cx', 1, cmax=3), S.int('cy', 1, cmax=3)
            x, y, xs, ys = S.arr('x', (n, cx)), S.arr('y', (n, cy)), (n, cx), (n, cy)
        w, u = S.real('w'), S.real('u')
        S.method(d, 'add_data_set', x, y, weight=w, user_defined_object=u)
        at = lambda a, b: S.item(S.get(d, a), b)
        for a in ('xdata', 'ydata', 'n', 'shape', 'weight', 'user_defined_object'):
            S.ensure('one-entry-per-batch', S.eq(S.len(S.get(d, a)), B + 1))
        for a, src, sh in (('xdata', x, xs), ('ydata', y, ys)):
            v = at(a, B)
            S.ensure('stored-as-matrix-with-a-row-per-observation', S.and_(S.eq(S.shape(v)[0], sh[0]), S.eq(S.shape(v)[1], sh[1])) if len(S.shape(v)) == 2 else False)
            S.ensure_forall('values-in-order', sh, lambda i, j: S.eq(S.item(v, i, j), S.item(src, i) if kind == 'vector' else S.item(src, i, j)))
        S.ensure('number-of-observations-is-number-of-rows', S.eq(at('n', B), n))
        S.ensure('recorded-shape', S.and_(S.eq(at('shape', B)[0], ys[0]), S.eq(at('shape', B)[1], ys[1])))
        S.ensure('weight-kept', S.eq(at('weight', B), w))
        S.ensure('extra-object-kept', S.eq(at('user_defined_object', B), u))
        tot = S.method(d, 'get_number_of_observations')
        S.ensure('total-number-of-observations', S.eq(S.vec(tot, 0), S.sum(B, rows) + n))
        S.ensure('number-of-batches', S.eq(S.method(d, 'get_number_of_batches'), B + 1))
        for b in S.some('earlier', B):
            S.ensure('earlier-batches-unchanged', S.and_(S.eq(at('n', b), rows(b)), S.eq(at('weight', b), S.item(w0, b)), S.eq(at('user_defined_object', b), S.item(u0, b)),
                                                         S.eq(at('shape', b)[0], rows(b)), S.eq(at('shape', b)[1], 1)))
            for a, src in (('xdata', X), ('ydata', Y)):
                v = at(a, b)
                S.ensure('earlier-batches-unchanged', S.and_(S.eq(S.shape(v)[0], rows(b)), S.eq(S.shape(v)[1], 1)))
                S.ensure_forall('earlier-batches-unchanged', (rows(b),), lambda i: S.eq(S.item(v, i, 0), S.item(src, b, i)))
    c.__name__ = 'one_more_' + kind
    return c


CONTRACTS = [one_more('vector'), one_more('matrix')] + [default_sos(b) for b in (1, 2, 3)] + [default_sos_any, scalar_result, vector_result, batches(['vector']), batches(['matrix']), batches(['vector', 'matrix', 'vector'])]
