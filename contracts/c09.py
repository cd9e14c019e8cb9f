"""C09 - the gamma generator is the Marsaglia-Tsang rejection sampler."""
from .common import EV
ASSUMPTIONS = ['C09: numpy.random.randn/rand return arbitrary reals / reals in [0,1); termination of the rejection loop is not claimed', 'C09: that different entries hold different draws is verified for the sizes 1x1, 1x3, 2x2 and 3x1 (shape, scale and draws arbitrary); that every entry is a draw of the requested shape and scale, and that there are as many draws as entries, for any size']


def accepted_draw(S):
    a, b = S.real('a', lo=1), S.real('b', pos=True)
    y = S.call(EV + '._gammar_mt1', S.obj(EV), a, b)
    x, u = S.draw_item(S.draws('n', within=True)[-1], 0), S.draw_item(S.draws('u', within=True)[-1], 0)
    d = a - S.num(3) ** -1 if not S.sym else a - S.num(1) / 3
    t = 1 + (1 / S.sqrt(9 * d)) * x
    v = t * t * t
    S.ensure('value-is-scale-times-d-times-v', S.eq(S.vec(y, 0), b * d * v))
    S.ensure('v-positive', v > 0)
    S.ensure('acceptance-condition-of-the-last-draws', S.or_(u < 1 - S.num(0.0331) * x * x * x * x, S.log(u) < x * x / 2 + d * (1 - v + S.log(v))))
    S.ensure('non-negative', S.vec(y, 0) >= 0)


def small_shape(S):
    a, b = S.real('a', lo=0, hi=1), S.real('b', pos=True)
    S.assume(S.and_(0 < a, a < 1))
    g = lambda x, y: S.ufun('gam1', [x, y])

    def summ(S, env):
        v = g(env['a'], env['b'])
        S.assume(v >= 0)
        S.ensure('shape-of-the-inner-variate-is-at-least-one', env['a'] >= 1)
        return S.mk((1,), lambda i: v)
    S.summary(EV + '._gammar_mt1', summ)
    o = S.obj(EV)
    y = S.call(EV + '._gammar_mt1', o, a, b)
    S.ensure('one-uniform-draw', len(S.draws('u')) == 1)
    u = S.draw_item(S.draws('u')[-1], 0)
    S.ensure('variate-of-shape-a-plus-one-times-u-to-the-one-over-a', S.eq(S.vec(y, 0), g(1 + a, b) * S.pow(u, 1 / a)))
    S.ensure('non-negative', S.vec(y, 0) >= 0)


small_shape.symbolic_only = True


def array_fill(m, n):
    def c(S):
        a, b = S.real('a'), S.real('b', pos=True)
        calls, vals = [], []

        def mt1(S, a=None, b=1):
            k = len(calls)
            calls.append((a, b))
            v = S.real('draw%d' % k, lo=0)
            vals.append(v)
            return S.mk((1,), lambda i: v)
        o = S.obj(EV, _gammar_mt1=S.fn(mt1))
        y = S.method(o, 'gammar', m, n, a, b)
        if S.branch(a <= 0):
            S.ensure('no-draw-for-non-positive-shape', len(calls) == 0)
            S.ensure_forall('zero-for-non-positive-shape', (m, n), lambda i, j: S.eq(S.item(y, i, j), 0))
            return
        S.ensure('one-draw-per-entry', len(calls) == m * n)
        for x, z in calls:
            S.ensure('requested-shape-and-scale', S.and_(S.eq(x, a), S.eq(z, b)))
        idx = [(i, j) for j in range(n) for i in range(m)]
        for k, (i, j) in enumerate(idx):
            S.ensure('every-entry-is-its-own-draw', S.or_(*[S.eq(S.item(y, i, j), vals[q]) for q in range(len(calls))]))
        for k in range(m * n):
            S.ensure('every-draw-is-used', S.or_(*[S.eq(S.item(y, i, j), vals[k]) for i, j in idx]))
        S.ensure('requested-size', S.and_(S.eq(S.shape(y)[0], m), S.eq(S.shape(y)[1], n)))
    c.__name__ = 'array_fill_%d_%d' % (m, n)
    return c


def array_any(S):
    """any size: every entry is a value the scalar generator returned for the requested shape and scale, and as many were drawn as there are entries"""
    m, n = S.int('m', 1), S.int('n', 1)
    a, b = S.real('a'), S.real('b', pos=True)
    S.assume(a > 0)
    gam = lambda x, z: S.ufun('gam', [x, z])
    g = S.obj(None, k=S.num(0))

    def mt1(S, a_=None, b_=1, **kw):
        x, z = kw.get('a', a_), kw.get('b', b_)
        S.ensure('requested-shape-and-scale', S.and_(S.eq(x, a), S.eq(z, b)))
        k = S.get(g, 'k')
        v = gam(x, z)
        S.put(g, 'k', k + 1)
        return S.mk((1,), lambda i: v)
    o = S.obj(EV, _gammar_mt1=S.fn(mt1))
    S.loop_inv('columns', lambda S, env, k: [((), lambda: S.eq(S.get(g, 'k'), k * m), 'c'), ((), lambda: S.eq(S.get(g, 'k'), k * n), 'r')])
    y = S.method(o, 'gammar', m, n, a, b)
    S.ensure('requested-size', S.and_(S.eq(S.shape(y)[0], m), S.eq(S.shape(y)[1], n)))
    S.ensure_forall('every-entry-is-a-draw', (m, n), lambda i, j: S.eq(S.item(y, i, j), gam(a, b)))
    S.ensure('as-many-draws-as-entries', S.eq(S.get(g, 'k'), m * n))


CONTRACTS = [accepted_draw, small_shape, array_any] + [array_fill(m, n) for m, n in ((1, 1), (1, 3), (2, 2), (3, 1))]
