"""Assumed contracts of external functions (builtins, numpy, math, ...).
Each entry is a trusted specification; the evidence lists the ones a proof used."""
import math
import z3
from fractions import Fraction
from . import terms as T
from .terms import Unsupported, XR
from .values import *
from .npm import zexp, zlog, zsqrt, zabs, zncdf, zpow, floor_int, ceil_int, trunc_int, EXP, LOG, SQRT, POW, COS, SIN, PI, I, RL, BL

EXT = {}
ARRM = {}


def ext(*names):
    def d(f):
        for n in names:
            EXT[n] = f
        return f
    return d


def arrm(*names):
    def d(f):
        for n in names:
            ARRM[n] = f
        return f
    return d


def axis_of(args, kw, pos=1):
    if 'axis' in kw:
        return kw['axis']
    return args[pos] if len(args) > pos else None


# ------------------------------------------------------------------ builtins
@ext('builtins.range')
def _range(it, a, k):
    a = [it.unw(x) for x in a]
    b = []
    for x in a:
        if it.is_arr(x):
            x = it.scalar_of(x)
        if isinstance(x, (Fraction, float)) or (z3.is_expr(x) and z3.is_real(x)):
            raise PyRaise('TypeError', ('range of float',))
        if not T.is_scalar(x):
            raise PyRaise('TypeError', ('range',))
        b.append(x)
    if len(b) == 1:
        return RangeV(0, b[0], 1)
    return RangeV(b[0], b[1], b[2] if len(b) > 2 else 1)


@ext('builtins.len')
def _len(it, a, k):
    return it.length(a[0])


@ext('builtins.sum')
def _sum(it, a, k):
    v = a[0]
    start = a[1] if len(a) > 1 else 0
    if it.is_arr(v):
        if len(it.H(v).shape) == 0:
            raise PyRaise('TypeError', ('iteration over a 0-d array',))
        r = it.reduce_sum(v, 0)
        return r if (isinstance(start, int) and start == 0) else it.binop('Add', start, r)
    if T.is_scalar(it.unw(v)):
        raise PyRaise('TypeError', ('not iterable',))
    seq = it.iterate(v)
    if isinstance(seq.n, int):
        r = start
        for i in range(seq.n):
            r = it.binop('Add', r, seq.get(i))
        return r
    arr = it.to_array(v)
    r = it.reduce_sum(arr, 0)
    return r if (isinstance(start, int) and start == 0) else it.binop('Add', start, r)


def intlike(x):
    if isinstance(x, int) or (isinstance(x, Fraction) and x.denominator == 1):
        return True
    if T.special(x) or not z3.is_expr(x):
        return False
    return z3.is_int(x) or z3.simplify(x).decl().kind() == z3.Z3_OP_TO_REAL


def _minmax(it, a, kw, ismax):
    if kw:
        raise Unsupported('min/max with keywords')
    if len(a) == 1:
        v = a[0]
        if it.is_arr(v) and len(it.H(v).shape) == 1 and not isinstance(it.H(v).shape[0], int):
            return _arr_extreme(it, v, None, ismax)
        items = it.concrete_items(v)
    else:
        items = list(a)
    if not items:
        raise PyRaise('ValueError', ('empty',))
    r = items[0]
    for x in items[1:]:
        u, w = it.unw(r), it.unw(x)
        if T.is_scalar(u) and T.is_scalar(w):
            c = T.lt(u, w) if ismax else T.lt(w, u)
            if intlike(u) and intlike(w) and z3.is_expr(c):
                if it.ctx.quick_valid(c):
                    r = w
                    continue
                if it.ctx.quick_valid(T.not_(c)):
                    r = u
                    continue
            r = T.ite(c, w, u)
        else:
            c = it.compare('Gt' if ismax else 'Lt', x, r)
            r = x if it.truth(c) else r
    return r


@ext('builtins.min')
def _min(it, a, k):
    return _minmax(it, a, k, False)


@ext('builtins.max')
def _max(it, a, k):
    return _minmax(it, a, k, True)


def _arr_extreme(it, v, axis, ismax):
    """max / min over an axis (finite elements)"""
    sh, e, dt, masks = it.lift(v)
    ctx = it.ctx
    if not sh:
        return e()
    if axis is not None:
        axis = it.conc_int(axis)
        if axis < 0:
            axis += len(sh)
    if axis is None and len(sh) > 1:
        size = 1
        for d in sh:
            if not isinstance(d, int):
                raise Unsupported('max of symbolic matrix')
        import itertools
        vals = [e(*ix) for ix in itertools.product(*[range(d) for d in sh])]
        r = vals[0]
        for x in vals[1:]:
            r = T.ite(T.lt(r, x) if ismax else T.lt(x, r), x, r)
        return r
    ax = 0 if axis is None else axis
    n = sh[ax]
    osh = sh[:ax] + sh[ax + 1:]

    def red(*ix):
        g = lambda k: e(*(ix[:ax] + (k,) + ix[ax:]))
        if isinstance(n, int) and n <= 8:
            if n == 0:
                raise PyRaise('ValueError', ('zero-size',))
            r = g(0)
            for q in range(1, n):
                x = g(q)
                r = T.ite(T.lt(r, x) if ismax else T.lt(x, r), x, r)
            return r
        k0 = ctx.var('mx')
        with ctx.binding([k0], k0 >= 0, k0 < T.toz(n)):
            body = g(k0)
        if T.special(body):
            raise Unsupported('max of possibly non-finite')
        b = T.toz(body)
        cid = ctx.ext_call('max' if ismax else 'min', [('a', (n,), lambda k: T.subst(b, [(k0, T.toz(k))]))])
        m = z3.Function('amax' if ismax else 'amin', I, b.sort())(cid)
        w = z3.Function('argmax' if ismax else 'argmin', I, I)(cid)
        nn = T.toz(n)
        ctx.assume(z3.Implies(nn > 0, z3.And(w >= 0, w < nn, z3.substitute(b, (k0, w)) == m)))
        ctx.add_rule([k0], z3.Implies(z3.And(k0 >= 0, k0 < nn), b <= m if ismax else b >= m), label='max')
        return m
    if not osh:
        return red()
    return it.mkarr(osh, red, dt)


@ext('builtins.abs', 'numpy.abs', 'numpy.absolute', 'math.fabs', 'numpy.fabs')
def _abs(it, a, k):
    v = a[0]
    if isinstance(v, OpaqueV) and v.kind == 'cplx':
        x, y = v.data
        return it.map1(it.binop('Add', it.binop('Mult', x, x), it.binop('Mult', y, y)), zsqrt, 'f')
    return it.map1(v, zabs)


@ext('builtins.int')
def _int(it, a, k):
    v = it.unw(a[0])
    if it.is_arr(v):
        c = it.H(v)
        for d in c.shape:
            if not it.is_one(d):
                raise PyRaise('TypeError', ('only length-1 arrays',))
        v = it.elem(v)(*[0] * len(c.shape))
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            raise PyRaise('ValueError', (v,))
    if v is None:
        raise PyRaise('TypeError')
    if isinstance(v, float):
        raise PyRaise('ValueError' if math.isnan(v) else 'OverflowError')
    if isinstance(v, XR):
        if it.ctx.branch(T.tobool(T.isfinite(v))):
            return trunc_int(v.v)
        raise PyRaise('ValueError')
    return trunc_int(v)


@ext('builtins.float')
def _float(it, a, k):
    if not a:
        return Fraction(0)
    v = it.unw(a[0])
    if isinstance(v, str):
        try:
            return T.num(float(v))
        except ValueError:
            raise PyRaise('ValueError')
    if it.is_arr(v):
        c = it.H(v)
        v = it.elem(v)(*[0] * len(c.shape))
    if isinstance(v, (bool, int)):
        return Fraction(int(v))
    if T.is_scalar(v):
        return v if T.special(v) or isinstance(v, Fraction) else T.toz(v, True)
    raise Unsupported('float()')


@ext('builtins.bool')
def _bool(it, a, k):
    t = it.truth_term(a[0])
    return t if isinstance(t, bool) else PyB(t)


@ext('builtins.str', 'builtins.repr')
def _str(it, a, k):
    v = a[0]
    if isinstance(v, (str, StrF, StrV)):
        return v
    if isinstance(v, int) and not isinstance(v, bool):
        return str(v)
    if v is None or isinstance(v, bool):
        return str(v)
    return StrF('{}', (v,))


@ext('builtins.list')
def _list(it, a, k):
    if not a:
        return it.mklist([])
    v = a[0]
    if it.is_list(v):
        c = it.H(v)
        return it.alloc(ListC(c.n, c.fn, c.tail, c.soa))
    s = it.iterate(v)
    if isinstance(s.n, int):
        return it.mklist([s.get(i) for i in range(s.n)])
    return it.alloc(ListC(s.n, s.get))


@ext('builtins.tuple')
def _tuple(it, a, k):
    return tuple(it.concrete_items(a[0])) if a else ()


@ext('builtins.dict')
def _dict(it, a, k):
    d = {}
    if a:
        d.update(it.H(a[0]).d)
    d.update(k)
    return it.mkdict(d)


@ext('builtins.enumerate')
def _enum(it, a, k):
    s = it.iterate(a[0])
    st = a[1] if len(a) > 1 else k.get('start', 0)
    return IterV(s.n, lambda i: (T.add(i, st), s.get(i)))


@ext('builtins.zip')
def _zip(it, a, k):
    ss = [it.iterate(x) for x in a]
    n = ss[0].n
    for s in ss[1:]:
        if isinstance(n, int) and isinstance(s.n, int):
            n = min(n, s.n)
        elif not it.deq(n, s.n):
            n = T.ite(T.lt(n, s.n), n, s.n)
    return IterV(n, lambda i: tuple(s.get(i) for s in ss))


@ext('builtins.reversed')
def _rev(it, a, k):
    s = it.iterate(a[0])
    return IterV(s.n, lambda i: s.get(T.sub(T.sub(s.n, 1), i)))


@ext('builtins.print', 'warnings.warn', 'numpy.seterr', 'numpy.set_printoptions', 'warnings.simplefilter')
def _print(it, a, k):
    return None


@ext('builtins.isinstance')
def _isinst(it, a, k):
    v, c = a
    cs = c if isinstance(c, tuple) else (c,)
    res = False
    for x in cs:
        nm = x.name if isinstance(x, (ExtV, ClassV)) else None
        if isinstance(x, ClassV):
            if it.is_obj(v) and isinstance(it.H(v).cls, ClassV) and it.H(v).cls.name == x.name:
                return True
            continue
        if nm == 'numpy.ndarray':
            r = it.is_arr(v)
        elif nm == 'builtins.list':
            r = it.is_list(v)
        elif nm == 'builtins.tuple':
            r = isinstance(v, tuple)
        elif nm == 'builtins.dict':
            r = it.is_dict(v) or isinstance(v, SoaElem)
        elif nm == 'builtins.str':
            r = isinstance(v, (str, StrF, StrV))
        elif nm == 'builtins.bool':
            r = isinstance(v, (bool, PyB))
        elif nm in ('builtins.int', 'numpy.integer', 'numpy.int64', 'numpy.int32'):
            r = T.is_intlike(it.unw(v)) if T.is_scalar(it.unw(v)) else False
        elif nm in ('builtins.float', 'numpy.floating', 'numpy.float64'):
            u = it.unw(v)
            r = T.is_scalar(u) and not T.is_intlike(u)
        else:
            raise Unsupported('isinstance %s' % nm)
        if r:
            return True
    return res


@ext('builtins.hasattr')
def _hasattr(it, a, k):
    try:
        it.getattr(a[0], a[1])
        return True
    except PyRaise:
        return False


@ext('builtins.getattr')
def _getattr(it, a, k):
    if not isinstance(a[1], str):
        raise Unsupported('getattr of symbolic name')
    try:
        return it.getattr(a[0], a[1])
    except PyRaise:
        if len(a) > 2:
            return a[2]
        raise


@ext('builtins.setattr')
def _setattr(it, a, k):
    it.setattr(a[0], a[1], a[2])


@ext('builtins.callable')
def _callable(it, a, k):
    return isinstance(a[0], (FuncV, PyFn, ExtV, MethV, ClassV))


@ext('builtins.type')
def _type(it, a, k):
    return OpaqueV('type', a[0])


@ext('builtins.any')
def _bany(it, a, k):
    if it.is_arr(a[0]):
        return it.reduce_any(a[0])
    r = T.or_(*[T.tobool(it.truth_term(x)) for x in it.concrete_items(a[0])])
    return PyB(r) if not isinstance(r, bool) else r


@ext('builtins.all')
def _ball(it, a, k):
    if it.is_arr(a[0]):
        return it.reduce_any(a[0], neg=True)
    r = T.and_(*[T.tobool(it.truth_term(x)) for x in it.concrete_items(a[0])])
    return PyB(r) if not isinstance(r, bool) else r


@ext('builtins.round')
def _round(it, a, k):
    return _np_round(it, a, k)


@ext('builtins.sorted')
def _sorted(it, a, k):
    return it.mklist(it.sort_items(it.concrete_items(a[0]), k))


@ext('builtins.set')
def _set(it, a, k):
    items = it.concrete_items(a[0]) if a else []
    out = []
    for x in items:
        if x not in out:
            out.append(x)
    return it.mklist(out)


@ext('builtins.divmod')
def _divmod(it, a, k):
    return (it.floordiv(a[0], a[1]), it.mod(a[0], a[1]))


@ext('builtins.pow', 'math.pow', 'numpy.power')
def _pow(it, a, k):
    return it.binop('Pow', a[0], a[1])


@ext('builtins.slice')
def _slice(it, a, k):
    if len(a) == 1:
        return slice(None, a[0], None)
    return slice(*a) if len(a) == 3 else slice(a[0], a[1], None)


@ext('sys.exit')
def _exit(it, a, k):
    raise PyRaise('SystemExit', tuple(a))


@ext('copy.deepcopy')
def _deepcopy(it, a, k):
    return deep(it, a[0], {})


@ext('copy.copy')
def _copycopy(it, a, k):
    v = a[0]
    if isinstance(v, Ref):
        c = it.H(v)
        if isinstance(c, ObjC):
            return it.alloc(ObjC(c.cls, dict(c.attrs)))
        if isinstance(c, DictC):
            return it.mkdict(c.d)
        if isinstance(c, ListC):
            return it.alloc(ListC(c.n, c.fn, c.tail, c.soa))
        if isinstance(c, ArrC):
            return it.to_array(v)
    return v


def deep(it, v, memo):
    if isinstance(v, tuple):
        return tuple(deep(it, x, memo) for x in v)
    if isinstance(v, Ref):
        if v.id in memo:
            return memo[v.id]
        c = it.H(v)
        if isinstance(c, ArrC):
            r = it.to_array(v)
        elif isinstance(c, DictC):
            r = it.mkdict({})
            memo[v.id] = r
            it.ctx.heap[r.id] = DictC({k: deep(it, x, memo) for k, x in c.d.items()})
        elif isinstance(c, ObjC):
            r = it.alloc(ObjC(c.cls, {}))
            memo[v.id] = r
            it.ctx.heap[r.id] = ObjC(c.cls, {k: deep(it, x, memo) for k, x in c.attrs.items()})
        elif isinstance(c, ListC):
            if c.soa:
                r = it.alloc(ListC(c.n, c.fn, c.tail, {k: ArrField(it, it.to_array(f.ref)) if isinstance(f, ArrField) else f for k, f in c.soa.items()}))
            else:
                fn = c.fn
                g = (lambda i: deep(it, fn(i), {})) if fn else None
                r = it.alloc(ListC(c.n, g, ()))
                memo[v.id] = r
                it.ctx.heap[r.id] = ListC(c.n, g, tuple(deep(it, x, memo) for x in c.tail))
        else:
            raise Unsupported('deepcopy')
        memo[v.id] = r
        return r
    return v


# ------------------------------------------------------------------ time / os
@ext('time.time', 'time.clock', 'time.perf_counter')
def _time(it, a, k):
    return it.ctx.fresh('time', RL)


@ext('datetime.datetime.now', 'datetime.now')
def _now(it, a, k):
    return OpaqueV('now')


@ext('time.sleep', 'os.makedirs', 'os.mkdir')
def _noop(it, a, k):
    it.ctx.events.append(('os', tuple(a)))
    return None


@ext('os.path.join')
def _join(it, a, k):
    if all(isinstance(x, str) for x in a):
        import os
        return os.path.join(*a)
    parts = []
    for q, x in enumerate(a):
        parts += (['/'] if q else []) + [x]
    return it.mktext(parts)


@ext('os.path.exists', 'os.path.isfile', 'os.path.isdir')
def _exists(it, a, k):
    return PyB(it.ctx.fresh('exists', BL))


@ext('os.getcwd')
def _cwd(it, a, k):
    return '<cwd>'


# ------------------------------------------------------------------ numpy creation
def shape_arg(it, v):
    v = it.unw(v)
    if it.is_arr(v) or it.is_list(v) or isinstance(v, tuple):
        return [it.unw(x) for x in it.concrete_items(v)]
    return [v]


def dtype_code(it, v, default='f'):
    if v is None:
        return default
    nm = v.name if isinstance(v, ExtV) else v
    if nm in ('builtins.int', 'numpy.int64', 'numpy.int32', 'int', 'numpy.int_'):
        return 'i'
    if nm in ('builtins.bool', 'numpy.bool_', 'bool'):
        return 'b'
    if nm in ('builtins.float', 'numpy.float64', 'float', 'numpy.float_'):
        return 'f'
    if isinstance(v, OpaqueV) and v.kind == 'dtype':
        return v.data
    raise Unsupported('dtype %r' % (nm,))


def filled(val):
    def f(it, a, k):
        sh = shape_arg(it, a[0] if a else k.get('shape'))
        dt = dtype_code(it, k.get('dtype', a[1] if len(a) > 1 else None))
        for d in sh:
            if isinstance(it.unw(d), Fraction):
                raise PyRaise('TypeError', ('float dimension',))
            dz = it.dim(d)
            if isinstance(dz, int):
                if dz < 0:
                    raise PyRaise('ValueError', ('negative dimensions',))
            elif not it.ctx.quick_valid(dz >= 0):
                if not it.ctx.branch(dz >= 0):
                    raise PyRaise('ValueError', ('negative dimensions',))
        x = int(val) if dt == 'i' else bool(val) if dt == 'b' else Fraction(val)
        return it.mkarr(sh, lambda *ix: x, dt)
    return f


EXT['numpy.zeros'] = filled(0)
EXT['numpy.ones'] = filled(1)


@ext('numpy.empty')
def _empty(it, a, k):
    sh = shape_arg(it, a[0])
    f = it.ctx.fresh_fun('empty', len(sh), RL)
    return it.mkarr(sh, lambda *ix: f(*ix), 'f')


@ext('numpy.full')
def _full(it, a, k):
    sh = shape_arg(it, a[0])
    v = it.unw(a[1])
    return it.mkarr(sh, lambda *ix: v, 'i' if T.is_intlike(v) else 'f')


@ext('numpy.zeros_like')
def _zl(it, a, k):
    sh, e, dt, m = it.lift(a[0])
    z = 0 if dt == 'i' else Fraction(0)
    return it.mkarr(sh, lambda *ix: z, dt)


@ext('numpy.ones_like')
def _ol(it, a, k):
    sh, e, dt, m = it.lift(a[0])
    z = 1 if dt == 'i' else Fraction(1)
    return it.mkarr(sh, lambda *ix: z, dt)


def delta(i, j):
    if isinstance(i, int) and isinstance(j, int):
        return Fraction(int(i == j))
    i, j = T.toz(i), T.toz(j)
    if i.eq(j):
        return Fraction(1)
    return z3.If(i == j, z3.RealVal(1), z3.RealVal(0))


@ext('numpy.eye', 'numpy.identity')
def _eye(it, a, k):
    n = it.unw(a[0])
    m = a[1] if len(a) > 1 else n
    f = lambda i, j: delta(i, j)
    f.is_eye = True
    return it.mkarr((n, m), f)


@ext('numpy.array', 'numpy.asarray', 'numpy.asfarray', 'numpy.asanyarray')
def _array(it, a, k):
    dt = k.get('dtype', a[1] if len(a) > 1 else None)
    dt = dtype_code(it, dt) if dt is not None else None
    if k.get('copy', True) is not True:
        raise Unsupported('array(copy=...)')
    r = it.to_array(a[0])
    if dt is not None:
        c = it.H(r)
        e = it.elem(r)
        if c.dtype != dt:
            it.ctx.heap[r.id] = ArrC(c.shape, lambda *ix: it.cast(e(*ix), dt), dt)
    if 'ndmin' in k and len(it.H(r).shape) < k['ndmin']:
        raise Unsupported('ndmin')
    return r


@ext('numpy.asarray', 'numpy.asanyarray')
def _asarray(it, a, k):
    dt = k.get('dtype', a[1] if len(a) > 1 else None)
    if it.is_arr(a[0]) and (dt is None or dtype_code(it, dt) == it.H(a[0]).dtype):
        return a[0]
    return _array(it, a, k)


@ext('numpy.copy')
def _npcopy(it, a, k):
    return it.to_array(a[0])


@ext('numpy.atleast_1d')
def _a1(it, a, k):
    v = a[0]
    if it.is_arr(v) and it.H(v).shape:
        return v
    r = it.to_array(v)
    if not it.H(r).shape:
        e = it.elem(r)
        return it.mkarr((1,), lambda i: e(), it.H(r).dtype)
    return r


@ext('numpy.atleast_2d')
def _a2(it, a, k):
    v = a[0]
    if not it.is_arr(v):
        v = it.to_array(v)
    c = it.H(v)
    if len(c.shape) >= 2:
        return v
    if len(c.shape) == 1:
        return it.reshape(v, (1, c.shape[0]))
    e = it.elem(v)
    return it.mkarr((1, 1), lambda i, j: e(), c.dtype)


@ext('numpy.diagflat')
def _diagflat(it, a, k):
    v = a[0] if it.is_arr(a[0]) else it.to_array(a[0])
    c = it.H(v)
    if len(c.shape) != 1:
        n = 1
        for d in c.shape:
            n = T.mul(n, d)
        v = it.reshape(v, (n,))
        c = it.H(v)
    e = it.elem(v)
    n = c.shape[0]

    def el(i, j):
        if isinstance(i, int) and isinstance(j, int):
            return e(i) if i == j else Fraction(0)
        x = e(i)
        i, j = T.toz(i), T.toz(j)
        return x if i.eq(j) else T.ite(i == j, x, Fraction(0))
    return it.mkarr((n, n), el, c.dtype)


@ext('numpy.diag')
def _diag(it, a, k):
    sh, e, dt, m = it.lift(a[0])
    if len(sh) == 1:
        return _diagflat(it, a, k)
    n = sh[0]
    return it.mkarr((n,), lambda i: e(i, i), dt)


@ext('numpy.arange')
def _arange(it, a, k):
    a = [it.unw(x) for x in a]
    if 'stop' in k:
        a = [k.get('start', 0), k['stop'], k.get('step', 1)]
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    if all(T.is_intlike(x) for x in (lo, hi, st)):
        return it.to_array(RangeV(lo, hi, st))
    d = T.div(T.sub(hi, lo), st)
    n = ceil_int(d)
    if not isinstance(n, int):
        n = z3.If(n > 0, n, z3.IntVal(0))
    else:
        n = max(n, 0)
    return it.mkarr((n,), lambda i: T.add(T.toz(lo, True) if T.is_intlike(lo) else lo, T.mul(i, st)), 'f')


@ext('numpy.linspace')
def _linspace(it, a, k):
    lo, hi = it.unw(a[0]), it.unw(a[1])
    n = it.unw(a[2] if len(a) > 2 else k.get('num', 50))
    if isinstance(n, Fraction):
        raise PyRaise('TypeError')
    if isinstance(n, int):
        if n == 1:
            return it.mkarr((1,), lambda i: T.add(Fraction(0), lo))
        step = T.div(T.sub(hi, lo), n - 1)
    else:
        step = T.div(T.sub(hi, lo), T.sub(n, 1))
    return it.mkarr((n,), lambda i: T.add(lo, T.mul(T.toz(i, True) if not isinstance(i, int) else Fraction(i), step)))


# ------------------------------------------------------------------ elementwise
def elementwise(f, dt=None):
    return lambda it, a, k: it.map1(a[0] if it.is_arr(a[0]) or T.is_scalar(it.unw(a[0])) else it.to_array(a[0]), f, dt)


for _n, _f in (('sqrt', zsqrt), ('exp', zexp), ('log', zlog)):
    EXT['numpy.' + _n] = elementwise(_f, 'f')
    EXT['math.' + _n] = elementwise(_f, 'f')


@ext('scipy.stats.norm.cdf')
def _ncdf(it, a, k):
    if len(a) != 1 or k:
        raise Unsupported('norm.cdf with location or scale')
    return it.map1(a[0], zncdf, 'f')


@ext('scipy.stats.norm.sf')
def _nsf(it, a, k):
    if len(a) != 1 or k:
        raise Unsupported('norm.sf with location or scale')
    return it.map1(a[0], lambda x: T.sub(1, zncdf(x)), 'f')


@ext('math.sqrt')
def _msqrt(it, a, k):
    v = it.unw(a[0])
    if it.is_arr(v):
        v = it.elem(v)(*[0] * len(it.H(v).shape))
    if not T.special(v) and not isinstance(v, (int, Fraction)):
        if not it.ctx.quick_valid(T.toz(v, True) >= 0):
            if not it.ctx.branch(T.toz(v, True) >= 0):
                raise PyRaise('ValueError', ('math domain error',))
    return zsqrt(v)


def npb(f):
    def g(it, a, k):
        v = a[0]
        if it.is_arr(v) or it.is_list(v) or isinstance(v, tuple):
            return it.map1(v if it.is_arr(v) else it.to_array(v), f, 'b')
        if v is None or isinstance(v, (str, StrV, StrF)):
            raise PyRaise('TypeError', ('ufunc not supported',))
        return NPB(f(it.unw(v)))
    return g


EXT['numpy.isnan'] = npb(T.isnan)
EXT['numpy.isinf'] = npb(T.isinf)
EXT['numpy.isfinite'] = npb(T.isfinite)


@ext('math.isnan')
def _misnan(it, a, k):
    r = T.isnan(it.unw(a[0]))
    return r if isinstance(r, bool) else PyB(r)


@ext('math.isinf')
def _misinf(it, a, k):
    r = T.isinf(it.unw(a[0]))
    return r if isinstance(r, bool) else PyB(r)


def real_of(f):
    def g(x):
        if T.special(x):
            x = T.xr(x)
            return T.mkxr(T.toz(f(x.v), True), x.c)
        r = f(x)
        return Fraction(r) if isinstance(r, int) else T.toz(r, True)
    return g


EXT['numpy.floor'] = elementwise(real_of(floor_int), 'f')
EXT['numpy.ceil'] = elementwise(real_of(ceil_int), 'f')
EXT['numpy.fix'] = elementwise(real_of(trunc_int), 'f')
EXT['numpy.trunc'] = elementwise(real_of(trunc_int), 'f')
EXT['math.floor'] = lambda it, a, k: floor_int(it.unw(a[0]))
EXT['math.ceil'] = lambda it, a, k: ceil_int(it.unw(a[0]))


@ext('numpy.round', 'numpy.around', 'numpy.rint')
def _np_round(it, a, k):
    if len(a) > 1 or k:
        raise Unsupported('round to digits')

    def r(x):
        if isinstance(x, int):
            return x
        if isinstance(x, Fraction):
            return round(x)
        f = floor_int(x)
        d = T.sub(x, T.toz(f, True))
        h = z3.Q(1, 2)
        return z3.If(d < h, f, z3.If(d > h, f + 1, z3.If(f % 2 == 0, f, f + 1)))
    return it.map1(a[0], r)


def _trig(fn):
    def f(x):
        if T.special(x):
            raise Unsupported('trig of non-finite')
        if T.iszero(x):
            return Fraction(1) if fn is COS else Fraction(0)
        return fn(T.toz(x, True))
    return elementwise(f, 'f')


EXT['numpy.cos'] = _trig(COS)
EXT['numpy.sin'] = _trig(SIN)
EXT['math.cos'] = EXT['numpy.cos']
EXT['math.sin'] = EXT['numpy.sin']
for _n, _op in (('add', 'Add'), ('subtract', 'Sub'), ('multiply', 'Mult'), ('divide', 'Div'), ('true_divide', 'Div'), ('logical_or', 'BitOr'), ('logical_and', 'BitAnd')):
    EXT['numpy.' + _n] = lambda it, a, k, op=_op: it.binop(op, a[0], a[1])
for _n, _op in (('less', 'Lt'), ('greater', 'Gt'), ('less_equal', 'LtE'), ('greater_equal', 'GtE'), ('equal', 'Eq'), ('not_equal', 'NotEq')):
    EXT['numpy.' + _n] = lambda it, a, k, op=_op: it.compare(op, a[0], a[1])
EXT['numpy.negative'] = lambda it, a, k: it.map1(a[0], T.neg)
EXT['numpy.square'] = lambda it, a, k: it.map1(a[0], lambda x: T.mul(x, x))
EXT['numpy.reciprocal'] = lambda it, a, k: it.map1(a[0], lambda x: T.div(1, x))
EXT['numpy.logical_not'] = lambda it, a, k: it.map1(a[0], lambda x: T.not_(it.asbool(x)), 'b')


@ext('numpy.maximum')
def _maximum(it, a, k):
    f = lambda x, y: T.ite(T.or_(T.isnan(x), T.isnan(y)), float('nan'), T.ite(T.lt(x, y), y, x)) if T.special(x) or T.special(y) else T.ite(T.lt(x, y), y, x)
    return it.map2(a[0], a[1], f) if (it.is_arr(a[0]) or it.is_arr(a[1])) else f(it.unw(a[0]), it.unw(a[1]))


@ext('numpy.minimum')
def _minimum(it, a, k):
    f = lambda x, y: T.ite(T.or_(T.isnan(x), T.isnan(y)), float('nan'), T.ite(T.lt(y, x), y, x)) if T.special(x) or T.special(y) else T.ite(T.lt(y, x), y, x)
    return it.map2(a[0], a[1], f) if (it.is_arr(a[0]) or it.is_arr(a[1])) else f(it.unw(a[0]), it.unw(a[1]))


@ext('numpy.where')
def _where(it, a, k):
    if len(a) == 1:
        return (it.flatnonzero(a[0] if it.is_arr(a[0]) else it.to_array(a[0])),)
    c = a[0]
    ab = it.map2(a[1], a[2], lambda x, y: (x, y)) if False else None
    sc, ec, _, _ = it.lift(c)
    s1, e1, d1, _ = it.lift(a[1])
    s2, e2, d2, _ = it.lift(a[2])
    s12, m1, m2 = it.bcast(s1, s2)
    sh, mc, m12 = it.bcast(sc, s12)
    if not sh:
        return T.ite(it.asbool(ec()), e1(), e2())
    return it.mkarr(sh, lambda *ix: T.ite(it.asbool(ec(*mc(ix))), e1(*m1(m12(ix))), e2(*m2(m12(ix)))), 'f' if 'f' in (d1, d2) else d1)


@ext('numpy.clip')
def _clip(it, a, k):
    x = _maximum(it, [a[0], a[1]], {})
    return _minimum(it, [x, a[2]], {})


@ext('numpy.real')
def _real(it, a, k):
    v = a[0]
    if isinstance(v, OpaqueV) and v.kind == 'cplx':
        return v.data[0]
    return v


@ext('numpy.imag')
def _imag(it, a, k):
    v = a[0]
    if isinstance(v, OpaqueV) and v.kind == 'cplx':
        return v.data[1]
    return it.map1(v, lambda x: Fraction(0))


# ------------------------------------------------------------------ reductions
def red(name):
    def f(it, a, k):
        v = a[0]
        if T.is_scalar(it.unw(v)):
            v = it.unw(v)
        elif not it.is_arr(v):
            v = it.to_array(v)
        return reduced(it, name, v, axis_of(a, k), k)
    return f


def reduced(it, name, v, axis, k):
    r = ARRRED[name](it, v, axis, k)
    if k.get('keepdims'):
        sh = it.lift(v)[0]
        if axis is None:
            return it.mkarr((1,) * len(sh), lambda *ix: r, 'f')
        ax = it.conc_int(axis) % len(sh)
        return it.reshape(r if it.is_arr(r) else it.to_array(r), list(sh[:ax]) + [1] + list(sh[ax + 1:]))
    return r


def r_sum(it, v, axis, k):
    return it.reduce_sum(v, axis)


def r_prod(it, v, axis, k):
    sh, e, dt, m = it.lift(v)
    if not sh:
        return e()
    if len(sh) == 1:
        return it.ctx.mk_prod(sh[0], e)
    raise Unsupported('prod of matrix')


def size_of(it, sh, axis):
    if axis is None:
        n = 1
        for d in sh:
            n = T.mul(n, d)
        return n
    return sh[axis]


def r_mean(it, v, axis, k):
    sh, e, dt, m = it.lift(v)
    if not sh:
        return e()
    axis = None if axis is None else it.conc_int(axis) % len(sh)
    n = size_of(it, sh, axis)
    s = it.reduce_sum(v, axis)
    if it.is_arr(s):
        return it.map1(s, lambda x: T.div(x, n), 'f')
    return T.div(s, n)


def r_var(it, v, axis, k):
    sh, e, dt, m = it.lift(v)
    if not sh:
        return Fraction(0)
    axis = None if axis is None else it.conc_int(axis) % len(sh)
    n = size_of(it, sh, axis)
    dd = it.unw(k.get('ddof', 0))
    mean = r_mean(it, v, axis, {})
    if axis is None:
        if len(sh) != 1:
            raise Unsupported('var over matrix')
        s = it.ctx.mk_sum(n, lambda q: T.ipow(T.sub(e(q), mean), 2))
        return T.div(s, T.sub(n, dd))
    if len(sh) == 1:
        return r_var(it, v, None, k)
    me = it.elem(mean)
    f = lambda *ix: T.div(it.ctx.mk_sum(n, lambda q: T.ipow(T.sub(e(*(ix[:axis] + (q,) + ix[axis:])), me(*ix)), 2)), T.sub(n, dd))
    return it.mkarr(sh[:axis] + sh[axis + 1:], f)


def r_std(it, v, axis, k):
    r = r_var(it, v, axis, k)
    return it.map1(r, zsqrt)


def r_any(it, v, axis, k):
    if axis is not None:
        sh, e, dt, m = it.lift(v)
        if len(sh) > 1:
            axis = it.conc_int(axis) % len(sh)
            return it.mkarr(sh[:axis] + sh[axis + 1:], lambda *ix: it.ctx.mk_any([sh[axis]], lambda q: it.asbool(e(*(ix[:axis] + (q,) + ix[axis:])))), 'b')
    return it.reduce_any(v)


def r_all(it, v, axis, k):
    if axis is not None:
        sh, e, dt, m = it.lift(v)
        if len(sh) > 1:
            axis = it.conc_int(axis) % len(sh)
            return it.mkarr(sh[:axis] + sh[axis + 1:], lambda *ix: T.not_(it.ctx.mk_any([sh[axis]], lambda q: T.not_(it.asbool(e(*(ix[:axis] + (q,) + ix[axis:])))))), 'b')
    return it.reduce_any(v, neg=True)


ARRRED = dict(sum=r_sum, prod=r_prod, mean=r_mean, var=r_var, std=r_std, any=r_any, all=r_all,
              max=lambda it, v, ax, k: _arr_extreme(it, v, ax, True), min=lambda it, v, ax, k: _arr_extreme(it, v, ax, False))
ARRRED['amax'], ARRRED['amin'], ARRRED['average'] = ARRRED['max'], ARRRED['min'], ARRRED['mean']
ARRRED['nansum'] = None
for _n in ('sum', 'prod', 'mean', 'var', 'std', 'any', 'all', 'max', 'min', 'amax', 'amin', 'average'):
    EXT['numpy.' + _n] = red(_n)
    ARRM[_n] = lambda it, r, a, k, n=_n: (check_kw('numpy.' + n, k), reduced(it, n, r, axis_of([r] + list(a), k), k))[1]
EXT['numpy.alltrue'] = EXT['numpy.all']


@ext('numpy.array_equal')
def _aeq(it, a, k):
    s1, e1, _, _ = it.lift(a[0])
    s2, e2, _, _ = it.lift(a[1])
    if len(s1) != len(s2):
        return False
    for x, y in zip(s1, s2):
        if not it.deq(x, y):
            return False
    if not s1:
        r = T.eq(e1(), e2())
        return r if isinstance(r, bool) else PyB(r)
    r = T.not_(it.ctx.mk_any(s1, lambda *ix: T.not_(T.eq(e1(*ix), e2(*ix)))))
    return r if isinstance(r, bool) else PyB(r)


@ext('numpy.shape')
def _shape(it, a, k):
    if T.is_scalar(it.unw(a[0])):
        return ()
    return it.getattr(a[0] if it.is_arr(a[0]) else it.to_array(a[0]), 'shape')


@ext('numpy.size')
def _size(it, a, k):
    if len(a) > 1:
        return it.lift(a[0])[0][it.conc_int(a[1])]
    if T.is_scalar(it.unw(a[0])):
        return 1
    return it.getattr(a[0] if it.is_arr(a[0]) else it.to_array(a[0]), 'size')


@ext('numpy.ndim')
def _ndim(it, a, k):
    return len(it.lift(a[0])[0])


@ext('numpy.cumsum')
def _cumsum(it, a, k):
    sh, e, dt, m = it.lift(a[0])
    if len(sh) != 1:
        raise Unsupported('cumsum of matrix')
    return it.mkarr(sh, lambda i: it.ctx.mk_sum(T.add(i, 1), e), dt)


# ------------------------------------------------------------------ rearranging
@ext('numpy.concatenate', 'numpy.vstack', 'numpy.hstack', 'numpy.row_stack')
def _concat(it, a, k):
    raise Unsupported('concatenate dispatch')


def concat(it, parts, axis):
    parts = [p if it.is_arr(p) else it.to_array(p) for p in parts]
    cs = [it.H(p) for p in parts]
    if any(c.masks for c in cs):
        raise Unsupported('concatenate masked')
    nd = len(cs[0].shape)
    axis = axis % nd if nd else 0
    for c in cs[1:]:
        if len(c.shape) != nd:
            raise PyRaise('ValueError', ('dimensions',))
        for q in range(nd):
            if q != axis and not it.deq(c.shape[q], cs[0].shape[q]):
                raise PyRaise('ValueError', ('dimensions must match',))
    es = [it.elem(p) for p in parts]
    offs = [0]
    for c in cs:
        offs.append(T.add(offs[-1], c.shape[axis]))

    def el(*ix):
        i = ix[axis]
        r = None
        for q in range(len(es) - 1, -1, -1):
            jx = ix[:axis] + (T.sub(i, offs[q]),) + ix[axis + 1:]
            if isinstance(i, int) and all(isinstance(o, int) for o in offs):
                if offs[q] <= i < offs[q + 1]:
                    return es[q](*jx)
                continue
            v = es[q](*jx)
            r = v if r is None else T.ite(T.lt(i, offs[q + 1]), v, r)
        return r
    sh = cs[0].shape[:axis] + (it.dim(offs[-1]),) + cs[0].shape[axis + 1:]
    dt = 'f' if any(c.dtype == 'f' for c in cs) else cs[0].dtype
    return it.mkarr(sh, el, dt)


def concat_seq(it, v):
    if it.is_list(v) and not isinstance(it.length(v), int):
        raise Unsupported('concatenate a symbolic-length list')
    return it.concrete_items(v)


EXT['numpy.concatenate'] = lambda it, a, k: concat(it, concat_seq(it, a[0]), it.conc_int(axis_of(a, k) or 0))
EXT['numpy.vstack'] = lambda it, a, k: concat(it, [EXT['numpy.atleast_2d'](it, [x], {}) for x in concat_seq(it, a[0])], 0)
EXT['numpy.hstack'] = lambda it, a, k: (lambda ps: concat(it, ps, 0 if len(it.H(ps[0]).shape) == 1 else 1))([EXT['numpy.atleast_1d'](it, [x], {}) for x in concat_seq(it, a[0])])


@ext('numpy.append')
def _append(it, a, k):
    if axis_of(a, k, 2) is None:
        return concat(it, [EXT['numpy.atleast_1d'](it, [x], {}) for x in a[:2]], 0)
    return concat(it, a[:2], it.conc_int(axis_of(a, k, 2)))


@ext('numpy.reshape')
def _reshape(it, a, k):
    sh = a[1] if len(a) > 1 else k.get('newshape')
    return it.reshape(a[0], shape_arg(it, sh))


@ext('numpy.transpose')
def _transp(it, a, k):
    return it.transpose(a[0] if it.is_arr(a[0]) else it.to_array(a[0]))


@ext('numpy.ravel')
def _ravel(it, a, k):
    return it.reshape(a[0], [-1])


@ext('numpy.squeeze')
def _squeeze(it, a, k):
    sh, e, dt, m = it.lift(a[0])
    return it.reshape(a[0], [d for d in sh if not it.is_one(d)])


@ext('numpy.expand_dims')
def _expand(it, a, k):
    sh, e, dt, m = it.lift(a[0])
    ax = it.conc_int(axis_of(a, k))
    if ax < 0:
        ax += len(sh) + 1
    return it.reshape(a[0], list(sh[:ax]) + [1] + list(sh[ax:]))


@ext('numpy.tile', 'numpy.matlib.repmat')
def _tile(it, a, k):
    raise Unsupported('tile')


@ext('numpy.matlib.repmat')
def _repmat(it, a, k):
    sh, e, dt, _ = it.lift(a[0])
    m, n = it.unw(a[1]), it.unw(a[2])
    if len(sh) == 1:
        e0 = e
        e = lambda i, j: e0(j)
        sh = (1, sh[0])
    elif len(sh) == 0:
        e0 = e
        e = lambda i, j: e0()
        sh = (1, 1)

    def ix(i, d):
        if it.is_one(d):
            return 0
        return it.mod(i, d)
    nr = it.dim(T.mul(sh[0], m))
    nc = it.dim(T.mul(sh[1], n))
    fi = (lambda i: i) if (isinstance(m, int) and m == 1) else (lambda i: ix(i, sh[0]))
    fj = (lambda j: j) if (isinstance(n, int) and n == 1) else (lambda j: ix(j, sh[1]))
    return it.mkarr((nr, nc), lambda i, j: e(fi(i), fj(j)), dt)


@ext('numpy.repeat')
def _repeat(it, a, k):
    sh, e, dt, _ = it.lift(a[0])
    if sh and not (len(sh) == 1 and it.is_one(sh[0])):
        raise Unsupported('repeat')
    return it.mkarr((it.unw(a[1]),), lambda i: e(*[0] * len(sh)), dt)


@ext('numpy.delete')
def _delete(it, a, k):
    sh, e, dt, _ = it.lift(a[0])
    ax = axis_of(a, k, 2)
    ix = it.unw(a[1])
    if isinstance(ix, Ref) and it.is_list(ix):
        c = it.H(ix)
        if isinstance(c.n, int) and c.n == 0 and len(c.tail) == 1 and isinstance(c.tail[0], RangeV):
            ix = c.tail[0]
    if isinstance(ix, (RangeV, slice)):
        ax = 0 if ax is None and len(sh) == 1 else it.conc_int(ax)
        n = sh[ax]
        if isinstance(ix, slice):
            lo, ln, st = it.norm_slice(ix, n)
            hi = T.add(lo, ln)
        else:
            lo, hi, st = ix.lo, ix.hi, ix.step
        if not (isinstance(st, int) and st == 1):
            raise Unsupported('delete with a step')
        z = T.toz
        if not it.ctx.quick_valid(z3.And(z(lo) >= 0, z(lo) <= z(hi), z(hi) <= z(n))):
            if not it.ctx.branch(z(hi) > z(lo)):
                return it.to_array(a[0])
            if not it.ctx.quick_valid(z3.And(z(lo) >= 0, z(hi) <= z(n))):
                raise PyRaise('IndexError', ('delete out of range',))
        gap = T.sub(hi, lo)
        nsh = list(sh)
        nsh[ax] = it.dim(T.sub(n, gap))

        def el(*jx):
            jx = list(jx)
            jx[ax] = T.ite(T.lt(jx[ax], lo), jx[ax], T.add(jx[ax], gap))
            return e(*jx)
        return it.mkarr(tuple(nsh), el, dt)
    if not T.is_scalar(ix):
        raise Unsupported('delete of several')
    ax = 0 if ax is None and len(sh) == 1 else it.conc_int(ax)
    n = sh[ax]
    i0 = it.norm_index(ix, n)

    def el(*q):
        j = q[ax]
        return e(*(q[:ax] + (T.ite(T.lt(j, i0), j, T.add(j, 1)),) + q[ax + 1:]))
    return it.mkarr(sh[:ax] + (it.dim(T.sub(n, 1)),) + sh[ax + 1:], el, dt)


@ext('numpy.flatnonzero')
def _fnz(it, a, k):
    return it.flatnonzero(a[0] if it.is_arr(a[0]) else it.to_array(a[0]))


@ext('numpy.nonzero')
def _nz(it, a, k):
    return (_fnz(it, a, k),)


@ext('numpy.ix_')
def _ix(it, a, k):
    return IxV([x if it.is_arr(x) else it.to_array(x) for x in a])


@ext('numpy.sort')
def _sort(it, a, k):
    """sorted copy: a permutation of the input in non-decreasing order (per axis)"""
    sh, e, dt, m = it.lift(a[0])
    ax = axis_of(a, k)
    ax = len(sh) - 1 if ax is None and 'axis' not in k else it.conc_int(ax) % len(sh)
    ctx = it.ctx
    n = sh[ax]
    dims = [d for q, d in enumerate(sh) if q != ax]
    ks = [ctx.var('c') for _ in dims]
    kk = ctx.var('s')
    g = []
    for v, d in zip(ks, dims):
        g += [v >= 0, v < T.toz(d)]
    full = lambda c, i: tuple(c[:ax]) + (i,) + tuple(c[ax:])
    with ctx.binding(ks + [kk], *(g + [kk >= 0, kk < T.toz(n)])):
        b = e(*full(ks, kk))
    if T.special(b):
        raise Unsupported('sort of possibly non-finite')
    cid = ctx.ext_call('sort%d' % ax, [('a', sh, e)])
    nd = len(sh)
    S = z3.Function('sorted%d' % nd, *([I] * (nd + 1) + [RL]))
    P = z3.Function('sortperm%d' % nd, *([I] * (nd + 1) + [I]))
    nn = T.toz(n)
    gz = z3.And(*g) if g else z3.BoolVal(True)
    s = lambda c, i: S(cid, *full(c, i))
    p = lambda c, i: P(cid, *full(c, i))
    i = ctx.var('s')
    j = ctx.var('s')
    bz = T.toz(b, True)
    inr = lambda x: z3.And(x >= 0, x < nn)
    pk = p(ks, i)
    ctx.def_rule(s(ks, i), ks + [i], z3.Implies(z3.And(gz, inr(i)), z3.And(inr(pk), z3.substitute(bz, (kk, pk)) == s(ks, i))), label='sortperm')
    ctx.add_rule(ks + [i, j], z3.Implies(z3.And(gz, inr(i), inr(j), i <= j), s(ks, i) <= s(ks, j)), label='sorted')
    ctx.add_rule(ks + [i, j], z3.Implies(z3.And(gz, inr(i), inr(j), i != j), p(ks, i) != p(ks, j)), label='sortinj')
    return it.mkarr(sh, lambda *ix: S(cid, *[T.toz(x) for x in ix]), 'f')


@ext('numpy.interp')
def _interp(it, a, k):
    raise Unsupported('np.interp')


@ext('numpy.unique')
def _unique(it, a, k):
    raise Unsupported('np.unique')


# ------------------------------------------------------------------ linear algebra
@ext('numpy.dot', 'numpy.matmul')
def _dot(it, a, k):
    return it.dot(a[0], a[1])


@ext('numpy.inner')
def _inner(it, a, k):
    b = a[1]
    if it.is_arr(b) and len(it.H(b).shape) == 2:
        b = it.transpose(b)
    return it.dot(a[0], b)


@ext('numpy.outer')
def _outer(it, a, k):
    s1, e1, _, _ = it.lift(it.reshape(a[0], [-1]) if it.is_arr(a[0]) else a[0])
    s2, e2, _, _ = it.lift(it.reshape(a[1], [-1]) if it.is_arr(a[1]) else a[1])
    return it.mkarr((s1[0], s2[0]), lambda i, j: T.mul(e1(i), e2(j)))


def need_finite(it, e, sh):
    """finite-valued version of a matrix element function (else unsupported)"""
    ctx = it.ctx
    ks = [ctx.var('f') for _ in sh]
    g = []
    for v, d in zip(ks, sh):
        g += [v >= 0, v < T.toz(d)]
    with ctx.binding(ks, *g):
        x = e(*ks)
        if T.special(x):
            if not ctx.quick_valid(T.tobool(T.isfinite(x))):
                raise Unsupported('linear algebra on possibly non-finite matrix')
    if not T.special(x):
        return lambda *ix: T.toz(e(*ix), True)
    return lambda *ix: T.xr(e(*ix)).v


def chol_terms(it, v):
    sh, e, dt, m = it.lift(v)
    if len(sh) != 2:
        raise PyRaise('LinAlgError', ('dimension',))
    if not it.deq(sh[0], sh[1]):
        raise PyRaise('LinAlgError', ('square',))
    e = need_finite(it, e, sh)
    cid = it.ctx.ext_call('chol', [('a', sh, e)])
    return sh, e, cid


CHOL_OK = z3.Function('chol_ok', I, BL)
CHOL_L = z3.Function('chol_L', I, I, I, RL)
INV_OK = z3.Function('inv_ok', I, BL)
INV_X = z3.Function('inv_X', I, I, I, RL)


def install_chol(it, sh, e, cid):
    """facts about the factor L: lower triangular, positive diagonal, L L^T = (lower triangle of) A"""
    ctx = it.ctx
    n = sh[0]
    i, j = ctx.var('ci'), ctx.var('cj')
    L = lambda a, b: CHOL_L(cid, T.toz(a), T.toz(b))
    nn = T.toz(n)
    g = z3.And(i >= 0, i < nn, j >= 0, j < nn)
    with ctx.binding([i, j], g):
        s = ctx.mk_sum(n, lambda q: L(i, q) * L(j, q))
        a1, a2 = e(i, j), e(j, i)
    s = T.toz(s, True)
    ctx.add_rule([i, j], z3.Implies(g, s == z3.If(i >= j, T.toz(a1, True), T.toz(a2, True))), label='LLt')
    r = ctx.rules[-1] if ctx.rules and ctx.rules[-1].label == 'LLt' else None
    if r is not None and isinstance(n, int):
        for x in range(n):
            for y in range(x + 1):
                ctx.assume(z3.substitute(r.formula, (i, z3.IntVal(x)), (j, z3.IntVal(y))))
    ctx.add_rule([i, j], z3.Implies(z3.And(g, j > i), L(i, j) == 0), label='Ltri')
    ctx.add_rule([i], z3.Implies(z3.And(i >= 0, i < nn), L(i, i) > 0), label='Ldiag')


@ext('numpy.linalg.cholesky')
def _chol(it, a, k):
    sh, e, cid = chol_terms(it, a[0])
    if not it.ctx.branch(CHOL_OK(cid)):
        raise PyRaise('LinAlgError', ('Matrix is not positive definite',))
    install_chol(it, sh, e, cid)
    return it.mkarr(sh, lambda i, j: CHOL_L(cid, T.toz(i), T.toz(j)))


EXT['scipy.linalg.cholesky'] = None
del EXT['scipy.linalg.cholesky']


def inverse(it, v):
    sh, e, dt, m = it.lift(v)
    if len(sh) != 2 or not it.deq(sh[0], sh[1]):
        raise PyRaise('LinAlgError', ('square',))
    e = need_finite(it, e, sh)
    ctx = it.ctx
    cid = ctx.ext_call('inv', [('a', sh, e)])
    if not ctx.branch(INV_OK(cid)):
        raise PyRaise('LinAlgError', ('Singular matrix',))
    n = sh[0]
    nn = T.toz(n)
    X = lambda a, b: INV_X(cid, T.toz(a), T.toz(b))
    i, j = ctx.var('vi'), ctx.var('vj')
    g = z3.And(i >= 0, i < nn, j >= 0, j < nn)
    with ctx.binding([i, j], g):
        s1 = T.toz(ctx.mk_sum(n, lambda q: T.mul(e(i, q), X(q, j))), True)
        s2 = T.toz(ctx.mk_sum(n, lambda q: T.mul(X(i, q), e(q, j))), True)
    d = z3.If(i == j, z3.RealVal(1), z3.RealVal(0))
    ctx.add_rule([i, j], z3.Implies(g, s1 == d), label='RX')
    ctx.add_rule([i, j], z3.Implies(g, s2 == d), label='XR')
    return it.mkarr(sh, lambda a, b: X(a, b))


@ext('numpy.linalg.inv')
def _inv(it, a, k):
    return inverse(it, a[0])


@ext('numpy.linalg.solve')
def _solve(it, a, k):
    sb, eb, _, _ = it.lift(a[1])
    X = inverse(it, a[0])
    if getattr(eb, 'is_eye', False):
        return X
    return it.dot(X, a[1])


@ext('numpy.linalg.norm')
def _norm(it, a, k):
    if len(a) > 1 or k:
        raise Unsupported('norm options')
    sh, e, dt, m = it.lift(a[0])

    def rec(pre, rest):
        if not rest:
            x = e(*pre)
            return T.mul(x, x)
        return it.ctx.mk_sum(rest[0], lambda q: rec(pre + (q,), rest[1:]))
    s = rec((), sh)
    if not T.special(s) and z3.is_expr(s):
        it.ctx.assume(T.toz(s, True) >= 0)      # sum of squares
    return zsqrt(s)


@ext('numpy.trace')
def _trace(it, a, k):
    sh, e, dt, m = it.lift(a[0])
    return it.ctx.mk_sum(sh[0], lambda q: e(q, q))


@ext('numpy.corrcoef', 'numpy.cov')
def _cov(it, a, k):
    raise Unsupported('np.cov')


# ------------------------------------------------------------------ random numbers
@ext('numpy.random.seed')
def _seed(it, a, k):
    if it.forbidden and 'numpy.random.seed' in it.forbidden:
        it.hit = True
    it.ctx.events.append(('seed', list(a) or [k.get('seed')]))


@ext('numpy.random.rand')
def _rand(it, a, k):
    return it.draw('u', a)


@ext('numpy.random.random', 'numpy.random.random_sample', 'numpy.random.sample', 'numpy.random.ranf')
def _random(it, a, k):
    s = k.get('size', a[0] if a else None)
    return it.draw('u', () if s is None else shape_arg(it, s))


@ext('numpy.random.uniform')
def _uniform(it, a, k):
    lo = a[0] if a else k.get('low', 0)
    hi = a[1] if len(a) > 1 else k.get('high', 1)
    s = k.get('size', a[2] if len(a) > 2 else None)
    u = it.draw('u', () if s is None else shape_arg(it, s))
    return it.binop('Add', lo, it.binop('Mult', it.binop('Sub', hi, lo), u))


@ext('numpy.random.randn')
def _randn(it, a, k):
    return it.draw('n', a)


@ext('numpy.random.standard_normal')
def _sn(it, a, k):
    s = k.get('size', a[0] if a else None)
    return it.draw('n', () if s is None else shape_arg(it, s))


@ext('numpy.random.normal')
def _normal(it, a, k):
    lo = a[0] if a else k.get('loc', 0)
    sc = a[1] if len(a) > 1 else k.get('scale', 1)
    s = k.get('size', a[2] if len(a) > 2 else None)
    z = it.draw('n', () if s is None else shape_arg(it, s))
    return it.binop('Add', lo, it.binop('Mult', sc, z))


@ext('numpy.random.choice')
def _choice(it, a, k):
    """integers drawn from range(n) (with replacement)"""
    n = it.unw(a[0])
    if not T.is_intlike(n):
        raise Unsupported('choice from array')
    s = k.get('size', a[1] if len(a) > 1 else None)
    rep = k.get('replace', a[2] if len(a) > 2 else True)
    ctx = it.ctx
    if s is None:
        c = ctx.fresh('rng_c', I)
        ctx.assume(z3.And(c >= 0, c < T.toz(n)))
        ctx.rng.append(('c', (), lambda: c))
        return c
    sh = shape_arg(it, s)
    f = ctx.fresh_fun('rng_c', len(sh), I)
    ks = [ctx.var('q') for _ in sh]
    ctx.add_rule(ks, z3.And(f(*ks) >= 0, f(*ks) < T.toz(n)), label='choice')
    ctx.rng.append(('c', tuple(sh), f))
    return it.mkarr(sh, lambda *ix: f(*ix), 'i')


@ext('numpy.random.randint')
def _randint(it, a, k):
    lo = it.unw(a[0])
    hi = it.unw(a[1]) if len(a) > 1 and a[1] is not None else k.get('high')
    if hi is None:
        lo, hi = 0, lo
    s = k.get('size', a[2] if len(a) > 2 else None)
    ctx = it.ctx
    sh = () if s is None else tuple(it.dim(d) for d in shape_arg(it, s))
    f = ctx.fresh_fun('rng_i', len(sh), I)
    ks = [ctx.var('q') for _ in sh]
    ctx.add_rule(ks, z3.And(f(*ks) >= T.toz(lo), f(*ks) < T.toz(hi)), label='randint')
    ctx.rng.append(('i', sh, f))
    if not sh:
        return f()
    return it.mkarr(sh, lambda *ix: f(*ix), 'i')


# ------------------------------------------------------------------ ndarray methods
@arrm('copy')
def _m_copy(it, r, a, k):
    return it.to_array(r)


@arrm('reshape')
def _m_reshape(it, r, a, k):
    sh = shape_arg(it, a[0]) if len(a) == 1 else list(a)
    return it.reshape(r, sh)


@arrm('flatten', 'ravel')
def _m_flat(it, r, a, k):
    return it.to_array(it.reshape(r, [-1]))


@arrm('transpose')
def _m_transpose(it, r, a, k):
    if a:
        raise Unsupported('transpose axes')
    return it.transpose(r)


@arrm('dot')
def _m_dot(it, r, a, k):
    return it.dot(r, a[0])


@arrm('astype')
def _m_astype(it, r, a, k):
    dt = dtype_code(it, a[0])
    e = it.elem(r)
    return it.mkarr(it.H(r).shape, lambda *ix: it.cast(e(*ix), dt), dt)


@arrm('tolist')
def _m_tolist(it, r, a, k):
    c = it.H(r)
    e = it.elem(r)
    if len(c.shape) == 1:
        if isinstance(c.shape[0], int):
            return it.mklist([e(i) for i in range(c.shape[0])])
        return it.alloc(ListC(c.shape[0], lambda i: e(i)))
    raise Unsupported('tolist')


@arrm('item')
def _m_item(it, r, a, k):
    c = it.H(r)
    return it.elem(r)(*[0] * len(c.shape))


@arrm('sort')
def _m_sort(it, r, a, k):
    s = _sort(it, [r] + list(a), k)
    it.setitem(r, Ellipsis, s)


@arrm('fill')
def _m_fill(it, r, a, k):
    it.setitem(r, Ellipsis, a[0])


@arrm('cumsum')
def _m_cumsum(it, r, a, k):
    return _cumsum(it, [r] + list(a), k)


@arrm('squeeze')
def _m_squeeze(it, r, a, k):
    return _squeeze(it, [r], {})


@arrm('diagonal')
def _m_diagonal(it, r, a, k):
    return EXT['numpy.diag'](it, [r], {})


@arrm('conj', 'conjugate')
def _m_conj(it, r, a, k):
    return r


# ------------------------------------------------------------------ further vocabulary
def _arr(it, v):
    return v if it.is_arr(v) else it.to_array(v)


def _signed_inf(code, positive):
    def f(x):
        if isinstance(x, float):
            return math.isinf(x) and (x > 0) == positive
        if isinstance(x, XR):
            return z3.simplify(x.c == code)
        return False
    return f


EXT['numpy.isposinf'] = npb(_signed_inf(T.PINF, True))
EXT['numpy.isneginf'] = npb(_signed_inf(T.NINF, False))


@ext('math.isfinite')
def _misfinite(it, a, k):
    r = T.isfinite(it.unw(a[0]))
    return r if isinstance(r, bool) else PyB(r)


EXT['math.trunc'] = lambda it, a, k: trunc_int(it.unw(a[0]))
EXT['numpy.log1p'] = EXT['math.log1p'] = elementwise(lambda x: zlog(T.add(1, x)), 'f')
EXT['numpy.expm1'] = EXT['math.expm1'] = elementwise(lambda x: T.sub(zexp(x), 1), 'f')
EXT['numpy.positive'] = lambda it, a, k: it.map1(a[0], lambda x: x)
EXT['numpy.logical_xor'] = lambda it, a, k: it.compare('NotEq', it.map1(a[0], it.asbool, 'b'), it.map1(a[1], it.asbool, 'b'))
EXT['numpy.mod'] = EXT['numpy.remainder'] = lambda it, a, k: it.binop('Mod', a[0], a[1])
EXT['numpy.floor_divide'] = lambda it, a, k: it.binop('FloorDiv', a[0], a[1])
EXT['numpy.sign'] = lambda it, a, k: it.map1(a[0], lambda x: T.ite(T.lt(0, x), 1, T.ite(T.lt(x, 0), -1, 0)))


@ext('numpy.hypot', 'math.hypot')
def _hypot(it, a, k):
    sq = lambda v: it.binop('Mult', v, v)
    return it.map1(it.binop('Add', sq(a[0]), sq(a[1])), zsqrt, 'f')


@ext('math.fsum')
def _fsum(it, a, k):
    return EXT['builtins.sum'](it, a, k)


@ext('math.prod')
def _mprod(it, a, k):
    r = k.get('start', 1)
    for x in it.concrete_items(a[0]):
        r = it.binop('Mult', r, x)
    return r


@ext('numpy.count_nonzero')
def _count_nonzero(it, a, k):
    return it.reduce_sum(it.map1(_arr(it, a[0]), it.asbool, 'b'), axis_of(a, k))


@ext('numpy.column_stack')
def _column_stack(it, a, k):
    ps = []
    for x in concat_seq(it, a[0]):
        x = _arr(it, x)
        sh = it.H(x).shape
        ps.append(it.reshape(x, [sh[0] if sh else 1, 1]) if len(sh) < 2 else x)
    return concat(it, ps, 1)


@ext('numpy.stack')
def _stack(it, a, k):
    ps = [_arr(it, x) for x in concat_seq(it, a[0])]
    ax = axis_of(a, k)
    ax = 0 if ax is None else it.conc_int(ax)
    nd = len(it.H(ps[0]).shape)
    ax = ax % (nd + 1)
    qs = []
    for p in ps:
        sh = list(it.H(p).shape)
        qs.append(it.reshape(p, sh[:ax] + [1] + sh[ax:]))
    return concat(it, qs, ax)


@ext('numpy.full_like')
def _full_like(it, a, k):
    sh, e, dt, m = it.lift(a[0])
    v = it.unw(a[1])
    dt = dtype_code(it, k['dtype']) if 'dtype' in k else dt
    v = it.cast(v, dt)
    return it.mkarr(sh, lambda *ix: v, dt)


@ext('numpy.empty_like')
def _empty_like(it, a, k):
    sh, e, dt, m = it.lift(a[0])
    f = it.ctx.fresh_fun('empty', len(sh), RL if dt == 'f' else I if dt == 'i' else BL)
    return it.mkarr(sh, lambda *ix: f(*ix), dt)


def _flip(it, v, axes):
    sh, e, dt, m = it.lift(v)
    if m:
        raise Unsupported('flip of masked')
    axes = [x % len(sh) for x in axes]
    return it.mkarr(sh, lambda *ix: e(*[T.sub(T.sub(sh[q], 1), x) if q in axes else x for q, x in enumerate(ix)]), dt)


@ext('numpy.flip')
def _npflip(it, a, k):
    ax = axis_of(a, k)
    nd = len(it.lift(a[0])[0])
    return _flip(it, a[0], list(range(nd)) if ax is None else [it.conc_int(ax)])


EXT['numpy.flipud'] = lambda it, a, k: _flip(it, a[0], [0])
EXT['numpy.fliplr'] = lambda it, a, k: _flip(it, a[0], [1])


@ext('numpy.diff')
def _diff(it, a, k):
    sh, e, dt, m = it.lift(a[0])
    if len(a) > 1 or set(k) - {'axis'} or m:
        raise Unsupported('diff options')
    ax = it.conc_int(k.get('axis', -1)) % len(sh)
    up = lambda ix: ix[:ax] + (T.add(ix[ax], 1),) + ix[ax + 1:]
    return it.mkarr(sh[:ax] + (it.dim(T.sub(sh[ax], 1)),) + sh[ax + 1:], lambda *ix: T.sub(e(*up(ix)), e(*ix)), dt)


def _close(it, a, k):
    rt = it.unw(a[2] if len(a) > 2 else k.get('rtol', Fraction(1, 10 ** 5)))
    at = it.unw(a[3] if len(a) > 3 else k.get('atol', Fraction(1, 10 ** 8)))

    def f(x, y):
        if T.special(x) or T.special(y):
            raise Unsupported('isclose of possibly non-finite')
        return T.le(zabs(T.sub(x, y)), T.add(at, T.mul(rt, zabs(y))))
    if it.is_arr(a[0]) or it.is_arr(a[1]) or it.is_list(a[0]) or it.is_list(a[1]):
        return it.map2(a[0], a[1], f, 'b')
    return NPB(f(it.unw(a[0]), it.unw(a[1])))


@ext('numpy.isclose', 'math.isclose')
def _isclose(it, a, k):
    return _close(it, a, k)


del EXT['math.isclose']


@ext('numpy.allclose')
def _allclose(it, a, k):
    r = _close(it, a, k)
    return it.reduce_any(r, neg=True) if it.is_arr(r) else r


@ext('numpy.tile')
def _nptile(it, a, k):
    reps = a[1] if len(a) > 1 else k.get('reps')
    rs = shape_arg(it, reps)
    v = _arr(it, a[0])
    sh = it.H(v).shape
    if len(rs) == 1 and len(sh) == 1:
        e, dt = it.elem(v), it.H(v).dtype
        if it.H(v).masks:
            raise Unsupported('tile of masked')
        n = sh[0]
        return it.mkarr((it.dim(T.mul(n, rs[0])),), lambda i: e(0 if it.is_one(n) else it.mod(i, n)), dt)
    if len(rs) == 1 and len(sh) == 2:
        rs = [1] + rs
    if len(rs) == 2 and len(sh) <= 2:
        return EXT['numpy.matlib.repmat'](it, [v] + rs, {})
    raise Unsupported('tile')


_repeat1 = EXT['numpy.repeat']


@ext('numpy.repeat')
def _nprepeat(it, a, k):
    sh, e, dt, m = it.lift(a[0])
    ax = axis_of(a, k, 2)
    r = it.unw(a[1] if len(a) > 1 else k.get('repeats'))
    if m or not T.is_intlike(r):
        raise Unsupported('repeat')
    if ax is None and len(sh) <= 1:
        if not sh or it.is_one(sh[0]):
            return _repeat1(it, [a[0], r], {})
        ax = 0
    if ax is None:
        raise Unsupported('repeat of a matrix')
    ax = it.conc_int(ax) % len(sh)
    f = lambda i: 0 if it.is_one(sh[ax]) else (i if isinstance(r, int) and r == 1 else it.floordiv(i, r))
    return it.mkarr(sh[:ax] + (it.dim(T.mul(sh[ax], r)),) + sh[ax + 1:], lambda *ix: e(*(ix[:ax] + (f(ix[ax]),) + ix[ax + 1:])), dt)


@ext('numpy.take')
def _take(it, a, k):
    ax = axis_of(a, k, 2)
    v = _arr(it, a[0])
    if ax is None:
        return it.getitem(it.reshape(v, [-1]), a[1])
    ax = it.conc_int(ax) % len(it.H(v).shape)
    return it.getitem(v, tuple([slice(None, None, None)] * ax + [a[1]]))


@ext('numpy.vdot')
def _vdot(it, a, k):
    return it.dot(it.reshape(_arr(it, a[0]), [-1]), it.reshape(_arr(it, a[1]), [-1]))


@ext('numpy.linalg.multi_dot')
def _multi_dot(it, a, k):
    ps = it.concrete_items(a[0])
    r = ps[0]
    for p in ps[1:]:
        r = it.dot(r, p)
    return r


@ext('numpy.einsum')
def _einsum(it, a, k):
    spec = a[0]
    if not isinstance(spec, str) or '->' not in spec or '.' in spec or k:
        raise Unsupported('einsum form')
    lhs, out = spec.replace(' ', '').split('->')
    ops = [it.lift(x) for x in a[1:]]
    dims = {}
    for s, o in zip(lhs.split(','), ops):
        if len(s) != len(o[0]):
            raise PyRaise('ValueError', ('einsum',))
        for c, d in zip(s, o[0]):
            if c in dims and not it.deq(dims[c], d):
                raise PyRaise('ValueError', ('einsum dimensions',))
            dims.setdefault(c, d)
    free = [c for c in dims if c not in out]

    def el(*ix):
        env = dict(zip(out, ix))

        def rec(rest, env):
            if not rest:
                r = None
                for s, o in zip(lhs.split(','), ops):
                    x = o[1](*[env[c] for c in s])
                    r = x if r is None else T.mul(r, x)
                return r
            return it.ctx.mk_sum(dims[rest[0]], lambda q: rec(rest[1:], dict(env, **{rest[0]: q})))
        return rec(free, env)
    if not out:
        return el()
    return it.mkarr(tuple(dims[c] for c in out), el, 'f')


@ext('numpy.triu', 'numpy.tril')
def _triu(it, a, k):
    raise Unsupported('triu dispatch')


def _tri(upper):
    def f(it, a, k):
        sh, e, dt, m = it.lift(a[0])
        d = it.unw(a[1] if len(a) > 1 else k.get('k', 0))
        z = 0 if dt == 'i' else Fraction(0)
        keep = (lambda i, j: T.le(T.add(i, d), j)) if upper else (lambda i, j: T.le(j, T.add(i, d)))
        return it.mkarr(sh, lambda i, j: T.ite(keep(i, j), e(i, j), z), dt)
    return f


EXT['numpy.triu'] = _tri(True)
EXT['numpy.tril'] = _tri(False)
EXT['numpy.diagonal'] = EXT['numpy.diag']


@ext('numpy.isscalar')
def _isscalar(it, a, k):
    return bool(T.is_scalar(it.unw(a[0])) or isinstance(a[0], (str, StrF, StrV)))


@ext('numpy.argmax', 'numpy.argmin')
def _argx(it, a, k):
    raise Unsupported('argmax')


@ext('numpy.cov')
def _npcov(it, a, k):
    sh, e, dt, m = it.lift(a[0])
    if len(a) > 1 or set(k) - {'rowvar', 'ddof', 'bias'} or m:
        raise Unsupported('np.cov options')
    rv = k.get('rowvar', True)
    dd = k.get('ddof')
    dd = (0 if k.get('bias') else 1) if dd is None else it.unw(dd)
    if len(sh) == 1:
        return it.map1(r_var(it, a[0], None, dict(ddof=dd)), lambda x: x)
    if len(sh) != 2:
        raise Unsupported('np.cov')
    g = (lambda c, t: e(c, t)) if rv else (lambda c, t: e(t, c))
    p, n = (sh[0], sh[1]) if rv else (sh[1], sh[0])
    mean = lambda c: T.div(it.ctx.mk_sum(n, lambda q: g(c, q)), n)

    def el(i, j):
        mi, mj = mean(i), mean(j)
        return T.div(it.ctx.mk_sum(n, lambda q: T.mul(T.sub(g(i, q), mi), T.sub(g(j, q), mj))), T.sub(n, dd))
    if it.is_one(p):
        return el(0, 0)
    return it.mkarr((p, p), el)


@ext('numpy.average')
def _average(it, a, k):
    w = k.get('weights', a[2] if len(a) > 2 else None)
    if w is None:
        return ARRRED['mean'](it, _arr(it, a[0]) if not T.is_scalar(it.unw(a[0])) else it.unw(a[0]), axis_of(a, k), {})
    v = _arr(it, a[0])
    sh, e, dt, m = it.lift(v)
    sw, ew, _, mw = it.lift(w)
    ax = axis_of(a, k)
    if m or mw or len(sw) != 1 or (ax is None and len(sh) != 1):
        raise Unsupported('average with weights')
    ax = 0 if ax is None else it.conc_int(ax) % len(sh)
    if not it.deq(sh[ax], sw[0]):
        raise PyRaise('ValueError', ('weights',))
    n = sw[0]
    tot = it.ctx.mk_sum(n, ew)
    f = lambda *ix: T.div(it.ctx.mk_sum(n, lambda q: T.mul(e(*(ix[:ax] + (q,) + ix[ax:])), ew(q))), tot)
    return f() if len(sh) == 1 else it.mkarr(sh[:ax] + sh[ax + 1:], f)


# functional helpers
def _listcomp(it, fn, seq, cond=None):
    """[fn(x) for x in seq if cond(x)] with the interpreter's own comprehension rule"""
    import ast
    from .interp import Frame
    fr = Frame(None, None, '<map>')
    fr.env['%f'], fr.env['%s'], fr.env['%c'] = fn, seq, cond
    x = ast.Name('%x', ast.Load())
    call = lambda f: ast.Call(ast.Name(f, ast.Load()), [x], [])
    node = ast.ListComp(x if fn is None else call('%f'), [ast.comprehension(ast.Name('%x', ast.Store()), ast.Name('%s', ast.Load()), [] if cond is None else [call('%c')], 0)])
    node.lineno = node.col_offset = 0
    node = ast.fix_missing_locations(node)
    return it.ev(node, fr)


@ext('builtins.map')
def _map(it, a, k):
    if len(a) == 2:
        return _listcomp(it, a[0], a[1])
    f = a[0]
    return _listcomp(it, PyFn(lambda it2, b, k2: it2.call(f, list(b[0]), {})), EXT['builtins.zip'](it, list(a[1:]), {}))


@ext('builtins.filter')
def _filter(it, a, k):
    return _listcomp(it, None, a[1], a[0] if a[0] is not None else ExtV('builtins.bool'))


@ext('functools.reduce')
def _reduce(it, a, k):
    items = it.concrete_items(a[1])
    if len(a) > 2:
        items = [a[2]] + items
    if not items:
        raise PyRaise('TypeError', ('reduce of empty',))
    r = items[0]
    for x in items[1:]:
        r = it.call(a[0], [r, x], {})
    return r


@ext('functools.partial')
def _partial(it, a, k):
    f, pre, pk = a[0], list(a[1:]), dict(k)
    return PyFn(lambda it2, b, k2: it2.call(f, pre + list(b), dict(pk, **k2)), 'partial')


@ext('itertools.chain')
def _chain(it, a, k):
    out = []
    for x in a:
        out += it.concrete_items(x)
    return it.mklist(out)


@ext('itertools.product')
def _product(it, a, k):
    import itertools
    r = it.conc_int(k.get('repeat', 1))
    return it.mklist(list(itertools.product(*([it.concrete_items(x) for x in a] * r))))


@ext('itertools.combinations')
def _combinations(it, a, k):
    import itertools
    return it.mklist(list(itertools.combinations(it.concrete_items(a[0]), it.conc_int(a[1]))))


@ext('operator.add', 'operator.mul', 'operator.sub', 'operator.truediv')
def _operator(it, a, k):
    raise Unsupported('operator dispatch')


for _n, _op in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mult'), ('truediv', 'Div'), ('matmul', 'MatMult')):
    EXT['operator.' + _n] = lambda it, a, k, op=_op: it.binop(op, a[0], a[1])


_any1, _all1 = EXT['builtins.any'], EXT['builtins.all']


def _anyall(name, base, neg):
    def f(it, a, k):
        v = a[0]
        if not it.is_arr(v):
            n = it.length(v)
            if not isinstance(n, int):
                q = it.iterate(v)
                r = it.ctx.mk_any([n], lambda i: (T.not_(T.tobool(it.truth_term(q.get(i)))) if neg else T.tobool(it.truth_term(q.get(i)))))
                r = T.not_(r) if neg else r
                return r if isinstance(r, bool) else PyB(r)
        return base(it, a, k)
    EXT['builtins.' + name] = f


_anyall('any', _any1, False)
_anyall('all', _all1, True)


@arrm('nonzero')
def _m_nonzero(it, r, a, k):
    return EXT['numpy.nonzero'](it, [r], {})


@arrm('trace')
def _m_trace(it, r, a, k):
    return EXT['numpy.trace'](it, [r] + list(a), k)


@arrm('clip')
def _m_clip(it, r, a, k):
    return EXT['numpy.clip'](it, [r] + list(a), k)


@arrm('repeat')
def _m_repeat(it, r, a, k):
    return EXT['numpy.repeat'](it, [r] + list(a), k)


@arrm('take')
def _m_take(it, r, a, k):
    return EXT['numpy.take'](it, [r] + list(a), k)


# keyword arguments a specification understands; any other keyword is outside the trusted vocabulary
_RED = {'axis', 'keepdims'}
KW = {}
for _n in ('sum', 'prod', 'mean', 'any', 'all', 'max', 'min', 'amax', 'amin', 'alltrue'):
    KW['numpy.' + _n] = _RED
for _n in ('var', 'std'):
    KW['numpy.' + _n] = _RED | {'ddof'}
for _n in EXT:
    if _n.startswith(('numpy.random.', 'builtins.', 'functools.', 'itertools.')):
        KW.setdefault(_n, None)
for _n, _s in (('zeros', 'shape dtype'), ('ones', 'shape dtype'), ('empty', 'shape dtype'), ('full', 'dtype'), ('array', 'dtype ndmin copy'), ('asarray', 'dtype'),
               ('asanyarray', 'dtype'), ('arange', 'start stop step'), ('linspace', 'num'), ('concatenate', 'axis'), ('append', 'axis'), ('reshape', 'newshape'),
               ('expand_dims', 'axis'), ('delete', 'axis'), ('sort', 'axis'), ('average', 'axis weights'), ('count_nonzero', 'axis'), ('stack', 'axis'), ('full_like', 'dtype'),
               ('flip', 'axis'), ('diff', 'axis'), ('isclose', 'rtol atol'), ('allclose', 'rtol atol'), ('tile', 'reps'), ('repeat', 'axis repeats'), ('take', 'axis'),
               ('triu', 'k'), ('tril', 'k'), ('cov', 'rowvar ddof bias'), ('set_printoptions', None), ('seterr', None), ('zeros_like', ''), ('ones_like', ''), ('empty_like', '')):
    KW['numpy.' + _n] = None if _s is None else set(_s.split())
for _n in ('warnings.warn', 'warnings.simplefilter', 'os.makedirs', 'os.mkdir', 'sys.exit', 'math.prod'):
    KW[_n] = None


def check_kw(name, kw):
    ok = KW.get(name, set())
    if ok is not None and not set(kw) <= ok:
        raise Unsupported('%s with keyword %s' % (name, sorted(set(kw) - ok)))
