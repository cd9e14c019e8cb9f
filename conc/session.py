"""Concrete side of the contract language: the same contract text runs the real
functions of /repo on sampled inputs (or on a verifier counterexample) and checks
every ensures clause numerically.  Runs under the repository's own interpreter."""
import sys
import os
import importlib
import math
import random
import types
import contextlib
import io
import hashlib
import numpy as np


class Skip(Exception):
    pass


class Missing(Skip):
    """the named function is not part of the current tree (moved or renamed)"""


class Violated(Exception):
    def __init__(self, name, detail=''):
        Exception.__init__(self, '%s: %s' % (name, detail))
        self.name, self.detail = name, detail


class Raised:
    def __init__(self, exc):
        self.cls, self.exc = type(exc).__name__, exc
        self.args = getattr(exc, 'args', ())


def getmod(m):
    return importlib.import_module(m)


def resolve(qual):
    m, q = qual.split(':')
    try:
        o = getmod(m)
    except ModuleNotFoundError:
        raise Missing(qual)
    for part in q.split('.'):
        if part.startswith('__') and not part.endswith('__') and isinstance(o, type):
            part = '_%s%s' % (o.__name__.lstrip('_'), part)
        if not hasattr(o, part):
            raise Missing(qual)
        o = getattr(o, part)
    return o


class Recorder:
    """records every draw from numpy's global generator"""
    NAMES = {'rand': 'u', 'randn': 'n', 'standard_normal': 'n', 'random': 'u', 'random_sample': 'u',
             'uniform': 'U', 'normal': 'N', 'choice': 'c', 'randint': 'i', 'multivariate_normal': 'mvn', 'gamma': 'g', 'chisquare': 'x2',
             'permutation': 'p', 'shuffle': 's', 'standard_gamma': 'g', 'exponential': 'e'}

    def __init__(self):
        self.log = []
        self.on = False
        self.saved = {}
        self.seeded = 0

    def __enter__(self):
        for n, k in self.NAMES.items():
            f = getattr(np.random, n)
            self.saved[n] = f

            def g(*a, _f=f, _k=k, _n=n, **kw):
                r = _f(*a, **kw)
                self.log.append((_k, np.shape(r), np.array(r, copy=True), _n, a, kw))
                return r
            setattr(np.random, n, g)
        f = np.random.seed
        self.saved['seed'] = f

        def sd(*a, **kw):
            self.seeded += 1
            return f(*a, **kw)
        np.random.seed = sd
        return self

    def __exit__(self, *a):
        for n, f in self.saved.items():
            setattr(np.random, n, f)


def tofloat(x):
    a = np.asarray(x)
    if a.size != 1:
        raise TypeError('not a scalar: %r' % (x,))
    return a.reshape(-1)[0]


def close(a, b, rtol=1e-6, atol=1e-9):
    try:
        a, b = tofloat(a), tofloat(b)
        if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
            return bool(a) == bool(b)
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return a == b
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


class ConS:
    sym = False

    def __init__(self, seed, given=None, decisions=None):
        self.rnd = random.Random(seed)
        self.seed = seed
        self.given = given or {}
        self.decisions = decisions or {}
        self.used = {}
        self.checked = {}
        self.failed = []
        self.rec = None
        self._events = []
        self.scale = 1.0
        np.random.seed(seed % (2 ** 31))

    # ------------------------------------------------------------ inputs
    def _given(self, name):
        return self.given[name] if name in self.given and self.given[name] is not None else None

    def int(self, name, lo=None, hi=None, cmax=None):
        g = self._given(name)
        if g is not None:
            if (lo is not None and g < lo) or (hi is not None and g > hi) or abs(g) > 200:
                raise Skip()
            v = int(g)
        else:
            lo = -3 if lo is None else int(lo)
            top = lo + (cmax - lo if cmax is not None else 4)
            hi = min(int(hi), top) if hi is not None else top
            if hi < lo:
                raise Skip()
            v = self.rnd.randint(lo, hi)
        self.used[name] = v
        return v

    def _scalar(self, lo, hi, pos):
        r = self.rnd
        lo = None if lo is None else float(lo)
        hi = None if hi is None else float(hi)
        if lo is not None and hi is not None:
            q = r.random()
            return lo if q < .08 else hi if q < .16 else lo + (hi - lo) * r.random()
        q = r.random()
        x = r.gauss(0, 1) if q < .6 else r.choice([0.0, 1.0, -1.0, 2.0, 0.5]) if q < .8 else r.gauss(0, 30)
        if pos:
            x = abs(x) + (1e-3 if r.random() < .9 else 1e-6)
        if lo is not None:
            x = lo + abs(x)
        if hi is not None:
            x = hi - abs(x)
        return float(x)

    def real(self, name, lo=None, hi=None, pos=False):
        g = self._given(name)
        if g is not None:
            v = float(g)
            if (lo is not None and v < lo) or (hi is not None and v > hi) or (pos and v <= 0):
                raise Skip()
        else:
            v = self._scalar(lo, hi, pos)
        self.used[name] = v
        return v

    def xreal(self, name, nan=True, ninf=True):
        g = self._given(name)
        if g is not None:
            v = float(g)
        else:
            q = self.rnd.random()
            v = self._scalar(None, None, False)
            if q < .12:
                v = float('inf')
            elif q < .2 and ninf:
                v = float('-inf')
            elif q < .3 and nan:
                v = float('nan')
        self.used[name] = v
        return v

    def bool(self, name):
        g = self._given(name)
        v = bool(g) if g is not None else self.rnd.random() < .5
        self.used[name] = v
        return v

    pybool = bool

    def arr(self, name, shape, lo=None, hi=None, pos=False, dtype='f', ext=False, nan=False, distinct=False, cvals=None):
        shape = tuple(int(d) for d in (shape if isinstance(shape, tuple) else (shape,)))
        g = self._given(name)
        if g is not None:
            a = np.array(g, dtype=float)
            if a.size == 0:
                a = a.reshape(shape) if 0 in shape else a
            if a.shape != shape:
                raise Skip()
            if (lo is not None and not (a >= lo).all()) or (hi is not None and not (a <= hi).all()) or (pos and not (a > 0).all()):
                raise Skip()
        else:
            a = np.empty(shape)
            for ix in np.ndindex(*shape):
                if cvals is not None:
                    a[ix] = self.rnd.choice(cvals)
                    continue
                x = self._scalar(lo, hi, pos) if dtype == 'f' else self.rnd.randint(int(lo) if lo is not None else -3, int(hi) if hi is not None else 5)
                if ext:
                    q = self.rnd.random()
                    x = float('inf') if q < .1 else float('-inf') if q < .15 else float('nan') if (q < .22 and nan) else x
                a[ix] = x
        if dtype == 'i':
            a = a.astype(int)
        if dtype == 'b':
            a = a.astype(bool)
        self.used[name] = a.tolist()
        return a

    def const_arr(self, data, dtype='f'):
        return np.array(data, dtype={'f': float, 'i': int, 'b': bool}[dtype])

    def mk(self, shape, fn, dtype='f'):
        shape = tuple(int(d) for d in (shape if isinstance(shape, tuple) else (shape,)))
        a = np.empty(shape)
        for ix in np.ndindex(*shape):
            a[ix] = tofloat(fn(*ix))
        return a.astype({'f': float, 'i': int, 'b': bool}[dtype])

    def choice(self, name, options):
        g = self._given('choice_' + name)
        i = int(g) if g is not None and 0 <= int(g) < len(options) else self.rnd.randrange(len(options))
        self.used['choice_' + name] = i
        return options[i]

    def obj(self, cls, **attrs):
        if cls:
            c = resolve(cls)
            o = object.__new__(c)
        else:
            o = types.SimpleNamespace()
        for k, v in attrs.items():
            setattr(o, k, v)
        return o

    def list(self, items):
        return list(items)

    def symlist(self, n, fn):
        return [fn(i) for i in range(int(n))]

    def records(self, n, fields):
        return [{k: f(i) if callable(f) else self.item(f, i) for k, f in fields.items()} for i in range(int(n))]

    def index_vector(self, a):
        pass

    def name_is(self, x, i):
        return x == self.label(i)

    def same_text(self, x, fmt, *ints):
        return x == fmt.format(*[int(i) for i in ints])

    def sum_nonneg(self, n, fn):
        return self.sum(n, fn)

    def define(self, name, n, fn):
        return fn

    def well_conditioned(self, a):
        try:
            return bool(np.linalg.cond(np.asarray(a, dtype=float)) < 1e5)
        except Exception:
            return True

    def peel(self):
        pass

    def undecided(self, name):
        pass

    def sorted(self, a, axis=0):
        return np.sort(a, axis)

    def some(self, name, n):
        return range(int(n))

    def label(self, i):
        return 'p%d' % int(i)

    def rank(self, a, j):
        return [int(x) for x in a].index(int(j))

    def dict(self, d):
        return dict(d)

    def low(self, v):
        return v

    up = low

    def fn(self, handler, name='fn'):
        def f(*a, **kw):
            return handler(self, *a, **kw)
        return f

    def ufun(self, name, args, n=None, ext=False):
        """deterministic pseudo-random function of the argument values"""
        h = hashlib.sha256()
        h.update(name.encode())
        h.update(str(self.seed).encode())
        for a in args:
            if isinstance(a, (int, float, np.ndarray, np.generic)):
                b = np.asarray(a, dtype=float)
                h.update(np.ascontiguousarray(np.round(b, 9) + 0.0).tobytes())
        r = random.Random(h.digest())

        def one():
            x = abs(r.gauss(0, 2))
            if ext:
                q = r.random()
                x = float('inf') if q < .1 else float('nan') if q < .2 else x
            return x
        if n is None:
            return one()
        return np.array([one() for _ in range(int(n))])

    # ------------------------------------------------------------ calls
    def call(self, qual, *args, **kw):
        with contextlib.redirect_stdout(io.StringIO()):
            return resolve(qual)(*args, **kw)

    def method(self, obj, name, /, *args, **kw):
        with contextlib.redirect_stdout(io.StringIO()):
            return getattr(obj, name)(*args, **kw)

    def new(self, cls, *args, **kw):
        with contextlib.redirect_stdout(io.StringIO()):
            return resolve(cls)(*args, **kw)

    def tryrun(self, fn):
        try:
            return fn()
        except (Skip, Violated, KeyboardInterrupt):
            raise
        except BaseException as e:
            return Raised(e)

    def summary(self, qual, fn):
        pass

    def loop_inv(self, *a, **k):
        pass

    def ext_hook(self, *a, **k):
        pass

    # ------------------------------------------------------------ observation
    def get(self, o, attr):
        if isinstance(o, dict):
            return o[attr]
        return getattr(o, attr)

    def has(self, o, attr):
        return attr in o if isinstance(o, dict) else hasattr(o, attr)

    def put(self, o, attr, v):
        setattr(o, attr, v)

    def item(self, a, *ix):
        if isinstance(a, np.ndarray) and len(ix) == a.ndim:
            return a[tuple(int(i) for i in ix)]
        r = a
        for i in ix:
            r = r[i if isinstance(i, str) else int(i)]
        return r

    def vec(self, a, i):
        return np.asarray(a).reshape(-1)[int(i)] if np.ndim(a) else a

    def shape(self, a):
        return np.shape(a)

    def isarr(self, a):
        return isinstance(a, np.ndarray)

    def len(self, a):
        return len(a)

    def same_obj(self, a, b):
        return a is b

    def truthy(self, v):
        return bool(v)

    def snap(self, a):
        return np.array(a, copy=True)

    def draws(self, kind=None, within=False):
        return [d for d in self.rec.log if kind is None or d[0] == kind]

    def draw_item(self, d, *ix):
        ix = [int(i) for i in ix]
        while len(ix) < len(d[1]):
            ix = [0] + ix
        return d[2][tuple(ix[:len(d[1])])]

    def draw_size(self, d):
        return int(np.prod(d[1]))

    def event(self, *a):
        self._events.append(a)

    def events(self, tag=None):
        return [e for e in self._events if tag is None or e[0] == tag]

    # ------------------------------------------------------------ formulas
    def eq(self, a, b): return close(a, b)
    def and_(self, *xs): return all(bool(x) for x in xs)
    def or_(self, *xs): return any(bool(x) for x in xs)
    def not_(self, x): return not bool(x)
    def implies(self, a, b): return (not bool(a)) or bool(b)
    def iff(self, a, b): return bool(a) == bool(b)
    def ite(self, c, a, b): return a if bool(c) else b
    def exp(self, x): return np.exp(x)
    def log(self, x): return np.log(x)
    pi = np.pi

    def cos(self, x): return np.cos(x)

    def normcdf(self, x):
        import scipy.stats
        return scipy.stats.norm.cdf(x)

    def sqrt(self, x): return np.sqrt(x)
    def pow(self, x, y): return float(x) ** float(y)
    def abs(self, x): return abs(x)
    def isnan(self, x): return bool(np.isnan(tofloat(x)))
    def isfinite(self, x): return bool(np.isfinite(tofloat(x)))
    def num(self, x): return x
    def min(self, a, b): return a if a <= b else b
    def max(self, a, b): return b if a <= b else a
    def floor(self, x): return int(math.floor(tofloat(x)))

    def sum(self, n, fn):
        return sum((fn(k) for k in range(int(n))), 0.0)

    def branch(self, c): return bool(c)
    def valid(self, c): return bool(c)

    # ------------------------------------------------------------ statements
    def pyb(self, x):
        return bool(x)

    def member(self, a, j):
        return int(j) in [int(x) for x in a]

    def stub(self, obj, name, qual, fn=None):
        setattr(obj, name, lambda *a, **k: fn(self) if fn else None)

    def raised(self, r):
        return isinstance(r, Raised)

    def posdef(self, a):
        try:
            np.linalg.cholesky(np.asarray(a, dtype=float))
            return True
        except np.linalg.LinAlgError:
            return False

    def assume(self, f):
        if not bool(f):
            raise Skip()

    def assume_forall(self, dims, fn):
        for ix in np.ndindex(*[int(d) for d in dims]):
            if not bool(fn(*ix)):
                raise Skip()

    def ensure(self, name, f):
        self.checked[name] = self.checked.get(name, 0) + 1
        if not bool(f):
            self.failed.append((name, ''))
        return bool(f)

    def ensure_forall(self, name, dims, fn):
        self.checked[name] = self.checked.get(name, 0) + 1
        for ix in np.ndindex(*[max(0, int(d)) for d in dims]):
            if not bool(fn(*ix)):
                self.failed.append((name, 'at index %s' % (ix,)))
                return False
        return True

    def fail(self, name, why=''):
        self.checked[name] = self.checked.get(name, 0) + 1
        self.failed.append((name, why))


def run_once(contract, seed, given=None):
    """-> (status, S): ok / skip / fail"""
    S = ConS(seed, given)
    with Recorder() as rec, np.errstate(all='ignore'):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            S.rec = rec
            try:
                contract(S)
            except Skip:
                return ('fail' if S.failed else 'ok' if S.checked else 'skip'), S
            except (KeyboardInterrupt, MemoryError):
                raise
            except (AttributeError, TypeError, NameError) as e:
                # the contract's stand-in objects do not fit this tree (a helper gained an argument or an attribute):
                # says nothing about behaviour; the proof and the whole-system scenarios decide
                S.unfit = repr(e)
                return ('fail' if S.failed else 'skip'), S
            except BaseException as e:
                import traceback
                S.failed.append(('no-unexpected-exception(%s)' % type(e).__name__, traceback.format_exc()[-1500:]))
    return ('fail' if S.failed else 'ok'), S
