"""Symbolic side of the contract language (see conc/session.py for the concrete side).

A contract is a Python function c(S).  S creates arbitrary inputs, calls the real
function and states what must hold.  Under SymS the call is the symbolic execution
of the current source text and every S.ensure is a proof obligation; under ConS the
same text runs the real function on sampled (or counterexample) inputs."""
import z3
import time
import traceback
from fractions import Fraction
from . import terms as T
from .terms import Unsupported, XR
from .values import *
from .ctx import Ctx, PathEnd, I, RL, BL
from .interp import Interp, Program
from . import npm


def un(x):
    if isinstance(x, N):
        return x.v
    if isinstance(x, float):
        return T.num(x)
    return x


class N:
    """wrapped symbolic scalar with Python operators"""
    __slots__ = ('v',)
    __hash__ = None

    def __init__(self, v):
        v = un(v)
        if isinstance(v, (PyB, NPB)):
            v = v.e
        self.v = v

    def _b(f, r=False):
        if r:
            return lambda s, o: N(f(un(o), s.v))
        return lambda s, o: N(f(s.v, un(o)))
    __add__, __radd__ = _b(T.add), _b(T.add, True)
    __sub__, __rsub__ = _b(T.sub), _b(T.sub, True)
    __mul__, __rmul__ = _b(T.mul), _b(T.mul, True)
    __truediv__, __rtruediv__ = _b(T.div), _b(T.div, True)
    __lt__, __le__ = _b(T.lt), _b(T.le)
    __gt__ = lambda s, o: N(T.lt(un(o), s.v))
    __ge__ = lambda s, o: N(T.le(un(o), s.v))
    __eq__ = _b(T.eq)
    __ne__ = lambda s, o: N(T.not_(T.eq(s.v, un(o))))
    __neg__ = lambda s: N(T.neg(s.v))
    __pow__ = lambda s, n: N(T.ipow(s.v, n))
    __and__ = lambda s, o: N(T.and_(s.v, un(o)))
    __or__ = lambda s, o: N(T.or_(s.v, un(o)))
    __invert__ = lambda s: N(T.not_(s.v))
    __rand__ = lambda s, o: N(T.and_(un(o), s.v))
    __ror__ = lambda s, o: N(T.or_(un(o), s.v))

    def __bool__(self):
        if isinstance(self.v, bool):
            return self.v
        raise TypeError('truth value of a symbolic term: use S.branch')

    def __index__(self):
        if isinstance(self.v, int):
            return self.v
        raise TypeError('symbolic index')

    def __repr__(self):
        return 'N(%s)' % (self.v,)


class Skip(Exception):
    pass


class Raised:
    def __init__(self, cls, args=()):
        self.cls, self.args = cls, args


def hidden(rule):
    """what the body of a cut loop records: (event tags, kinds of draws)"""
    ev, dr = set(), set()
    for p in getattr(rule, 'paths', ()) or ():
        dr |= {d[0] for d in p['rng']}
        for e in p['events']:
            if e[0] == 'loop':
                a, b = hidden(e[1])
                ev |= a
                dr |= b
            else:
                ev.add(e[0])
    return ev, dr


class SymS:
    sym = True

    def __init__(self, prog, timeout_ms=8000):
        self.prog = prog
        self.ctx = Ctx(timeout_ms)
        self.it = Interp(prog, self.ctx, {})
        self.inputs = {}
        self.vac = {}
        self.under = []
        self.ens_seen = {}
        self.model_calls = []

    # ------------------------------------------------------------ inputs
    def int(self, name, lo=None, hi=None, cmax=None):
        v = z3.Int('in_' + name)
        if lo is not None:
            self.ctx.assume(v >= T.toz(un(lo)))
        if hi is not None:
            self.ctx.assume(v <= T.toz(un(hi)))
        self.inputs[name] = ('int', v)
        return N(v)

    def real(self, name, lo=None, hi=None, pos=False):
        v = z3.Real('in_' + name)
        if lo is not None:
            self.ctx.assume(T.le(un(lo), v))
        if hi is not None:
            self.ctx.assume(T.le(v, un(hi)))
        if pos:
            self.ctx.assume(v > 0)
        self.inputs[name] = ('real', v)
        return N(v)

    def xreal(self, name, nan=True, ninf=True):
        v, c = z3.Real('in_' + name), z3.Int('in_' + name + '_cls')
        self.ctx.assume(z3.And(c >= 0, c <= (3 if nan else 2)))
        if not ninf:
            self.ctx.assume(c != 2)
        self.inputs[name] = ('xreal', v, c)
        return N(XR(v, c))

    def bool(self, name):
        v = z3.Bool('in_' + name)
        self.inputs[name] = ('bool', v)
        return N(v)

    def pybool(self, name):
        v = z3.Bool('in_' + name)
        self.inputs[name] = ('bool', v)
        return PyB(v)

    def arr(self, name, shape, lo=None, hi=None, pos=False, dtype='f', ext=False, nan=False, distinct=False, cvals=None):
        shape = tuple(un(d) for d in (shape if isinstance(shape, tuple) else (shape,)))
        shape = tuple(T.toz(d) if not isinstance(d, int) else d for d in shape)
        srt = {'f': RL, 'i': I, 'b': BL}[dtype]
        f = z3.Function('in_' + name, *([I] * len(shape) + [srt]))
        if ext:
            g = z3.Function('in_' + name + '_cls', *([I] * len(shape) + [I]))
            el = lambda *ix: XR(f(*[T.toz(i) for i in ix]), g(*[T.toz(i) for i in ix]))
            vs = [z3.Int('q%d' % i) for i in range(len(shape))]
            self.ctx.add_rule(vs, z3.And(g(*vs) >= 0, g(*vs) <= (3 if nan else 2)), label='cls')
        else:
            g = None
            el = lambda *ix: f(*[T.toz(i) for i in ix])
        vs = [z3.Int('q%d' % i) for i in range(len(shape))]
        rng = z3.And(*[z3.And(v >= 0, v < T.toz(d)) for v, d in zip(vs, shape)])
        for cond, bound in ((lambda x: T.le(un(lo), x), lo), (lambda x: T.le(x, un(hi)), hi), (lambda x: T.lt(0, x), True if pos else None)):
            if bound is not None:
                self.ctx.add_rule(vs, z3.Implies(rng, T.tobool(cond(f(*vs)))), label='dom')
        self.inputs[name] = ('arr', shape, f, g)
        return self.it.mkarr(shape, el, dtype)

    def const_arr(self, data, dtype='f'):
        """array of given (wrapped) scalars; nested lists"""
        def shp(d):
            return (len(d),) + (shp(d[0]) if d and isinstance(d[0], list) else ()) if isinstance(d, list) else ()
        sh = shp(data)

        def el(*ix):
            def go(d, ix):
                if not ix:
                    return un(d)
                if isinstance(ix[0], int):
                    return go(d[ix[0]], ix[1:])
                r = go(d[-1], ix[1:])
                for q in range(len(d) - 2, -1, -1):
                    r = T.ite(T.eq(ix[0], q), go(d[q], ix[1:]), r)
                return r
            return go(data, [i if isinstance(i, int) else (i.as_long() if z3.is_int_value(i) else i) for i in ix])
        return self.it.mkarr(sh, el, dtype)

    def mk(self, shape, fn, dtype='f'):
        shape = tuple(un(d) for d in (shape if isinstance(shape, tuple) else (shape,)))
        vs = [self.ctx.var('mk') for _ in shape]
        with self.ctx.binding(vs, *[z3.And(v >= 0, v < T.toz(d)) for v, d in zip(vs, shape)]):
            body = un(fn(*[N(v) for v in vs]))      # evaluated now: the entries do not depend on later heap states
        return self.it.mkarr(shape, lambda *ix: T.subst(body, [(v, T.toz(i)) for v, i in zip(vs, ix)]), dtype)

    def choice(self, name, options):
        if self.ctx.loopvars:
            raise Unsupported('choice of the contract inside a loop')
        d = self.ctx.choose(len(options))
        return options[d]

    def obj(self, cls, **attrs):
        cv = None
        if cls:
            m, c = cls.split(':')
            cv = self.prog.resolve(m, c)
            if cv is UNDEF:
                raise Unsupported('class %s not found' % cls)
        return self.it.alloc(ObjC(cv, {k: self.low(v) for k, v in attrs.items()}))

    def low(self, v):
        if isinstance(v, N):
            return v.v
        if isinstance(v, float):
            return T.num(v)
        if isinstance(v, tuple):
            return tuple(self.low(x) for x in v)
        return v

    def list(self, items):
        return self.it.mklist([self.low(x) for x in items])

    def cplx(self, re, im):
        """array of complex numbers with the given parts"""
        return OpaqueV('cplx', (self.snap(re), self.snap(im)))

    def symlist(self, n, fn):
        """list of n items fn(i)"""
        n = un(n)
        if isinstance(n, int):
            return self.list([fn(i) for i in range(n)])
        return self.it.alloc(ListC(n, lambda i: self.low(fn(N(i)))))

    def records(self, n, fields):
        """list of n dicts with the given per-index fields"""
        n = un(n)
        return self.it.alloc(ListC(n, None, (), {k: ArrField(self.it, self.it.to_array(f)) if isinstance(f, Ref) else (lambda i, f=f: self.low(f(N(i)))) for k, f in fields.items()}))

    def label(self, i):
        """a name; names of different numbers differ"""
        return StrV(T.toz(un(i)))

    def dict(self, d):
        return self.it.mkdict({k: self.low(v) for k, v in d.items()})

    def h5file(self, d):
        """an open binary file holding the named data sets"""
        return self.it.alloc(H5C({k: self.low(v) for k, v in d.items()}))

    def fn(self, handler, name='fn'):
        """user-supplied callable; handler(S, *args, **kw)"""
        def f(it, args, kw):
            return self.low(handler(self, *[self.up(a) for a in args], **{k: self.up(v) for k, v in kw.items()}))
        return PyFn(f, name)

    def ufun(self, name, args, n=None, ext=False):
        """arbitrary (but functional) result depending on args only.  n: None scalar, else vector length"""
        al = []
        for a in args:
            a = self.low(a)
            if isinstance(a, Ref) and self.it.is_arr(a):
                c = self.it.H(a)
                el = self.it.elem(a)
                al.append(('a', [d if isinstance(d, int) else d for d in c.shape], el))
            elif T.is_scalar(a):
                al.append(('s', a))
        cid = self.ctx.ext_call(name, al)
        if n is None:
            f = z3.Function('uf_' + name, I, RL)
            if ext:
                g = z3.Function('ufc_' + name, I, I)
                self.ctx.assume(z3.And(g(cid) >= 0, g(cid) <= 3))
                return N(XR(f(cid), g(cid)))
            return N(f(cid))
        f = z3.Function('uf_' + name, I, I, RL)
        if ext:
            g = z3.Function('ufc_' + name, I, I, I)
            v = self.ctx.var('q')
            self.ctx.add_rule([v], z3.And(g(cid, v) >= 0, g(cid, v) <= 3), label='cls')
            return self.it.mkarr((un(n),), lambda i: XR(f(cid, T.toz(i)), g(cid, T.toz(i))), 'f')
        return self.it.mkarr((un(n),), lambda i: f(cid, T.toz(i)), 'f')

    # ------------------------------------------------------------ calls
    def up(self, v):
        if isinstance(v, (PyB, NPB)):
            return N(v.e)
        if v is None or isinstance(v, (str, Ref)):
            return v
        if isinstance(v, tuple):
            return tuple(self.up(x) for x in v)
        if T.is_scalar(v):
            return N(v)
        return v

    def call(self, qual, *args, **kw):
        self.under.append(qual)
        fv = self.prog.function(qual)
        if fv is None:
            raise Unsupported('function %s not found' % qual)
        a = [self.low(x) for x in args]
        k = {x: self.low(y) for x, y in kw.items()}
        if fv.kind == 'classmethod':
            a = [self.prog.resolve(fv.mod, fv.cls)] + a
        self.it.root_qual = qual
        self.it.depth = 0
        return self.up(self.it.call_func(fv, a, k, force_inline=True))

    def method(self, obj, name, /, *args, **kw):
        m = self.it.getattr(obj, name)
        if isinstance(m, FuncV):
            self.under.append(m.qual)
        self.it.depth = 0
        a = [self.low(x) for x in args]
        k = {x: self.low(y) for x, y in kw.items()}
        if isinstance(m, FuncV):
            self.it.root_qual = m.qual
            if m.self_ is not None:
                a = [m.self_] + a
            return self.up(self.it.call_func(m, a, k, force_inline=True))
        return self.up(self.it.call(m, a, k))

    def new(self, cls, *args, **kw):
        m, c = cls.split(':')
        cv = self.prog.resolve(m, c)
        if cv is UNDEF:
            raise Unsupported('class %s not found' % cls)
        self.under.append('%s:%s.__init__' % (m, c))
        return self.it.instantiate(cv, [self.low(x) for x in args], {k: self.low(v) for k, v in kw.items()})

    def tryrun(self, fn):
        """fn() or Raised"""
        try:
            return fn()
        except PyRaise as e:
            return Raised(e.cls, e.eargs)

    def summary(self, qual, fn):
        """callee contract: fn(S, env) -> result.  Used instead of the body at call sites."""
        def g(it, env):
            return self.low(fn(self, {k: self.up(v) for k, v in env.items()}))
        self.it.summaries[qual] = g

    def loop_inv(self, label, fn):
        """candidate loop invariant: fn(S, env, k) -> [(dims, lambda *ix: formula)] or None; kept only if
        initiation and consecution are proved for the loop at hand.  Items (dims, formula, tag) are dropped one by one
        (largest inductive subset); untagged items stand or fall together"""
        def cand(it, fr, k):
            try:
                r = fn(self, {a: self.up(b) for a, b in fr.env.items() if b is not UNDEF}, N(k))
            except (Unsupported, PyRaise, KeyError, AttributeError, TypeError, IndexError):
                return None
            if not r:
                return None
            out = []
            for q, item in enumerate(r):
                dims, f = item[:2]
                tag = item[2] if len(item) > 2 else None
                vs = [z3.Int('inv_%s_%d_%d' % (label, q, j)) for j in range(len(dims))]
                g = [z3.And(v >= 0, v < T.toz(un(d))) for v, d in zip(vs, dims)]
                try:
                    b = T.tobool(un(f(*[N(v) for v in vs])))
                except (Unsupported, PyRaise, KeyError, AttributeError, TypeError, IndexError):
                    if tag:
                        continue
                    return None
                out.append(('%s~%s' % (label, tag) if tag else '%s.%d' % (label, q), vs, z3.Implies(z3.And(*g), b) if g else b))
            return out
        self.it.loop_invs.append(cand)

    def ident(self, a, b):
        """same value at loop entry: same object or syntactically equal"""
        a, b = self.low(a), self.low(b)
        if isinstance(a, Ref) or isinstance(b, Ref):
            return isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id
        if z3.is_expr(a) and z3.is_expr(b):
            return a.eq(b)
        return type(a) is type(b) and a == b

    def kinds(self, env):
        """(scalars, vectors, matrices) among the local variables"""
        sc, ve, ma = [], [], []
        for n in sorted(env):
            v = env[n]
            if isinstance(v, N) and not T.is_boollike(v.v):
                sc.append((n, v))
            elif isinstance(v, Ref) and self.it.is_arr(v):
                d = len(self.it.H(v).shape)
                (ve if d == 1 else ma if d == 2 else []).append((n, v))
        return sc, ve, ma

    def ext_hook(self, name, fn):
        """assumed contract of an external function"""
        self.it.ext_hooks[name] = lambda it, a, k: self.low(fn(self, *[self.up(x) for x in a], **{q: self.up(v) for q, v in k.items()}))
        self.it.trusted.add(name)

    # ------------------------------------------------------------ ghost state
    def fresh_int(self, base):
        return N(self.ctx.fresh('g_' + base, I))

    def fresh_bool(self, base):
        """arbitrary Python bool"""
        return PyB(self.ctx.fresh('g_' + base, BL))

    def gfun(self, name, nargs, sort='R'):
        """global uninterpreted function of integers"""
        f = z3.Function('gf_' + name, *([I] * nargs + [RL if sort == 'R' else I]))
        return lambda *a: N(f(*[T.toz(un(x)) for x in a]))

    def define(self, name, n, fn):
        """a named abbreviation: g(k) = fn(k) for 0 <= k < n"""
        g = self.gfun('def_%s_%d' % (name, len(self.ens_seen)), 1)
        self.assume_forall((n,), lambda k: self.eq(g(k), fn(k)))
        return g

    def assign(self, a, fn):
        """a[:] = fn(i) in place"""
        c = self.it.H(self.low(a))
        self.it.setitem(self.low(a), slice(None), self.mk(tuple(N(d) for d in c.shape), fn, c.dtype))

    def setitem(self, a, ix, v):
        self.it.setitem(self.low(a), un(ix), self.low(v))

    # ------------------------------------------------------------ observation
    def get(self, o, attr):
        if isinstance(o, Ref) and self.it.is_dict(o):
            d = self.it.H(o).d
            if attr not in d:
                raise PyRaise('KeyError', (attr,))
            return self.up(d[attr])
        c = self.it.H(o)
        if isinstance(c, ObjC) and attr in c.attrs:
            return self.up(c.attrs[attr])
        return self.up(self.it.getattr(o, attr))

    def has(self, o, attr):
        c = self.it.H(o)
        return attr in (c.attrs if isinstance(c, ObjC) else c.d)

    def put(self, o, attr, v):
        self.it.setattr(o, attr, self.low(v))

    def item(self, a, *ix):
        a = self.low(a)
        if isinstance(a, Ref) and self.it.is_arr(a):
            c = self.it.H(a)
            if len(ix) == len(c.shape):
                return N(self.it.elem(a)(*[un(i) for i in ix]))
        r = a
        for i in ix:
            i = un(i)
            c = self.it.H(r) if isinstance(r, Ref) else None
            if isinstance(c, ListC) and z3.is_expr(i) and not isinstance(c.n, int) and not c.tail:
                r = SoaElem(r, i) if c.soa is not None else c.fn(i)      # specification: no bounds check
            else:
                r = self.it.getitem(r, i)
        return self.up(r)

    def vec(self, a, i):
        """i-th entry of a flat view: scalar, 0-d, (n,) or (1,n) arrays"""
        a = self.low(a)
        if not isinstance(a, Ref):
            return N(a)
        c = self.it.H(a)
        if isinstance(c, ListC):
            return self.up(self.it.getitem(a, un(i)))
        if not c.shape:
            return N(self.it.elem(a)())
        if len(c.shape) == 1:
            return N(self.it.elem(a)(un(i)))
        if len(c.shape) == 2 and self.it.is_one(c.shape[0]):
            return N(self.it.elem(a)(0, un(i)))
        if len(c.shape) == 2 and self.it.is_one(c.shape[1]):
            return N(self.it.elem(a)(un(i), 0))
        raise Unsupported('vec of matrix')

    def shape(self, a):
        c = self.it.H(a)
        if not isinstance(c, ArrC):
            raise Unsupported('shape of non-array')
        return tuple(N(d) for d in c.shape)

    def isarr(self, a):
        return isinstance(a, Ref) and self.it.is_arr(a)

    def len(self, a):
        return N(self.it.length(self.low(a)))

    def same_obj(self, a, b):
        return isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id

    def truthy(self, v):
        v = self.low(v)
        return N(self.it.truth_term(v))

    def snap(self, a):
        """copy of an array's current contents"""
        c = self.it.H(a)
        return self.it.mkarr(c.shape, self.it.elem(a), c.dtype)

    def draws(self, kind=None, within=False):
        """recorded draws; those made by iterations of a cut loop are not listed one by one and are an error unless within=True"""
        if not within:
            for e in self.ctx.events:
                if e[0] == 'loop' and any(kind is None or t == kind for t in hidden(e[1])[1]):
                    raise Unsupported('draws made inside a loop that is cut by an invariant')
        return [d for d in self.ctx.rng if kind is None or d[0] == kind]

    def draw_item(self, d, *ix):
        """value of a recorded draw"""
        sh = d[1]
        ix = [un(i) for i in ix]
        while len(ix) < len(sh):
            ix = [0] + ix
        return N(d[2](*ix[:len(sh)])) if sh else N(d[2]())

    def draw_size(self, d):
        r = 1
        for x in d[1]:
            r = T.mul(r, x)
        return N(r)

    def event(self, *a):
        self.ctx.events.append(a)

    def events(self, tag=None):
        for e in self.ctx.events:
            if e[0] == 'loop' and any(tag is None or t == tag for t in hidden(e[1])[0]):
                raise Unsupported('%s recorded inside a loop that is cut by an invariant' % (tag or 'events'))
        return [e for e in self.ctx.events if e[0] != 'loop' and (tag is None or e[0] == tag)]

    # ------------------------------------------------------------ formulas
    def eq(self, a, b): return N(T.same(un(self.low(a)), un(self.low(b))))
    def and_(self, *xs): return N(T.and_(*[un(x) for x in xs]))
    def or_(self, *xs): return N(T.or_(*[un(x) for x in xs]))
    def not_(self, x): return N(T.not_(un(x)))
    def implies(self, a, b): return N(T.or_(T.not_(un(a)), un(b)))
    def iff(self, a, b): return N(T.eq(un(a), un(b)) if True else None)
    def ite(self, c, a, b): return N(T.ite(un(c), un(a), un(b)))
    def exp(self, x): return N(npm.zexp(un(x)))
    def log(self, x): return N(npm.zlog(un(x)))
    def cos(self, x): return N(npm.COS(T.toz(un(x), True)))

    @property
    def pi(self): return N(npm.PI)

    def normcdf(self, x): return N(npm.zncdf(un(x)))
    def sqrt(self, x): return N(npm.zsqrt(un(x)))
    def pow(self, x, y): return N(npm.zpow(un(x), un(y)))
    def abs(self, x): return N(npm.zabs(un(x)))
    def isnan(self, x): return N(T.isnan(un(x)))
    def isfinite(self, x): return N(T.isfinite(un(x)))
    def num(self, x): return N(T.num(x))
    def min(self, a, b): return self.ite(a <= b, a, b)
    def max(self, a, b): return self.ite(a <= b, b, a)
    def floor(self, x): return N(npm.floor_int(un(x)))

    def sum(self, n, fn):
        return N(self.ctx.mk_sum(un(n), lambda k: un(fn(N(k)))))

    def branch(self, c):
        return self.ctx.branch(T.tobool(un(c)))

    def valid(self, c):
        return self.ctx.quick_valid(T.tobool(un(c)))

    def pyb(self, x):
        """a Python bool with this truth value"""
        return PyB(T.tobool(self.it.truth_term(self.low(x))))

    def member(self, a, j):
        """j is an entry of the integer vector a"""
        return N(self.it.member_rank(self.low(a))[0](T.toz(un(j))))

    def text(self, x):
        """a string that does not depend on the inputs"""
        x = self.low(x)
        if isinstance(x, StrF) and all(isinstance(a, (str, int)) for a in x.args):
            return x.fmt.format(*x.args)
        if not isinstance(x, str):
            raise Unsupported('symbolic string')
        return x

    def text_ints(self, x):
        """the numbers formatted into a string, in order"""
        out = []

        def go(v):
            v = un(v)
            if isinstance(v, StrF):
                import string
                if v.fmt in ('join', 'fmt'):
                    raise Unsupported('text of unknown form')
                q, glue = 0, False
                for lit, f, _, _ in string.Formatter().parse(v.fmt):
                    if lit:
                        if glue and lit[0].isdigit():
                            raise Unsupported('number next to a formatted value')
                        go(lit)
                        glue = lit[-1].isdigit()
                    if f is not None:
                        if glue:
                            raise Unsupported('number next to a formatted value')
                        go(v.args[q])
                        q, glue = q + 1, True
            elif isinstance(v, str):
                import re
                out.extend(N(int(q)) for q in re.findall(r'\d+', v))
            elif isinstance(v, (int, z3.ArithRef)):
                out.append(N(v))
            elif isinstance(v, OpaqueV) and v.kind == 'call' and getattr(v.data[0], 'kind', '') == 'now':
                pass
            else:
                raise Unsupported('formatted value')
        go(self.low(x))
        return out

    def index_vector(self, a):
        """fix the membership and position functions of an integer vector for the rest of the contract"""
        c = self.it.H(self.low(a))
        self.ctx.heap[self.low(a).id] = ArrC(c.shape, c.elem, c.dtype, view=c.view, masks=c.masks, inj=self.it.member_rank(self.low(a)))

    def name_is(self, x, i):
        """x is name number i"""
        x = self.low(x)
        return N(x.e == T.toz(un(i)) if isinstance(x, StrV) else False)

    def same_text(self, x, fmt, *ints):
        """x is the text fmt.format(*ints)"""
        x = self.low(x)
        ints = [T.toz(un(i)) for i in ints]
        if isinstance(x, StrF) and x.fmt == fmt and len(x.args) == len(ints) and all(T.is_scalar(a) for a in x.args):
            return N(z3.And([T.toz(a) == b for a, b in zip(x.args, ints)]))
        if isinstance(x, (StrV, StrF)):
            return N(self.it.strid(x).e == self.it.strid(StrF(fmt, ints)).e)
        if isinstance(x, str):
            import re
            m = re.fullmatch('(-?[0-9]+)'.join(re.escape(p) for p in fmt.format(*['\0'] * len(ints)).split('\0')), x)
            return N(z3.And([b == int(g) for g, b in zip(m.groups(), ints)]) if m else False)
        return N(False)

    def reach(self, v, out=None):
        """mutable cells reachable from a value"""
        out = {} if out is None else out
        v = self.low(v)
        if isinstance(v, tuple):
            for x in v:
                self.reach(x, out)
        elif isinstance(v, SoaElem):
            self.reach(v.lst, out)
        elif isinstance(v, MethV):
            self.reach(v.obj, out) if hasattr(v, 'obj') else None
        elif isinstance(v, Ref) and v.id not in out:
            out[v.id] = True
            c = self.it.H(v)
            if isinstance(c, ArrC):
                if c.view is not None:
                    raise Unsupported('array view in a set-up')
            elif isinstance(c, ObjC):
                for x in c.attrs.values():
                    self.reach(x, out)
            elif isinstance(c, DictC):
                for x in c.d.values():
                    self.reach(x, out)
            elif isinstance(c, ListC):
                for x in c.tail:
                    self.reach(x, out)
                for f in (c.soa or {}).values():
                    if getattr(f, 'ref', None) is not None:
                        self.reach(f.ref, out)
                if not c.soa and not isinstance(c.n, int):
                    x = c.fn(self.ctx.var('rc'))
                    if isinstance(x, (Ref, SoaElem)):
                        raise Unsupported('symbolic list of objects')
        return out

    def disjoint(self, a, b):
        """no mutable object is reachable from both"""
        return not set(self.reach(a)) & set(self.reach(b))

    def sum_nonneg(self, n, fn):
        """lemma (induction on n): a sum of non-negative terms is non-negative; the terms are an obligation"""
        self.ensure_forall('lemma-terms-non-negative', (n,), lambda k: fn(k) >= 0)
        r = self.sum(n, fn)
        self.assume(r >= 0)
        return r

    def forbid(self, name, label):
        """from here on only this is decided: the code never calls the named external function"""
        self.it.forbidden, self.it.only = (self.it.forbidden or ()) + (name,), (self.it.only or set()) | {label}

    def not_called(self, label):
        self.ensure(label, not self.it.hit)

    def well_conditioned(self, a):
        """exact arithmetic: always (sampled runs skip matrices that are singular up to rounding)"""
        return True

    def peel(self):
        """execute the first iteration of symbolic for-loops separately"""
        self.it.peel = True

    def undecided(self, name):
        """the contract does not cover this shape of the code"""
        self.ensure(name, False)

    def sorted(self, a, axis=0):
        """order statistics along an axis"""
        return npm.EXT['numpy.sort'](self.it, [self.low(a), axis], {})

    def some(self, name, n):
        """an arbitrary index below n (concretely: every index)"""
        j = self.fresh_int(name)
        self.assume(self.and_(0 <= j, j < n))
        return [j]

    def labels(self, env):
        """numbers of the names held in local variables"""
        out = []
        for n in sorted(env):
            v = env[n]
            if isinstance(v, StrV) and not any(v.e.eq(x.v) for x in out):
                out.append(N(v.e))
        return out

    def field(self, lst, k):
        """copy of a field of a list of records"""
        return self.it.to_array(self.it.H(self.low(lst)).soa[k].ref)

    def rank(self, a, j):
        """position of entry j in the integer vector a (without repetitions)"""
        return N(self.it.member_rank(self.low(a))[1](T.toz(un(j))))

    def stub(self, obj, name, qual, fn=None):
        """callee contract for a method call on obj: no effect, result fn()"""
        self.summary(qual, lambda S, env: fn(S) if fn else None)

    def raised(self, r):
        return isinstance(r, Raised)

    def posdef(self, a):
        """branch: does the (assumed) Cholesky factorisation of this matrix succeed"""
        from .extlib import chol_terms, CHOL_OK
        return self.ctx.branch(CHOL_OK(chol_terms(self.it, a)[2]))

    # ------------------------------------------------------------ statements
    def assume(self, f):
        self.ctx.assume(T.tobool(un(f)))

    def assume_forall(self, dims, fn):
        vs = [self.ctx.var('fa') for _ in dims]
        g = z3.And(*[z3.And(v >= 0, v < T.toz(un(d))) for v, d in zip(vs, dims)])
        with self.ctx.binding(vs, g):
            f = un(fn(*[N(v) for v in vs]))
        self.ctx.add_rule(vs, z3.Implies(g, T.tobool(f)), label='assume')

    def ensure(self, name, f):
        self.ens_seen[name] = self.ens_seen.get(name, 0) + 1
        return self.it.oblige(name, T.tobool(un(f)))

    def ensure_forall(self, name, dims, fn):
        self.ens_seen[name] = self.ens_seen.get(name, 0) + 1
        vs = [z3.Const(self.ctx.name('sk'), I) for _ in dims]
        g = [z3.And(v >= 0, v < T.toz(un(d))) for v, d in zip(vs, dims)]
        g = z3.And(*g) if g else z3.BoolVal(True)
        n0 = len(self.ctx.pc)
        r0 = len(self.ctx.rules)
        self.ctx.pc.append((g, 'sk'))
        f = un(fn(*[N(v) for v in vs]))
        ok = self.it.oblige(name, T.tobool(f))
        self.ctx.pc = self.ctx.pc[:n0]
        self.ctx.rules = self.ctx.rules[:r0]
        return ok

    def fail(self, name, why=''):
        self.ens_seen[name] = self.ens_seen.get(name, 0) + 1
        self.it.oblige(name, z3.BoolVal(False))

    # ------------------------------------------------------------ run
    def run(self, contract, maxpaths=600, deadline=None):
        """-> dict(status, obligations, ...)"""
        t0 = time.time()
        res = dict(paths=0, error=None, obligations=[], fails=[])
        ctx = self.ctx

        def one():
            self.it.loop_invs = []
            self.it.summaries = {}
            self.it.absent = set()
            ctx.frozen = []
            if deadline and time.time() > deadline:
                raise Unsupported('proof time limit')
            try:
                contract(self)
            except PyRaise as e:
                self.it.oblige('no-unexpected-exception(%s %s)' % (e.cls, e.eargs,), z3.BoolVal(False))
            except Skip:
                pass
            self.it.check_frozen()
            return True
        try:
            for _ in ctx.explore(one, maxpaths):
                res['paths'] += 1
        except Unsupported as e:
            res['error'] = 'unsupported: %s (near line %s)' % (e, getattr(self.it, 'cur_line', None))
            res['tb'] = traceback.format_exc()
        except RecursionError as e:
            res['error'] = 'recursion'
        except z3.Z3Exception as e:
            res['error'] = 'z3: %s' % e
            res['tb'] = traceback.format_exc()
        except Exception as e:
            res['error'] = 'engine: %s: %s' % (type(e).__name__, e)
            res['tb'] = traceback.format_exc()
        for o in self.it.obl:
            res['obligations'].append((o['name'], o['path'], o['status'], o['backend']))
            if o['status'] != 'proved':
                d = dict(name=o['name'], path=o['path'], status=o['status'], goal=str(z3.simplify(T.tobool(o['goal'])))[:2000],
                         info=str(o['info'])[:3000])
                if o['status'] == 'refuted':
                    try:
                        d['model'] = self.concretize(o['info'])
                    except Exception as e:
                        d['model_error'] = str(e)
                res['fails'].append(d)
        res['functions'] = sorted(set(self.under))
        res['inlined'] = sorted(self.it.inlined)
        res['summaries'] = sorted(self.it.used_summaries)
        res['trusted'] = sorted(self.it.trusted)
        res['inv'] = [(l, str(ok)) for l, ok in self.it.inv_log] if self.it.inv_log and isinstance(self.it.inv_log[0], tuple) and len(self.it.inv_log[0]) == 2 else [str(x) for x in self.it.inv_log]
        res['ensures'] = dict(self.ens_seen)
        res['stats'] = dict(ctx.stats)
        res['wall'] = time.time() - t0
        return res

    def concretize(self, m):
        """input values of a counterexample model (array dims clipped)"""
        out = {}

        def val(e):
            v = m.eval(e, model_completion=True)
            if z3.is_int_value(v):
                return v.as_long()
            if z3.is_rational_value(v):
                return float(v.as_fraction())
            if z3.is_algebraic_value(v):
                return float(v.approx(20).as_fraction())
            if z3.is_true(v):
                return True
            if z3.is_false(v):
                return False
            return None
        cl = {0: None, 1: float('inf'), 2: float('-inf'), 3: float('nan')}
        for nm, inp in self.inputs.items():
            if inp[0] in ('int', 'real', 'bool'):
                out[nm] = val(inp[1])
            elif inp[0] == 'xreal':
                c = val(inp[2])
                out[nm] = val(inp[1]) if c == 0 else cl[c]
            else:
                _, shape, f, g = inp
                dims = [d if isinstance(d, int) else val(d) for d in shape]
                if any(d is None or d > 12 for d in dims):
                    continue
                import itertools

                def build(pref, rest):
                    if not rest:
                        v = val(f(*[z3.IntVal(i) for i in pref]))
                        if g is not None:
                            c = val(g(*[z3.IntVal(i) for i in pref]))
                            if c:
                                return cl.get(c)
                        return v
                    return [build(pref + [i], rest[1:]) for i in range(rest[0])]
                out[nm] = build([], dims)
        return out
