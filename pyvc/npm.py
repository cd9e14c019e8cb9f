"""Model of the numpy / builtins operations used by the code under verification.
Everything here is part of the trusted base (cross-checked against CPython by the
concrete contract runs)."""
import itertools
import math
from fractions import Fraction
import z3
from . import terms as T
from .terms import Unsupported, XR
from .values import *

I, RL, BL = z3.IntSort(), z3.RealSort(), z3.BoolSort()
EXP = z3.Function('exp', RL, RL)
LOG = z3.Function('log', RL, RL)
SQRT = z3.Function('sqrt', RL, RL)
POW = z3.Function('pow', RL, RL, RL)
COS = z3.Function('cos', RL, RL)
SIN = z3.Function('sin', RL, RL)
PI = z3.Real('pi')


def zexp(x):
    if T.iszero(x):
        return Fraction(1)
    if T.special(x):
        x = T.xr(x)
        return T.mkxr(z3.If(x.c == 2, z3.RealVal(0), EXP(x.v)), z3.If(x.c == 2, 0, x.c))
    return EXP(T.toz(x, True))


def zlog(x):
    if T.isone(x):
        return Fraction(0)
    if not T.special(x) and not isinstance(x, (int, Fraction)):
        z = T.toz(x, True)
        h = T._nonzero_hook[0]
        ctx = getattr(h, '__self__', None)
        if ctx is not None and ctx.quick_valid(z > 0):
            return LOG(z)
    elif isinstance(x, (int, Fraction)) and x > 0:
        return LOG(T.toz(x, True))
    x = T.xr(x)
    c = z3.If(x.c == 0, z3.If(x.v > 0, 0, z3.If(x.v == 0, 2, 3)), z3.If(x.c == 2, 3, x.c))
    return T.mkxr(LOG(x.v), c)


def zsqrt(x):
    if isinstance(x, (int, Fraction)) and not isinstance(x, bool) and x >= 0:
        f = Fraction(x)
        a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if a * a == f.numerator and b * b == f.denominator:
            return Fraction(a, b)
        return SQRT(T.toz(f, True))
    if not T.special(x):
        z = T.toz(x, True)
        h = T._nonzero_hook[0]
        ctx = getattr(h, '__self__', None)
        if ctx is not None and ctx.quick_valid(z >= 0):
            return SQRT(z)
    x = T.xr(x)
    c = z3.If(x.c == 0, z3.If(x.v >= 0, 0, 3), z3.If(x.c == 2, 3, x.c))
    return T.mkxr(SQRT(x.v), c)


NCDF = z3.Function('norm_cdf', RL, RL)


def zncdf(x):
    """standard normal distribution function (assumed contract: a function of its argument, 0 at -inf, 1 at inf)"""
    if T.special(x):
        x = T.xr(x)
        return T.mkxr(z3.If(x.c == 0, NCDF(x.v), z3.If(x.c == 1, z3.RealVal(1), z3.RealVal(0))), z3.If(x.c == 3, 3, 0))
    return NCDF(T.toz(x, True))


def zabs(x):
    if isinstance(x, (int, Fraction)):
        return abs(x)
    if T.special(x):
        x = T.xr(x)
        return T.mkxr(z3.If(x.v >= 0, x.v, -x.v), z3.If(x.c == 2, 1, x.c))
    z = T.toz(x)
    return z3.If(z >= 0, z, -z)


def idiv(a, b):
    """floor division of integer terms, b > 0: multiples of b are taken out of the numerator"""
    a, b = z3.simplify(T.toz(a), som=True), z3.simplify(T.toz(b))
    if z3.is_int_value(b):
        return a / b
    keep, out = [], 0
    for m in (a.children() if z3.is_add(a) else [a]):
        if m.eq(b):
            out += 1
        elif z3.is_mul(m) and m.num_args() == 2 and z3.is_int_value(m.arg(0)) and m.arg(1).eq(b):
            out += m.arg(0).as_long()
        else:
            keep.append(m)
    r = z3.Sum(keep) / b if len(keep) > 1 else keep[0] / b if keep and not (z3.is_int_value(keep[0]) and keep[0].as_long() == 0) else z3.IntVal(0)
    return r + out if out else r


def int_quotient(x):
    """(a, b) when x is the real quotient of two integer terms"""
    num, den = None, None
    if z3.is_app_of(x, z3.Z3_OP_DIV):
        num, den = x.arg(0), x.arg(1)
    elif z3.is_mul(x) and x.num_args() == 2:
        for p, q in ((x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))):
            if z3.is_app_of(q, z3.Z3_OP_DIV) and z3.is_rational_value(q.arg(0)) and q.arg(0).as_fraction() == 1:
                num, den = p, q.arg(1)
            elif z3.is_rational_value(q) and q.denominator_as_long() != 1:
                num, den = p * z3.RealVal(q.numerator_as_long()) if q.numerator_as_long() != 1 else p, z3.RealVal(q.denominator_as_long())
    if num is None:
        return None

    def toint(e):
        if z3.is_app_of(e, z3.Z3_OP_TO_REAL):
            return e.arg(0)
        if z3.is_rational_value(e) and e.denominator_as_long() == 1:
            return z3.IntVal(e.numerator_as_long())
        if z3.is_add(e) or z3.is_mul(e):
            cs = [toint(c) for c in e.children()]
            if any(c is None for c in cs):
                return None
            r = cs[0]
            for c in cs[1:]:
                r = r + c if z3.is_add(e) else r * c
            return r
        return None
    a, b = toint(num), toint(den)
    return None if a is None or b is None else (a, b)


def floor_int(x):
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return math.floor(x)
    if T.special(x):
        raise Unsupported('floor of non-finite')
    if z3.is_int(x):
        return x
    x = z3.simplify(x)
    if z3.is_app(x):
        k = x.decl().kind()
        if k == z3.Z3_OP_TO_REAL:
            return x.arg(0)
        if k == z3.Z3_OP_ITE:
            return z3.If(x.arg(0), T.toz(floor_int(x.arg(1))), T.toz(floor_int(x.arg(2))))
        if z3.is_rational_value(x):
            return math.floor(Fraction(x.as_fraction()))
    q = int_quotient(x)
    if q is not None:
        ctx = getattr(T._nonzero_hook[0], '__self__', None)
        if ctx is not None and ctx.quick_valid(q[1] > 0):
            return idiv(*q)
    return z3.ToInt(x)


def ceil_int(x):
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return math.ceil(x)
    return T.neg(floor_int(T.neg(x)))


def trunc_int(x):
    if isinstance(x, int):
        return int(x)
    if isinstance(x, Fraction):
        return int(x)
    if T.special(x):
        raise Unsupported('int of non-finite')
    if z3.is_int(x):
        return x
    if z3.is_bool(x):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    ctx = getattr(T._nonzero_hook[0], '__self__', None)
    if ctx is not None and ctx.quick_valid(x >= 0):
        return floor_int(x)
    return z3.If(x >= 0, floor_int(x), T.toz(ceil_int(x)))


def zpow(a, b):
    if isinstance(b, Fraction) and b.denominator == 1:
        b = int(b)
    if isinstance(b, int) and not isinstance(b, bool):
        if b >= 0 and b <= 16:
            return T.ipow(a, b)
        if b < 0 and b >= -16:
            return T.div(1, T.ipow(a, -b))
    if isinstance(b, Fraction) and b.denominator == 2:
        s = zsqrt(a)
        return zpow(s, b.numerator)
    if isinstance(a, (int, Fraction)) and isinstance(b, int):
        return Fraction(a) ** b
    if z3.is_expr(b):
        sb = z3.simplify(b)
        if z3.is_int_value(sb) or (z3.is_rational_value(sb)):
            return zpow(a, Fraction(sb.as_fraction()) if z3.is_rational_value(sb) else sb.as_long())
    if T.special(a) or T.special(b):
        raise Unsupported('power of non-finite')
    return POW(T.toz(a, True), T.toz(b, True))


class NumpyModel:
    # ------------------------------------------------------------ arrays
    def mkarr(self, shape, elem, dtype='f', **kw):
        shape = tuple(self.dim(d) for d in shape)
        return self.alloc(ArrC(shape, elem, dtype, **kw))

    def dim(self, d):
        d = self.unw(d)
        if isinstance(d, Fraction) and d.denominator == 1:
            d = int(d)
        if isinstance(d, int):
            return int(d)
        if z3.is_expr(d) and z3.is_int(d):
            d = z3.simplify(d)
            return d.as_long() if z3.is_int_value(d) else d
        raise Unsupported('dimension %r' % (d,))

    def elem(self, r):
        """snapshot of the element function of an array"""
        c = self.H(r)
        if c.view is None:
            return c.elem
        base, fwd, inv = c.view
        be = self.elem(Ref(base))
        return lambda *ix: be(*fwd(ix))

    def deq(self, a, b):
        """are two dimensions equal? (decided, or forked)"""
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        a, b = T.toz(a), T.toz(b)
        if a.eq(b):
            return True
        f = z3.simplify(a == b)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        if self.ctx.quick_valid(f):
            return True
        return self.ctx.branch(f)

    def is_one(self, d):
        if isinstance(d, int):
            return d == 1
        return self.ctx.quick_valid(d == 1)

    def lift(self, v):
        """(shape, elemfn, dtype, masks) of any array-like operand"""
        v = self.unw(v)
        if T.is_scalar(v):
            return (), (lambda *ix: v), ('b' if T.is_boollike(v) else 'i' if T.is_intlike(v) else 'f'), {}
        if self.is_arr(v):
            c = self.H(v)
            return c.shape, self.elem(v), c.dtype, c.masks
        if isinstance(v, (tuple, RangeV)) or self.is_list(v):
            a = self.to_array(v)
            c = self.H(a)
            return c.shape, self.elem(a), c.dtype, c.masks
        raise Unsupported('array operand %r' % (v,))

    def to_array(self, v, dtype=None):
        """np.array(v)"""
        v = self.unw(v)
        if self.is_arr(v):
            c = self.H(v)
            return self.alloc(ArrC(c.shape, self.elem(v), dtype or c.dtype, masks=c.masks, inj=c.inj))
        if T.is_scalar(v):
            return self.mkarr((), lambda: v, dtype or ('b' if T.is_boollike(v) else 'i' if T.is_intlike(v) else 'f'))
        if isinstance(v, RangeV):
            n = self.length(v)
            return self.mkarr((n,), lambda k: T.add(v.lo, T.mul(k, v.step)), 'i')
        if isinstance(v, tuple) or self.is_list(v):
            n = self.length(v)
            if isinstance(n, int):
                items = [self.getitem(v, i) if not isinstance(v, tuple) else v[i] for i in range(n)]
                items = [self.unw(x) for x in items]
                if all(T.is_scalar(x) for x in items):
                    dt = dtype or ('i' if items and all(T.is_intlike(x) for x in items) else 'f')
                    if items and all(T.is_boollike(x) for x in items):
                        dt = dtype or 'b'
                    return self.mkarr((n,), lambda k: self.pick(items, k), dt)
                subs = [self.to_array(x) for x in items]
                sh = self.H(subs[0]).shape
                for s_ in subs[1:]:
                    if len(self.H(s_).shape) != len(sh) or not all(self.deq(a, b) for a, b in zip(self.H(s_).shape, sh)):
                        raise PyRaise('ValueError', ('inhomogeneous',))
                es = [self.elem(x) for x in subs]
                return self.mkarr((n,) + sh, lambda k, *ix: self.pick([e(*ix) for e in es] if not isinstance(k, int) else es, k, ix), self.H(subs[0]).dtype)
            c = self.H(v)
            if c.soa:
                raise Unsupported('array from mixed list')
            if c.tail:
                tl = [self.unw(x) for x in c.tail]
                if c.fn is None or not all(T.is_scalar(x) and not T.is_boollike(x) for x in tl):
                    raise Unsupported('array from mixed list')
                head = self.to_array(self.alloc(ListC(c.n, c.fn)))
                if len(self.H(head).shape) != 1:
                    raise Unsupported('array from mixed list')
                he, m = self.elem(head), c.n
                dt = 'i' if self.H(head).dtype == 'i' and all(T.is_intlike(x) for x in tl) else 'f'
                return self.mkarr((n,), lambda k: T.ite(T.toz(k) < T.toz(m), he(k), self.pick(tl, T.sub(k, m))), dtype or dt)
            k0 = self.ctx.var('ar')
            with self.ctx.binding([k0], k0 >= 0, k0 < T.toz(n)):
                x0 = c.fn(k0)
                x0 = self.unw(x0)
                if self.is_arr(x0):
                    sh = self.H(x0).shape
                    for d in sh:
                        if not isinstance(d, int) and self.ctx._has(d, k0):
                            raise Unsupported('ragged array')
                    e0 = None
                    return self.mkarr((n,) + sh, lambda k, *ix: self.elem(c.fn(k))(*ix), self.H(x0).dtype)
            if T.is_scalar(x0):
                return self.mkarr((n,), lambda k: self.unw(c.fn(k)), 'i' if T.is_intlike(x0) else 'f')
        raise Unsupported('np.array of %r' % (v,))

    def pick(self, items, k, ix=None):
        if isinstance(k, int):
            x = items[k]
            return x(*ix) if ix is not None and callable(x) else x
        r = items[-1]
        for i in range(len(items) - 2, -1, -1):
            r = T.ite(T.toz(k) == i, items[i], r)
        return r

    def bcast(self, sa, sb):
        """broadcast shapes -> (shape, idx map a, idx map b)"""
        nd = max(len(sa), len(sb))
        out, ma, mb = [], [], []
        for q in range(nd):
            da = sa[len(sa) - nd + q] if len(sa) - nd + q >= 0 else None
            db = sb[len(sb) - nd + q] if len(sb) - nd + q >= 0 else None
            if da is None:
                out.append(db), mb.append('k')
            elif db is None:
                out.append(da), ma.append('k')
            elif isinstance(da, int) and da == 1 and not (isinstance(db, int) and db == 1):
                out.append(db), ma.append('0'), mb.append('k')
            elif isinstance(db, int) and db == 1 and not (isinstance(da, int) and da == 1):
                out.append(da), ma.append('k'), mb.append('0')
            elif self.deq(da, db):
                out.append(da if isinstance(da, int) or not isinstance(db, int) else db), ma.append('k'), mb.append('k')
            elif self.is_one(da):
                out.append(db), ma.append('0'), mb.append('k')
            elif self.is_one(db):
                out.append(da), ma.append('k'), mb.append('0')
            else:
                raise PyRaise('ValueError', ('operands could not be broadcast together',))

        def mk(m):
            def f(ix):
                ix = ix[len(ix) - len(m):] if m else ()
                return tuple(0 if t == '0' else i for t, i in zip(m, ix))
            return f
        return tuple(out), mk(ma), mk(mb)

    def map2(self, a, b, f, dtype=None):
        sa, ea, da, ma_ = self.lift(a)
        sb, eb, db, mb_ = self.lift(b)
        sh, ma, mb = self.bcast(sa, sb)
        masks = {}
        for nd, m in ((len(sa), ma_), (len(sb), mb_)):
            for ax, fn in m.items():
                masks[ax + len(sh) - nd] = fn
        if ma_ and mb_:
            if set(ma_) != set(mb_) or any(ma_[k] is not mb_[k] and not self.same_mask(ma_[k], mb_[k]) for k in ma_):
                raise Unsupported('operands with different masks')
        elif (ma_ and sb and not all(isinstance(d, int) and d == 1 for d in sb)) or (mb_ and sa and not all(isinstance(d, int) and d == 1 for d in sa)):
            # masked op non-masked array along the same axis
            raise Unsupported('masked with unmasked operand')
        dt = dtype or ('f' if 'f' in (da, db) else 'i')
        return self.mkarr(sh, lambda *ix: f(ea(*ma(ix)), eb(*mb(ix))), dt, masks=masks)

    def same_mask(self, f, g):
        if f is g:
            return True
        k = self.ctx.var('mk')
        return self.ctx.quick_valid(T.tobool(f(k)) == T.tobool(g(k)))

    def map1(self, a, f, dtype=None):
        sa, ea, da, m = self.lift(a)
        if not self.is_arr(a):
            if T.is_scalar(self.unw(a)):
                return f(self.unw(a))
        return self.mkarr(sa, lambda *ix: f(ea(*ix)), dtype or da, masks=m)

    # ------------------------------------------------------------ operators
    def binop(self, op, a, b):
        if isinstance(a, Junk) or isinstance(b, Junk):
            raise Unsupported('use of a lost value (%s)' % (a.why if isinstance(a, Junk) else b.why))
        if self.is_arr(a) or self.is_arr(b):
            if op == 'MatMult':
                return self.dot(a, b)
            f = {'Add': T.add, 'Sub': T.sub, 'Mult': T.mul, 'Div': T.div, 'Pow': zpow,
                 'FloorDiv': self.floordiv, 'Mod': self.mod,
                 'BitOr': lambda x, y: T.or_(self.asbool(x), self.asbool(y)),
                 'BitAnd': lambda x, y: T.and_(self.asbool(x), self.asbool(y)),
                 'BitXor': lambda x, y: T.not_(T.eq(self.asbool(x), self.asbool(y)))}.get(op)
            if f is None:
                raise Unsupported('array op ' + op)
            da = self.lift(a)[2]
            db = self.lift(b)[2]
            if da == 'b' and db == 'b' and op in ('Add', 'BitOr', 'BitAnd', 'Mult', 'BitXor'):
                g = T.or_ if op in ('Add', 'BitOr') else T.and_ if op in ('BitAnd', 'Mult') else (lambda x, y: T.not_(T.eq(x, y)))
                return self.map2(a, b, lambda x, y: g(self.asbool(x), self.asbool(y)), 'b')
            return self.map2(a, b, f, 'f' if op in ('Div',) or (op == 'Pow') and not (da == 'i' and db == 'i') else None)
        if isinstance(a, (str, StrF, StrV)) or isinstance(b, (str, StrF, StrV)):
            return self.strop(op, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Add':
            return a + b
        if self.is_list(a) and op == 'Add' and (self.is_list(b)):
            return self.list_concat(a, b)
        if self.is_list(a) and op == 'Mult' and isinstance(b, int):
            return self.mklist(self.concrete_items(a) * b)
        if self.is_list(b) and op == 'Mult' and isinstance(a, int):
            return self.mklist(self.concrete_items(b) * a)
        if op == 'Mult' and self.is_list(a) and T.is_scalar(self.unw(b)):
            return self.list_repeat(a, b)
        if op == 'Mult' and self.is_list(b) and T.is_scalar(self.unw(a)):
            return self.list_repeat(b, a)
        a, b = self.unw(a), self.unw(b)
        if not T.is_scalar(a) or not T.is_scalar(b):
            if self.is_list(a) or self.is_list(b) or a is None or b is None:
                raise PyRaise('TypeError', ('unsupported operand',))
            raise Unsupported('binop %s on %r %r' % (op, a, b))
        if op == 'Add':
            return T.add(a, b)
        if op == 'Sub':
            return T.sub(a, b)
        if op == 'Mult':
            return T.mul(a, b)
        if op == 'Div':
            return T.div(a, b)
        if op == 'Pow':
            return zpow(a, b)
        if op == 'FloorDiv':
            return self.floordiv(a, b)
        if op == 'Mod':
            return self.mod(a, b)
        if op == 'BitOr':
            return T.or_(self.asbool(a), self.asbool(b))
        if op == 'BitAnd':
            return T.and_(self.asbool(a), self.asbool(b))
        raise Unsupported('operator ' + op)

    def floordiv(self, a, b):
        if T.is_intlike(a) and T.is_intlike(b):
            if T.both_conc(a, b):
                return a // b
            if not (isinstance(b, int) and b > 0) and not self.ctx.quick_valid(T.toz(b) > 0):
                raise Unsupported('floor division by a number not known to be positive')
            return idiv(a, b)               # z3 int div = floor for positive divisor
        return T.toz(floor_int(T.div(a, b)), True)

    def mod(self, a, b):
        if isinstance(a, str):
            return StrF(a, (b,))
        if T.is_intlike(a) and T.is_intlike(b):
            if T.both_conc(a, b):
                return a % b
            if not (isinstance(b, int) and b > 0) and not self.ctx.quick_valid(T.toz(b) > 0):
                raise Unsupported('remainder by a number not known to be positive')
            return T.toz(a) % T.toz(b)
        raise Unsupported('real modulo')

    def strid(self, v):
        """identity of a text: equal ingredients give equal texts, nothing else is assumed"""
        if isinstance(v, StrV):
            return v
        if isinstance(v, str):
            return StrV(z3.Function('text:' + v, z3.IntSort())())
        if isinstance(v, StrF) and v.args and all(T.is_intlike(a) for a in v.args):
            f = z3.Function('text:' + v.fmt, *([z3.IntSort()] * (len(v.args) + 1)))
            return StrV(f(*[T.toz(a) for a in v.args]))
        raise Unsupported('identity of a formatted text')

    def mktext(self, parts):
        """the text made of literals and values, in the one form all ways of formatting share"""
        import string
        flat = []
        for x in parts:
            x = self.unw(x)
            if isinstance(x, StrF) and x.fmt not in ('join', 'fmt'):
                q = 0
                for lit, f, sp, cv in string.Formatter().parse(x.fmt):
                    if lit:
                        flat.append(lit)
                    if f is not None:
                        flat.append(x.args[q] if not sp and not cv else StrF('{%s%s}' % ('!' + cv if cv else '', ':' + sp if sp else ''), (x.args[q],)))
                        q += 1
            elif isinstance(x, (str, bool, int)) or x is None:
                flat.append(str(x))
            else:
                flat.append(x)
        fmt, args = '', []
        for x in flat:
            if isinstance(x, str):
                fmt += x.replace('{', '{{').replace('}', '}}')
            elif isinstance(x, StrF) and x.fmt not in ('join', 'fmt'):
                fmt += x.fmt
                args += list(x.args)
            else:
                fmt += '{}'
                args.append(x)
        return StrF(fmt, args) if args else fmt.replace('{{', '{').replace('}}', '}')

    def str_format(self, o, args):
        """o.format(*args) with automatic or explicit positions"""
        import string
        parts, q = [], 0
        try:
            ps = list(string.Formatter().parse(o))
        except ValueError:
            raise PyRaise('ValueError', ('format',))
        for lit, f, sp, cv in ps:
            if lit:
                parts.append(lit)
            if f is None:
                continue
            if f == '':
                i, q = q, q + 1
            elif f.isdigit():
                i = int(f)
            else:
                return StrF(o, args)
            if i >= len(args):
                raise PyRaise('IndexError', ('format',))
            v = self.unw(args[i])
            if cv or (sp and not (sp == 'd' and T.is_scalar(v) and T.is_intlike(v))):
                if isinstance(v, (str, int)) and not cv:
                    parts.append(('{:%s}' % sp).format(v))
                else:
                    parts.append(StrF('{%s%s}' % ('!' + cv if cv else '', ':' + sp if sp else ''), (v,)))
            else:
                parts.append(v)
        return self.mktext(parts)

    def strop(self, op, a, b):
        if op == 'Add':
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if not all(isinstance(x, (str, StrF, StrV)) for x in (a, b)):
                raise PyRaise('TypeError', ('can only concatenate str',))
            return self.mktext([a, b])
        if op == 'Mult':
            if isinstance(a, str) and isinstance(b, int):
                return a * b
            if isinstance(b, str) and isinstance(a, int):
                return a * b
        if op == 'Mod' and isinstance(a, str):
            import re
            vals = list(b) if isinstance(b, tuple) else [b]
            parts = []
            for x in re.split('(%[a-z%])', a):
                if x == '%%':
                    parts.append('%')
                elif x in ('%s', '%d', '%i', '%r'):
                    if not vals:
                        raise PyRaise('TypeError', ('not enough arguments',))
                    v = self.unw(vals.pop(0))
                    if x == '%r' or (x != '%s' and not (T.is_scalar(v) and T.is_intlike(v))):
                        raise Unsupported('text formatting %s' % x)
                    parts.append(v)
                elif '%' in x:
                    return StrF('fmt', (a, b))
                else:
                    parts.append(x)
            if vals:
                raise PyRaise('TypeError', ('not all arguments converted',))
            return self.mktext(parts)
        raise PyRaise('TypeError', ('str op',))

    def list_concat(self, a, b):
        ca, cb = self.H(a), self.H(b)
        if isinstance(self.length(a), int) and isinstance(self.length(b), int):
            return self.mklist(self.concrete_items(a) + self.concrete_items(b))
        if isinstance(self.length(b), int) and not ca.soa:
            return self.alloc(ListC(ca.n, ca.fn, ca.tail + tuple(self.concrete_items(b))))
        if not ca.soa and not cb.soa:
            la, lb = self.length(a), self.length(b)
            fa, fb = self.list_fn(ca), self.list_fn(cb)
            return self.alloc(ListC(T.add(la, lb), lambda i: self.merge(T.lt(i, la), fa(i), fb(T.sub(i, la)))))
        raise Unsupported('list concatenation')

    def list_fn(self, c):
        """element function of a list whose length is symbolic"""
        n, fn, tail = c.n, c.fn, c.tail

        def get(i):
            if fn is None and len(tail) == 1:
                return tail[0]
            r = tail[-1] if tail else None
            for q in range(len(tail) - 2, -1, -1):
                r = self.merge(T.eq(i, T.add(n, q)), tail[q], r)
            if fn is None:
                return r
            return fn(i) if not tail else self.merge(T.lt(i, n), fn(i), r)
        return get

    def list_repeat(self, a, n):
        n = self.unw(n)
        if not (z3.is_expr(n) and z3.is_int(n)):
            raise PyRaise('TypeError', ('can only repeat by a whole number',))
        items = self.concrete_items(a)
        if not items:
            return self.mklist([])
        if len(items) != 1:
            raise Unsupported('repetition of a list with several entries a symbolic number of times')
        x = items[0]
        return self.alloc(ListC(T.ite(T.gt(n, 0), n, 0), lambda i: x))

    # ------------------------------------------------------------ comparison
    def compare(self, op, a, b):
        if op in ('Is', 'IsNot'):
            r = self.identical(a, b)
            return r if op == 'Is' else (not r if isinstance(r, bool) else PyB(T.not_(r)))
        if op in ('In', 'NotIn'):
            r = self.contains(b, a)
            return r if op == 'In' else (not r if isinstance(r, bool) else T.not_(r))
        if isinstance(a, Junk) or isinstance(b, Junk):
            raise Unsupported('comparison with a lost value')
        if self.is_arr(a) or self.is_arr(b):
            other = b if self.is_arr(a) else a
            if isinstance(other, (str, StrF)) or other is None:
                return op == 'NotEq'
            if self.is_list(other) and self.length(other) == 0 and op in ('Eq', 'NotEq'):
                # numpy 1.25+: elementwise comparison with [] raises unless shapes broadcast
                sh = self.H(a if self.is_arr(a) else b).shape
                if sh and self.is_one(sh[-1]):
                    return self.mkarr(tuple(sh[:-1]) + (0,), lambda *ix: False, 'b')
                raise PyRaise('ValueError', ('operands could not be broadcast together',))
            f = {'Lt': T.lt, 'LtE': T.le, 'Gt': T.gt, 'GtE': T.ge, 'Eq': T.eq, 'NotEq': lambda x, y: T.not_(T.eq(x, y))}[op]
            if op in ('Eq', 'NotEq') and self.lift(a)[2] == 'b' and self.lift(b)[2] == 'b':
                g = lambda x, y: T.eq(self.asbool(x), self.asbool(y))
                return self.map2(a, b, g if op == 'Eq' else (lambda x, y: T.not_(g(x, y))), 'b')
            return self.map2(a, b, f, 'b')
        if op in ('Eq', 'NotEq'):
            r = self.equal(a, b)
            return r if op == 'Eq' else (not r if isinstance(r, bool) else T.not_(r))
        a, b = self.unw(a), self.unw(b)
        if T.is_scalar(a) and T.is_scalar(b):
            return {'Lt': T.lt, 'LtE': T.le, 'Gt': T.gt, 'GtE': T.ge}[op](a, b)
        if a is None or b is None:
            raise PyRaise('TypeError', ('ordering with None',))
        raise Unsupported('comparison')

    def identical(self, a, b):
        if isinstance(b, bool) or isinstance(a, bool):
            if isinstance(a, bool):
                a, b = b, a
            if isinstance(a, bool):
                return a == b
            if isinstance(a, PyB):
                return self.ctx.branch(T.tobool(a.e)) == b
            if isinstance(a, NPB) or isinstance(a, Ref) or a is None or isinstance(a, (str, int, Fraction, tuple, StrF, StrV)):
                return False
            if z3.is_expr(a) and z3.is_bool(a):
                raise Unsupported('identity test on a boolean of unknown type')
            return False
        if a is None or b is None:
            if isinstance(a, Junk) or isinstance(b, Junk):
                raise Unsupported('lost value')
            return a is b
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.id == b.id
        if isinstance(a, (str, int)) and isinstance(b, (str, int)):
            return a == b
        return a is b

    def str_id(self, s):
        t = getattr(self, '_strtab', None)
        if t is None:
            t = self._strtab = {}
        return z3.IntVal(-1 - t.setdefault(s, len(t)))

    def equal(self, a, b):
        if isinstance(a, (StrV, StrF)) or isinstance(b, (StrV, StrF)):
            if isinstance(a, StrV) and isinstance(b, StrV):
                return a.e == b.e
            if isinstance(a, StrF) and isinstance(b, StrF) and a.fmt == b.fmt and len(a.args) == len(b.args):
                return T.and_(*[self.equal(x, y) for x, y in zip(a.args, b.args)])
            if isinstance(a, StrV) and isinstance(b, str):
                return a.e == self.str_id(b)
            if isinstance(b, StrV) and isinstance(a, str):
                return b.e == self.str_id(a)
            if (isinstance(a, StrF) and isinstance(b, str)) or (isinstance(b, StrF) and isinstance(a, str)):
                raise Unsupported('formatted string comparison')
            return False
        a, b = self.unw(a), self.unw(b)
        if T.is_scalar(a) and T.is_scalar(b):
            return T.eq(a, b)
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            return type(a) is type(b) and a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return T.and_(*[T.tobool(self.truth_term(self.equal(x, y))) for x, y in zip(a, b)])
        if self.is_list(a) and self.is_list(b):
            la, lb = self.length(a), self.length(b)
            if isinstance(la, int) and isinstance(lb, int):
                if la != lb:
                    return False
                return T.and_(*[T.tobool(self.truth_term(self.equal(self.getitem(a, i), self.getitem(b, i)))) for i in range(la)])
            if lb == 0:
                return T.toz(la) == 0
            if la == 0:
                return T.toz(lb) == 0
        if isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id:
            return True
        if self.is_list(a) != self.is_list(b):
            return False
        raise Unsupported('equality of %r and %r' % (a, b))

    def contains(self, c, x):
        if self.is_dict(c):
            return self.dkey(x) in self.H(c).d
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, (tuple,)) or (isinstance(c, IterV) and isinstance(c.n, int)) or (isinstance(c, Ref) and isinstance(self.length(c), int)):
            items = [c.get(i) for i in range(c.n)] if isinstance(c, IterV) else self.concrete_items(c)
            r = T.or_(*[T.tobool(self.truth_term(self.equal(x, y))) for y in items])
            if z3.is_expr(r):
                r = z3.simplify(r)
                if z3.is_true(r):
                    return True
                if z3.is_false(r):
                    return False
            return r
        if isinstance(c, (StrF, StrV)):
            raise Unsupported('substring of symbolic string')
        raise Unsupported('in')

    # ------------------------------------------------------------ attributes
    def getattr(self, o, a):
        if isinstance(o, ModV):
            full = o.name + '.' + a
            if o.name in self.prog.mods:
                v = self.prog.resolve(o.name, a)
                if v is not UNDEF:
                    if isinstance(v, tuple) and v[0] == 'const':
                        return self.module_const(o.name, a, v[1])
                    return v
                if full in self.prog.mods:
                    return ModV(full)
                raise PyRaise('AttributeError', (a,))
            return self.extattr(full)
        if isinstance(o, ExtV):
            return self.extattr(o.name + '.' + a)
        if isinstance(o, ClassV):
            fv = self.find_method(o, a)
            if fv is not None:
                if fv.kind == 'classmethod':
                    return FuncV(fv.node, fv.mod, fv.cls, fv.name, self_=o, kind=fv.kind)
                return FuncV(fv.node, fv.mod, fv.cls, fv.name, kind=fv.kind)
            if a == '__name__':
                return o.name
            v = self.class_attr(o, a)
            if v is not UNDEF:
                return v
            raise PyRaise('AttributeError', (a,))
        if isinstance(o, Ref):
            c = self.H(o)
            if isinstance(c, ObjC):
                if a in c.attrs:
                    v = c.attrs[a]
                    if isinstance(v, Junk):
                        return v
                    return v
                if isinstance(c.cls, ClassV):
                    fv = self.find_method(c.cls, a)
                    if fv is not None:
                        if fv.kind == 'classmethod':
                            return FuncV(fv.node, fv.mod, fv.cls, fv.name, self_=c.cls, kind=fv.kind)
                        if fv.kind == 'staticmethod':
                            return FuncV(fv.node, fv.mod, fv.cls, fv.name, kind=fv.kind)
                        if fv.kind == 'property':
                            return self.call_func(fv, [o], {})
                        return FuncV(fv.node, fv.mod, fv.cls, fv.name, self_=o, kind='m')
                    v = self.class_attr(c.cls, a)
                    if v is not UNDEF:
                        return v
                if a == '__dict__':
                    return self.mkdict(c.attrs)
                if a == '__class__':
                    return c.cls
                if a in self.prog.stored and a not in self.absent:
                    raise Unsupported('attribute %s: set by earlier calls, outside the contract' % a)
                raise PyRaise('AttributeError', (a,))
            if isinstance(c, ArrC):
                if a == 'shape':
                    if c.masks:
                        return tuple(self.mask_count(c, q) if q in c.masks else d for q, d in enumerate(c.shape))
                    return tuple(c.shape)
                if a == 'size':
                    r = 1
                    for q, d in enumerate(c.shape):
                        r = T.mul(r, self.mask_count(c, q) if q in c.masks else d)
                    return r
                if a == 'ndim':
                    return len(c.shape)
                if a == 'T':
                    return self.transpose(o)
                if a == 'dtype':
                    return OpaqueV('dtype', c.dtype)
            return MethV(o, a)
        if isinstance(o, (str, StrF, StrV, tuple)):
            return MethV(o, a)
        if isinstance(o, OpaqueV):
            return self.opaque_attr(o, a)
        if isinstance(o, Junk):
            raise Unsupported('attribute of a lost value (%s)' % o.why)
        o2 = self.unw(o)
        if T.is_scalar(o2):
            if a in ('size', 'ndim', 'shape') and T.is_sym(o2):
                return {'size': 1, 'ndim': 0, 'shape': ()}[a]
            return MethV(o2, a)
        if isinstance(o, (SoaElem, RangeV, FuncV)):
            return MethV(o, a)
        raise PyRaise('AttributeError', (a,))

    absent = frozenset()

    def class_attr(self, cv, a):
        import ast
        for n in cv.node.body:
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == a for t in n.targets):
                if a in self.prog.stored:
                    raise Unsupported('class-level state %s' % a)
                return self.module_const(cv.mod, a, n.value)
        for b in cv.node.bases:
            if isinstance(b, ast.Name):
                c = self.prog.resolve(cv.mod, b.id)
                if isinstance(c, ClassV):
                    v = self.class_attr(c, a)
                    if v is not UNDEF:
                        return v
        return UNDEF

    def opaque_attr(self, o, a):
        if o.kind == 'cplx' and a in ('real', 'imag'):
            return o.data[a == 'imag']
        return MethV(o, a)

    def setattr(self, o, a, v):
        if self.is_obj(o):
            c = self.H(o)
            at = dict(c.attrs)
            at[a] = v
            self.ctx.heap[o.id] = ObjC(c.cls, at)
            return
        if self.is_arr(o):
            raise PyRaise('AttributeError', (a,))
        raise Unsupported('attribute assignment on %r' % (o,))

    # ------------------------------------------------------------ subscripts
    def norm_index(self, i, n, check=True):
        """python index -> nonnegative term"""
        i = self.unw(i)
        if isinstance(i, Fraction):
            raise PyRaise('IndexError', ('only integers',))
        if isinstance(i, bool):
            i = int(i)
        if isinstance(i, int):
            if isinstance(n, int):
                if not -n <= i < n:
                    raise PyRaise('IndexError', (i,))
                return i if i >= 0 else n + i
            if i >= 0:
                if not self.ctx.quick_valid(T.toz(n) > i):
                    if not self.ctx.branch(T.toz(n) > i):
                        raise PyRaise('IndexError', (i,))
                return i
            if not self.ctx.quick_valid(T.toz(n) >= -i):
                if not self.ctx.branch(T.toz(n) >= -i):
                    raise PyRaise('IndexError', (i,))
            return z3.simplify(T.toz(n) + i)
        if not z3.is_expr(i) or not z3.is_int(i):
            raise Unsupported('index %r' % (i,))
        i = z3.simplify(i)
        if z3.is_int_value(i):
            return self.norm_index(i.as_long(), n)
        nn = T.toz(n)
        inb = z3.And(i >= 0, i < nn)
        if self.ctx.quick_valid(inb):
            return i
        if self.ctx.branch(inb):
            return i
        if self.ctx.branch(z3.And(i < 0, i >= -nn)):
            return i + nn
        raise PyRaise('IndexError', (i,))

    def norm_slice(self, s, n):
        """-> (start, length, step) with step a python int"""
        st = 1 if s.step is None else self.unw(s.step)
        if z3.is_expr(st):
            st = z3.simplify(st)
            if z3.is_int_value(st):
                st = st.as_long()
        if not isinstance(st, int):
            if self.ctx.quick_valid(st > 0):
                lo = 0 if s.start is None else self.clamp(s.start, n)
                hi = n if s.stop is None else self.clamp(s.stop, n)
                d = T.sub(hi, lo)
                ln = z3.If(T.toz(d) > 0, (T.toz(d) + st - 1) / st, z3.IntVal(0))
                return lo, ln, st
            raise Unsupported('symbolic slice step')
        if st == 0:
            raise PyRaise('ValueError')
        if st > 0:
            lo = 0 if s.start is None else self.clamp(s.start, n)
            hi = n if s.stop is None else self.clamp(s.stop, n)
            d = T.sub(hi, lo)
        else:
            nm1 = T.sub(n, 1)
            lo = nm1 if s.start is None else self.clamp(s.start, n, neg=True)
            hi = -1 if s.stop is None else self.clamp(s.stop, n, neg=True)
            d = T.sub(lo, hi)
        if isinstance(d, int):
            ln = max(0, (d + abs(st) - 1) // abs(st))
        else:
            d = z3.simplify(d)
            if z3.is_int_value(d):
                ln = max(0, (d.as_long() + abs(st) - 1) // abs(st))
            else:
                if abs(st) == 1:
                    ln = d if self.ctx.quick_valid(d >= 0) else z3.If(d > 0, d, z3.IntVal(0))
                else:
                    ln = z3.If(d > 0, (d + (abs(st) - 1)) / abs(st), z3.IntVal(0))
        return lo, ln, st

    def clamp(self, x, n, neg=False):
        x = self.unw(x)
        if isinstance(x, Fraction) or T.special(x) or (z3.is_expr(x) and z3.is_real(x)):
            raise PyRaise('TypeError', ('slice indices must be integers',))
        if x is None:
            raise Unsupported('clamp none')
        lo_b = -1 if neg else 0
        hi_b = T.sub(n, 1) if neg else n
        if isinstance(x, int) and isinstance(n, int):
            if x < 0:
                x += n
            return min(max(x, lo_b), hi_b)
        xz, nz = T.toz(x), T.toz(n)
        if isinstance(x, int):
            if x >= 0:
                if self.ctx.quick_valid(xz <= T.toz(hi_b)):
                    return x
                return z3.If(xz <= T.toz(hi_b), xz, T.toz(hi_b))
            y = z3.simplify(nz + x)
            if self.ctx.quick_valid(y >= lo_b):
                return y
            return z3.If(y >= lo_b, y, z3.IntVal(lo_b))
        if self.ctx.quick_valid(xz >= 0):
            if self.ctx.quick_valid(xz <= T.toz(hi_b)):
                return x
            return z3.If(xz <= T.toz(hi_b), xz, T.toz(hi_b))
        y = z3.If(xz < 0, xz + nz, xz)
        return z3.If(y < lo_b, z3.IntVal(lo_b), z3.If(y > T.toz(hi_b), T.toz(hi_b), y))

    def getitem(self, o, ix):
        if isinstance(o, Junk):
            raise Unsupported('subscript of a lost value')
        if isinstance(o, tuple):
            if isinstance(ix, slice):
                f = lambda x: None if x is None else self.conc_int(x)
                return o[slice(f(ix.start), f(ix.stop), f(ix.step))]
            i = self.unw(ix)
            if z3.is_expr(i):
                i = z3.simplify(i)
                if z3.is_int_value(i):
                    i = i.as_long()
                else:
                    raise Unsupported('symbolic tuple index')
            if not -len(o) <= i < len(o):
                raise PyRaise('IndexError')
            return o[i]
        if isinstance(o, str):
            if isinstance(ix, slice):
                f = lambda x: None if x is None else self.conc_int(x)
                return o[slice(f(ix.start), f(ix.stop), f(ix.step))]
            return o[ix]
        if isinstance(o, SoaElem):
            soa = self.H(o.lst).soa
            k = self.dkey(ix)
            if k not in soa:
                raise PyRaise('KeyError', (k,))
            return soa[k](o.idx)
        if isinstance(o, RangeV):
            n = self.length(o)
            i = self.norm_index(ix, n)
            return T.add(o.lo, T.mul(i, o.step))
        if isinstance(o, Ref):
            c = self.H(o)
            if isinstance(c, DictC):
                k = self.dkey(ix)
                if k not in c.d:
                    raise PyRaise('KeyError', (k,))
                return c.d[k]
            if isinstance(c, ListC):
                return self.list_get(o, ix)
            if isinstance(c, ArrC):
                return self.arr_get(o, ix)
        if isinstance(o, OpaqueV):
            return OpaqueV('item', (o, ix))
        if T.is_scalar(self.unw(o)):
            o = self.unw(o)
            if isinstance(ix, tuple) and all(x is None or x is Ellipsis or isinstance(x, slice) for x in ix):
                return o
            raise PyRaise('TypeError', ('not subscriptable',))
        if o is None:
            raise PyRaise('TypeError', ('None not subscriptable',))
        raise Unsupported('getitem on %r' % (o,))

    def conc_int(self, x):
        x = self.unw(x)
        if isinstance(x, int):
            return x
        x = z3.simplify(T.toz(x))
        if z3.is_int_value(x):
            return x.as_long()
        raise Unsupported('symbolic integer where concrete needed')

    def list_elem(self, c, i):
        """element of list content at normalised index (no fork; ite-free)"""
        n = c.n
        if isinstance(n, int) and n == 0:
            if isinstance(i, int):
                return c.tail[i]
        if isinstance(i, int) and isinstance(n, int):
            return c.fn(i) if i < n else c.tail[i - n]
        d = z3.simplify(T.toz(i) - T.toz(n))
        if z3.is_int_value(d) and d.as_long() >= 0:
            return c.tail[d.as_long()]
        if not c.tail or self.ctx.quick_valid(d < 0):
            return c.fn(i)
        for q in range(len(c.tail)):
            if self.ctx.quick_valid(d == q):
                return c.tail[q]
        # fork on the position
        if not (isinstance(n, int) and n == 0):
            if self.ctx.branch(d < 0):
                return c.fn(i)
        for q in range(len(c.tail) - 1):
            if self.ctx.branch(d == q):
                return c.tail[q]
        self.ctx.assume(d == len(c.tail) - 1)
        return c.tail[-1]

    def list_get(self, o, ix):
        c = self.H(o)
        n = self.length(o)
        if isinstance(ix, slice):
            lo, ln, st = self.norm_slice(ix, n)
            if isinstance(ln, int) and isinstance(lo, int) and isinstance(n, int):
                return self.mklist([self.list_elem(c, lo + q * st) for q in range(ln)])
            if c.soa:
                raise Unsupported('slice of record list')
            return self.alloc(ListC(ln, lambda i: self.list_elem(c, T.add(lo, T.mul(i, st)))))
        i = self.norm_index(ix, n)
        if c.soa is not None:
            return SoaElem(o, i)
        return self.list_elem(c, i)

    # arrays: split an index into per-axis items
    def arr_index(self, o, ix):
        c = self.H(o)
        items = list(ix) if isinstance(ix, tuple) else [ix]
        nd = len(c.shape)
        nel = sum(1 for x in items if x is not None and x is not Ellipsis)
        out = []
        for x in items:
            if x is Ellipsis:
                out += [slice(None, None, None)] * (nd - nel)
            elif isinstance(x, IxV):
                out.append(x)
            else:
                out.append(x)
        n_axes = sum(1 for x in out if x is not None)
        if any(isinstance(x, IxV) for x in out):
            return out
        if any(self.is_arr(x) and len(self.H(x).shape) == 2 and self.H(x).dtype == 'b' for x in out):
            return out
        if n_axes > nd:
            raise PyRaise('IndexError', ('too many indices',))
        out += [slice(None, None, None)] * (nd - n_axes)
        return out

    def arr_get(self, o, ix):
        if isinstance(ix, (str,)):
            raise PyRaise('IndexError')
        c = self.H(o)
        items = self.arr_index(o, ix)
        if c.masks:
            if all(isinstance(x, slice) and x == slice(None) for x in items):
                return o
            raise Unsupported('index into masked selection')
        if len(items) == 1 and isinstance(items[0], IxV):
            return self.arr_ix(o, items[0])
        adv = [q for q, x in enumerate(items) if self.is_fancy(x)]
        if not adv:
            return self.basic_view(o, items)
        return self.fancy_get(o, items, adv)

    def is_fancy(self, x):
        return self.is_list(x) or isinstance(x, (RangeV,)) or (self.is_arr(x) and len(self.H(x).shape) > 0) or isinstance(x, tuple)

    def scalar_of(self, x):
        """index item -> scalar if it is a 0-d array"""
        if self.is_arr(x) and not self.H(x).shape:
            return self.elem(x)()
        return x

    def basic_view(self, o, items):
        c = self.H(o)
        spec = []      # per base axis: ('i', idx) | ('s', lo, step)
        shape = []
        ax = 0
        newaxes = []
        for x in items:
            if x is None:
                newaxes.append(len(shape))
                shape.append(1)
                spec.append(('n',))
                continue
            n = c.shape[ax]
            if isinstance(x, slice):
                lo, ln, st = self.norm_slice(x, n)
                spec.append(('s', lo, st))
                shape.append(ln)
            else:
                spec.append(('i', self.norm_index(self.scalar_of(x), n)))
            ax += 1
        if not shape:
            e = self.elem(o)
            return e(*[s[1] for s in spec])

        def fwd(ix):
            ix = list(ix)
            out = []
            p = 0
            for s in spec:
                if s[0] == 'n':
                    p += 1
                elif s[0] == 'i':
                    out.append(s[1])
                else:
                    out.append(ix[p] if (isinstance(s[1], int) and s[1] == 0 and s[2] == 1) else T.add(s[1], T.mul(ix[p], s[2])))
                    p += 1
            return tuple(out)

        def inv(bix):
            cond, vix = [], []
            b = list(bix)
            q = 0
            for s in spec:
                if s[0] == 'n':
                    vix.append(0)
                    continue
                x = b[q]
                q += 1
                if s[0] == 'i':
                    cond.append(T.eq(x, s[1]))
                else:
                    d = T.sub(x, s[1])
                    if not isinstance(s[2], int):
                        st = s[2]
                        cond.append(T.eq(self.mod(d, st), 0))
                        d = self.floordiv(d, st)
                    elif s[2] == -1:
                        d = T.neg(d)
                    elif s[2] != 1:
                        st = s[2]
                        if st < 0:
                            raise Unsupported('negative step write')
                        cond.append(T.eq(self.mod(d, st), 0))
                        d = self.floordiv(d, st)
                    vix.append(d)
                    m = shape[len(vix) - 1]
                    full = isinstance(s[1], int) and s[1] == 0 and s[2] == 1 and (m is c.shape[q - 1] or (not isinstance(m, int) and not isinstance(c.shape[q - 1], int) and m.eq(c.shape[q - 1])) or (isinstance(m, int) and m == c.shape[q - 1]))
                    if not full:
                        cond += [T.ge(d, 0), T.lt(d, m)]
            return T.and_(*cond), tuple(vix)
        if c.view is not None:
            b0, f0, i0 = c.view

            def inv2(bix):
                c0, v0 = i0(bix)
                c1, v1 = inv(v0)
                return T.and_(c0, c1), v1
            view = (b0, lambda ix: f0(fwd(ix)), inv2)
        else:
            view = (o.id, fwd, inv)
        inj = None
        if c.inj is not None and len(spec) == 1 and spec[0] == ('s', 0, 1) and shape[0] is c.shape[0]:
            inj = c.inj
        return self.alloc(ArrC(shape, None, c.dtype, view=view, inj=inj))

    def idx_array(self, x):
        """fancy index item -> ('m', maskfn, n) | ('a', shape, elemfn, ref)"""
        if self.is_list(x) or isinstance(x, (RangeV, tuple)):
            x = self.to_array(x)
        c = self.H(x)
        if c.dtype == 'b':
            e = self.elem(x)
            return ('m', c.shape, e, x)
        return ('a', c.shape, self.elem(x), x)

    def fancy_get(self, o, items, adv):
        c = self.H(o)
        e = self.elem(o)
        if len(adv) == 1:
            q = adv[0]
            kind, sh, f, ref = self.idx_array(items[q])
            # handle the other axes by a basic view first
            others = [slice(None) if self.is_fancy(x) else x for x in items]
            if not all(isinstance(x, slice) and x == slice(None, None, None) for x in others):
                v = self.basic_view(o, others)
                # position of axis q in the view
                qq = sum(1 for x in items[:q] if isinstance(x, slice) or x is None)
                return self.fancy_get(v, [slice(None)] * qq + [items[q]] + [slice(None)] * (len(self.H(v).shape) - qq - 1), [qq])
            if kind == 'm':
                if len(sh) == 2 and len(c.shape) == 2:
                    return self.mkarr(c.shape, e, c.dtype, masks={'all': f})
                if not self.deq(sh[0], c.shape[q]):
                    raise PyRaise('IndexError', ('boolean index did not match',))
                return self.mkarr(c.shape, e, c.dtype, masks={q: self.mask_fn(ref, f)})
            nd = len(sh)

            def el(*ix):
                j = f(*ix[q:q + nd])
                return e(*(ix[:q] + (self.wrapneg(j, c.shape[q]),) + ix[q + nd:]))
            self.check_fancy_bounds(f, sh, c.shape[q])
            inj = None
            return self.mkarr(c.shape[:q] + tuple(sh) + c.shape[q + 1:], el, c.dtype)
        # several advanced indices: broadcast together (only all-int-vector case)
        parts = [self.idx_array(items[q]) for q in adv]
        if any(p[0] == 'm' for p in parts) or adv != list(range(adv[0], adv[0] + len(adv))):
            raise Unsupported('mixed advanced indexing')
        sh = parts[0][1]
        for p in parts[1:]:
            sh, _, _ = self.bcast(sh, p[1])
        maps = []
        for p in parts:
            _, _, m2 = self.bcast(sh, p[1])
            maps.append(m2)
        rest = [x for x in items if not self.is_fancy(x)]
        if not all(isinstance(x, slice) and x == slice(None, None, None) for x in rest):
            raise Unsupported('mixed advanced indexing with slices')
        q, nd = adv[0], len(sh)

        def el(*ix):
            a = ix[q:q + nd]
            js = tuple(p[2](*m(a)) for p, m in zip(parts, maps))
            return e(*(ix[:q] + js + ix[q + nd:]))
        return self.mkarr(c.shape[:q] + tuple(sh) + c.shape[q + len(adv):], el, c.dtype)

    def mask_fn(self, ref, f):
        """stable mask closure per array content (so equal masks are recognised)"""
        tab = getattr(self, '_masktab', None)
        if tab is None:
            tab = self._masktab = {}
        key = (ref.id, id(self.H(ref)))
        if key not in tab:
            tab[key] = (lambda k: self.asbool(f(k)), self.H(ref))
        return tab[key][0]

    def mask_count(self, c, q):
        m = c.masks[q]
        k = z3.Int('mc!')
        cond = m(k)
        return self.count_true(c.shape[q], m)

    def count_true(self, n, m):
        if isinstance(n, int) and n <= 8:
            r = 0
            for k in range(n):
                r = T.add(r, T.ite(m(k), 1, 0))
            return r
        s = self.ctx.mk_sum(n, lambda k: z3.If(T.tobool(m(k)), z3.RealVal(1), z3.RealVal(0)))
        v = self.ctx.fresh('count', I)
        self.ctx.assume(z3.ToReal(v) == T.toz(s, True))
        self.ctx.assume(z3.And(v >= 0, v <= T.toz(n)))
        return v

    def check_fancy_bounds(self, f, sh, n):
        """fancy indices must be in range, otherwise IndexError"""
        ks = [self.ctx.var('fi') for _ in sh]
        g = []
        for k, d in zip(ks, sh):
            g += [k >= 0, k < T.toz(d)]
        with self.ctx.binding(ks, *g):
            j = T.toz(f(*ks))
            ok = z3.And(j >= -T.toz(n), j < T.toz(n))
            valid = self.ctx.quick_valid(ok)
        if valid:
            return
        if isinstance(n, int) and all(isinstance(d, int) for d in sh):
            for ix in itertools.product(*[range(d) for d in sh]):
                j = f(*ix)
                if isinstance(j, int) and -n <= j < n:
                    continue
                if not self.ctx.branch(T.and_(T.ge(j, -n), T.lt(j, n))):
                    raise PyRaise('IndexError', ('index out of bounds',))
            return
        bad = self.ctx.mk_any(sh, lambda *ix: z3.Not(z3.And(T.toz(f(*ix)) >= -T.toz(n), T.toz(f(*ix)) < T.toz(n))))
        if self.ctx.branch(T.tobool(bad)):
            raise PyRaise('IndexError', ('index out of bounds',))

    def wrapneg(self, j, n):
        if isinstance(j, int):
            return j if j >= 0 else T.add(n, j)
        if self.ctx.quick_valid(j >= 0):
            return j
        return z3.If(j >= 0, j, j + T.toz(n))

    def arr_ix(self, o, ixv):
        c = self.H(o)
        e = self.elem(o)
        parts = [self.idx_array(p) for p in ixv.parts]
        conv = []
        for q, p in enumerate(parts):
            if p[0] == 'm':
                nz = self.flatnonzero(p[3])
                p = ('a', self.H(nz).shape, self.elem(nz), nz)
            conv.append(p)
            self.check_fancy_bounds(p[2], p[1], c.shape[q])
        parts = conv
        k = len(parts)

        def el(*ix):
            js = tuple(self.wrapneg(p[2](i), c.shape[q]) for q, (p, i) in enumerate(zip(parts, ix[:k])))
            return e(*(js + tuple(ix[k:])))
        return self.mkarr(tuple(p[1][0] for p in parts) + c.shape[k:], el, c.dtype)

    def flatnonzero(self, a):
        c = self.H(a)
        if len(c.shape) != 1:
            raise Unsupported('flatnonzero of matrix')
        n = c.shape[0]
        e = self.elem(a)
        m = lambda k: self.asbool(e(k))
        if isinstance(n, int):
            vals = [m(k) for k in range(n)]
            if all(isinstance(v, bool) for v in vals):
                idx = [k for k in range(n) if vals[k]]
                rank = {j: r for r, j in enumerate(idx)}
                return self.mkarr((len(idx),), lambda k: self.pick(idx, k) if idx else 0, 'i')
        cnt = self.ctx.fresh('nnz', I)
        nz = self.ctx.fresh_fun('nz', 1, I)
        rk = self.ctx.fresh_fun('rank', 1, I)
        nn = T.toz(n)
        ctx = self.ctx
        ctx.assume(z3.And(cnt >= 0, cnt <= nn))
        k = ctx.var('z')
        ctx.add_rule([k], z3.Implies(z3.And(k >= 0, k < cnt), z3.And(nz(k) >= k, nz(k) < nn, T.tobool(m(nz(k))), rk(nz(k)) == k)), label='nz')
        r = ctx.rules[-1]
        r.trigs = [[(nz.decl.name(), nz.decl.arity(), tuple(r.pat(nz(k))))]]
        j = ctx.var('z')
        with ctx.binding([j]):
            mj = T.tobool(m(j))
        ctx.add_rule([j], z3.Implies(z3.And(j >= 0, j < nn, mj), z3.And(rk(j) >= 0, rk(j) < cnt, rk(j) <= j, nz(rk(j)) == j)), label='rank')
        k2 = ctx.var('z')
        ctx.add_rule([k, k2], z3.Implies(z3.And(k >= 0, k < k2, k2 < cnt), nz(k) < nz(k2)), label='mono')
        member = lambda jj: T.and_(m(jj), T.ge(jj, 0), T.lt(jj, n))
        return self.mkarr((cnt,), lambda kk: nz(kk), 'i', inj=(member, lambda jj: rk(jj)))

    def member_rank(self, ref):
        """(member(j), rank(j)) for an index vector; last occurrence wins"""
        c = self.H(ref)
        if c.inj is not None:
            return c.inj
        n = c.shape[0]
        f = self.elem(ref)
        if isinstance(n, int) and n <= 12:
            def member(j):
                return T.or_(*[T.eq(f(i), j) for i in range(n)])

            def rank(j):
                r = 0
                for i in range(n):
                    r = T.ite(T.eq(f(i), j), i, r)
                return r
            return member, rank
        ctx = self.ctx
        mb = ctx.fresh_fun('mem', 1, BL)
        rk = ctx.fresh_fun('rnk', 1, I)
        k = ctx.var('z')
        nn = T.toz(n)
        with ctx.binding([k], k >= 0, k < nn):
            fk = T.toz(f(k))
        ctx.add_rule([k], z3.Implies(z3.And(k >= 0, k < nn), z3.And(mb(fk), rk(fk) >= k)))
        j = ctx.var('z')
        with ctx.binding([j]):
            fr = T.toz(f(rk(j)))
        ctx.add_rule([j], z3.Implies(mb(j), z3.And(rk(j) >= 0, rk(j) < nn, fr == j)))
        return (lambda j: mb(j)), (lambda j: rk(j))

    def setitem(self, o, ix, v):
        if isinstance(o, SoaElem):
            c = self.H(o.lst)
            k = self.dkey(ix)
            soa = dict(c.soa)
            old = soa.get(k)
            if getattr(old, 'ref', None) is not None:
                return self.setitem(old.ref, o.idx, v)
            i0 = o.idx
            vv = v

            def fn(i, old=old, i0=i0, vv=vv):
                a = self.unw(vv)
                b = self.unw(old(i))
                return self.merge(T.eq(i, i0), a, b)
            soa[k] = fn
            self.ctx.heap[o.lst.id] = ListC(c.n, c.fn, c.tail, soa)
            return
        if not isinstance(o, Ref):
            if o is None or isinstance(o, tuple):
                raise PyRaise('TypeError', ('item assignment',))
            raise Unsupported('item assignment on %r' % (o,))
        c = self.H(o)
        if isinstance(c, DictC):
            d = dict(c.d)
            d[self.dkey(ix)] = v
            self.ctx.heap[o.id] = DictC(d)
            return
        if isinstance(c, ListC):
            n = self.length(o)
            if isinstance(ix, slice):
                raise Unsupported('list slice assignment')
            i = self.norm_index(ix, n)
            if isinstance(c.n, int) and c.n == 0 and isinstance(i, int):
                t = list(c.tail)
                t[i] = v
                self.ctx.heap[o.id] = ListC(0, None, t)
                return
            if c.soa is not None:
                raise Unsupported('record list item replacement')
            d = z3.simplify(T.toz(i) - T.toz(c.n))
            if z3.is_int_value(d) and d.as_long() >= 0:
                t = list(c.tail)
                t[d.as_long()] = v
                self.ctx.heap[o.id] = ListC(c.n, c.fn, t)
                return
            if not c.tail:
                old = c.fn
                self.ctx.heap[o.id] = ListC(c.n, lambda k: self.merge(T.eq(k, i), v, old(k)))
                return
            raise Unsupported('symbolic list item assignment')
        if isinstance(c, ArrC):
            return self.arr_set(o, ix, v)
        raise Unsupported('item assignment')

    def merge(self, cond, a, b):
        """value-level if-then-else"""
        if isinstance(cond, bool):
            return a if cond else b
        a, b = self.unw(a), self.unw(b)
        if a is b:
            return a
        if T.is_scalar(a) and T.is_scalar(b):
            return T.ite(cond, a, b)
        if isinstance(a, StrV) and isinstance(b, StrV):
            return StrV(z3.If(cond, a.e, b.e))
        if isinstance(a, (StrV, StrF)) and isinstance(b, (StrV, StrF)):
            return StrV(z3.If(cond, self.strid(a).e, self.strid(b).e))
        if self.is_arr(a) and self.is_arr(b):
            ca, cb = self.H(a), self.H(b)
            if len(ca.shape) == len(cb.shape) and all(self.deq(x, y) for x, y in zip(ca.shape, cb.shape)):
                ea, eb = self.elem(a), self.elem(b)
                return self.mkarr(ca.shape, lambda *ix: T.ite(cond, ea(*ix), eb(*ix)), ca.dtype)
        if isinstance(a, (str, type(None))) and isinstance(b, (str, type(None))) and a == b:
            return a
        return a if self.ctx.branch(cond) else b

    def arr_write(self, o, condval):
        """update: condval(*ix) -> (cond, value) on the index space of o (following views)"""
        c = self.H(o)
        dt = c.dtype
        if c.view is None:
            old = c.elem

            def new(*ix):
                cd, val = condval(*ix)
                if isinstance(cd, bool):
                    return self.cast(val(), dt) if cd else old(*ix)
                return T.ite(cd, self.cast(val(), dt), old(*ix))
            self.ctx.heap[o.id] = ArrC(c.shape, new, dt)
        else:
            base, fwd, inv = c.view
            bc = self.H(Ref(base))
            old = bc.elem
            if bc.view is not None:
                raise Unsupported('nested view')

            def newb(*bix):
                c0, vix = inv(bix)
                if isinstance(c0, bool) and not c0:
                    return old(*bix)
                cd, val = condval(*vix)
                cc = T.and_(c0, cd)
                if isinstance(cc, bool):
                    return self.cast(val(), dt) if cc else old(*bix)
                return T.ite(cc, self.cast(val(), dt), old(*bix))
            self.ctx.heap[base] = ArrC(bc.shape, newb, dt)

    def cast(self, v, dt):
        v = self.unw(v)
        if dt == 'i' and not T.is_intlike(v):
            return trunc_int(v)
        if dt == 'b' and not T.is_boollike(v):
            return self.asbool(v)
        if dt == 'i' and T.is_boollike(v):
            return T.toz(v) if not isinstance(v, bool) else int(v)
        if dt == 'f' and T.is_intlike(v):
            return Fraction(int(v)) if isinstance(v, int) else T.toz(v, True)
        return v

    def arr_set(self, o, ix, v):
        c = self.H(o)
        if c.masks:
            raise Unsupported('write into masked selection')
        items = self.arr_index(o, ix)
        if len(items) == 1 and isinstance(items[0], IxV):
            parts = items[0].parts
            refs = []
            for p in parts:
                if not self.is_arr(p):
                    p = self.to_array(p)
                if self.H(p).dtype == 'b':
                    p = self.flatnonzero(p)
                refs.append(p)
                self.check_fancy_bounds(self.elem(p), self.H(p).shape, c.shape[len(refs) - 1])
            mr = [self.member_rank(p) for p in refs]
            sh = tuple(self.H(p).shape[0] for p in refs) + c.shape[len(refs):]
            vs, ve, _, _ = self.lift(v)
            _, _, mv = self.bcast_to(vs, sh)
            k = len(refs)

            def cv(*ix2):
                cond = T.and_(*[m[0](i) for m, i in zip(mr, ix2[:k])])
                return cond, lambda: ve(*mv(tuple(m[1](i) for m, i in zip(mr, ix2[:k])) + tuple(ix2[k:])))
            return self.arr_write(o, cv)
        adv = [q for q, x in enumerate(items) if self.is_fancy(x)]
        if not adv:
            r = self.basic_view(o, items) if any(isinstance(x, slice) or x is None for x in items) else None
            if r is None:
                idx = [self.norm_index(self.scalar_of(x), n) for x, n in zip(items, c.shape)]
                vs, ve, _, _ = self.lift(v)
                for d in vs:
                    if not self.is_one(d):
                        raise PyRaise('ValueError', ('setting an array element with a sequence',))
                val = ve(*[0] * len(vs))
                return self.arr_write(o, lambda *ix2: (T.and_(*[T.eq(a, b) for a, b in zip(ix2, idx)]), lambda: val))
            rc = self.H(r)
            vs, ve, _, _ = self.lift(v)
            if self.is_arr(v) and self.H(v).masks:
                raise Unsupported('masked value into slice')
            _, _, mv = self.bcast_to(vs, rc.shape)
            return self.arr_write(r, lambda *ix2: (True, lambda: ve(*mv(ix2))))
        if len(adv) != 1:
            raise Unsupported('assignment with several advanced indices')
        q = adv[0]
        kind, sh, f, ref = self.idx_array(items[q])
        others = [slice(None) if self.is_fancy(x) else x for x in items]
        tgt = o
        qq = q
        if not all(isinstance(x, slice) and x == slice(None, None, None) for x in others):
            tgt = self.basic_view(o, others)
            qq = sum(1 for x in items[:q] if isinstance(x, slice) or x is None)
        tc = self.H(tgt)
        if kind == 'm':
            if len(sh) > 1:
                vs, ve, _, vm = self.lift(v)
                if vs and not vm:
                    raise Unsupported('2-d mask assignment of array')
                return self.arr_write(tgt, lambda *ix2: (self.asbool(f(*ix2)), lambda: ve(*ix2) if vs else ve()))
            mf = self.mask_fn(ref, f)
            vs, ve, _, vm = self.lift(v)
            if vm:
                if set(vm) != {qq} or not self.same_mask(vm[qq], mf):
                    raise Unsupported('mask mismatch')
                return self.arr_write(tgt, lambda *ix2: (mf(ix2[qq]), lambda: ve(*ix2)))
            if vs and not all(self.is_one(d) for d in vs):
                raise Unsupported('compressed assignment')
            return self.arr_write(tgt, lambda *ix2: (mf(ix2[qq]), lambda: ve(*[0] * len(vs))))
        if len(sh) != 1:
            raise Unsupported('matrix fancy assignment')
        if not self.is_arr(ref):
            raise Unsupported('fancy')
        self.check_fancy_bounds(f, sh, tc.shape[qq])
        mem, rank = self.member_rank(ref)
        full = tc.shape[:qq] + (sh[0],) + tc.shape[qq + 1:]
        vs, ve, _, vm = self.lift(v)
        if vm:
            raise Unsupported('masked value')
        _, _, mv = self.bcast_to(vs, full)
        return self.arr_write(tgt, lambda *ix2: (mem(ix2[qq]), lambda: ve(*mv(tuple(ix2[:qq]) + (rank(ix2[qq]),) + tuple(ix2[qq + 1:])))))

    def bcast_to(self, vs, sh):
        """value shape broadcast into target shape (ValueError if impossible)"""
        vs2 = list(vs)
        drop = 0
        while len(vs2) > len(sh):
            if not self.is_one(vs2[0]):
                raise PyRaise('ValueError', ('could not broadcast',))
            vs2 = vs2[1:]
            drop += 1
        mp = []
        for q in range(len(vs2)):
            t = sh[len(sh) - len(vs2) + q]
            d = vs2[q]
            if isinstance(d, int) and d == 1 and not (isinstance(t, int) and t == 1):
                mp.append('0')
            elif self.deq(d, t):
                mp.append('k')
            elif self.is_one(d):
                mp.append('0')
            else:
                raise PyRaise('ValueError', ('could not broadcast input array',))

        def mv(ix):
            ix = ix[len(ix) - len(mp):] if mp else ()
            return (0,) * drop + tuple(0 if m == '0' else i for m, i in zip(mp, ix))
        return None, None, mv

    # ------------------------------------------------------------ linear algebra
    def transpose(self, o):
        c = self.H(o)
        if len(c.shape) < 2:
            return o if c.view is None else self.alloc(ArrC(c.shape, None, c.dtype, view=c.view))
        nd = len(c.shape)
        fwd = lambda ix: tuple(reversed(ix))
        inv = lambda b: (True, tuple(reversed(b)))
        if c.view is not None:
            b0, f0, i0 = c.view

            def inv2(bix):
                c0, v0 = i0(bix)
                return c0, tuple(reversed(v0))
            view = (b0, lambda ix: f0(tuple(reversed(ix))), inv2)
        else:
            view = (o.id, fwd, inv)
        return self.alloc(ArrC(tuple(reversed(c.shape)), None, c.dtype, view=view))

    def dot(self, a, b):
        sa, ea, da, ma = self.lift(a)
        sb, eb, db, mb = self.lift(b)
        if ma or mb:
            raise Unsupported('dot with masked')
        if not sa or not sb:
            return self.map2(a, b, T.mul) if (self.is_arr(a) or self.is_arr(b)) else T.mul(self.unw(a), self.unw(b))
        ctx = self.ctx
        n = sa[-1]
        m = sb[-2] if len(sb) >= 2 else sb[0]
        if not self.deq(n, m):
            raise PyRaise('ValueError', ('shapes not aligned',))
        if isinstance(m, int):
            n = m
        if len(sa) == 1 and len(sb) == 1:
            return ctx.mk_sum(n, lambda k: T.mul(ea(k), eb(k)))
        if len(sa) == 2 and len(sb) == 2:
            return self.mkarr((sa[0], sb[1]), lambda i, j: ctx.mk_sum(n, lambda k: T.mul(ea(i, k), eb(k, j))))
        if len(sa) == 1 and len(sb) == 2:
            return self.mkarr((sb[1],), lambda j: ctx.mk_sum(n, lambda k: T.mul(ea(k), eb(k, j))))
        if len(sa) == 2 and len(sb) == 1:
            return self.mkarr((sa[0],), lambda i: ctx.mk_sum(n, lambda k: T.mul(ea(i, k), eb(k))))
        raise Unsupported('dot of higher rank')

    def reduce_sum(self, a, axis=None):
        sh, e, dt, masks = self.lift(a)
        if masks:
            raise Unsupported('sum of masked')
        ctx = self.ctx
        if dt == 'b':
            e0 = e
            e = lambda *ix: self.boolint(e0(*ix))
        if not sh:
            return e()
        if axis is None:
            def rec(pre, rest):
                if not rest:
                    return e(*pre)
                return ctx.mk_sum(rest[0], lambda k: rec(pre + (k,), rest[1:]))
            return rec((), sh)
        axis = self.conc_int(axis)
        if axis < 0:
            axis += len(sh)
        osh = sh[:axis] + sh[axis + 1:]
        f = lambda *ix: ctx.mk_sum(sh[axis], lambda k: e(*(ix[:axis] + (k,) + ix[axis:])))
        if not osh:
            return f()
        return self.mkarr(osh, f, 'f')

    def boolint(self, x):
        x = self.unw(x)
        if isinstance(x, bool):
            return int(x)
        if z3.is_expr(x) and z3.is_bool(x):
            return z3.If(x, z3.RealVal(1), z3.RealVal(0))
        return x

    def reduce_any(self, a, neg=False):
        """any (or all with neg) over all axes"""
        sh, e, dt, masks = self.lift(a)
        if masks:
            raise Unsupported('any of masked')
        if not sh:
            return NPB(self.asbool(e()))
        if neg:
            r = self.ctx.mk_any(sh, lambda *ix: T.not_(self.asbool(e(*ix))))
            return NPB(T.not_(r))
        return NPB(self.ctx.mk_any(sh, lambda *ix: self.asbool(e(*ix))))

    def reshape(self, a, shape):
        sh, e, dt, masks = self.lift(a)
        if masks:
            raise Unsupported('reshape of masked')
        shape = [self.dim(d) for d in shape]
        size = 1
        for d in sh:
            size = T.mul(size, d)
        if any(isinstance(d, int) and d == -1 for d in shape):
            q = [i for i, d in enumerate(shape) if isinstance(d, int) and d == -1][0]
            rest = 1
            for i, d in enumerate(shape):
                if i != q:
                    rest = T.mul(rest, d)
            if isinstance(rest, int) and rest == 1:
                shape[q] = self.dim(size)
            elif isinstance(rest, int) and isinstance(size, int):
                shape[q] = size // rest
            else:
                raise Unsupported('reshape -1')
        tot = 1
        for d in shape:
            tot = T.mul(tot, d)
        if not self.deq(tot, size):
            raise PyRaise('ValueError', ('cannot reshape',))
        one = lambda d: self.is_one(d)
        src = [q for q, d in enumerate(sh) if not one(d)]
        dst = [q for q, d in enumerate(shape) if not one(d)]
        if len(src) == len(dst) and all(self.deq(sh[a_], shape[b_]) for a_, b_ in zip(src, dst)):
            def el(*ix):
                b = [0] * len(sh)
                for s_, d_ in zip(src, dst):
                    b[s_] = ix[d_]
                return e(*b)
            if self.is_arr(a):
                # numpy returns a view; keep it writable through to the base
                c = self.H(a)
                f1 = lambda ix: tuple(ix[dst[src.index(q)]] if q in src else 0 for q in range(len(sh)))
                i1 = lambda b: (True, tuple(b[src[dst.index(q)]] if q in dst else 0 for q in range(len(shape))))
                if c.view is not None:
                    b0, f0, i0 = c.view

                    def inv2(bix):
                        c0, v0 = i0(bix)
                        return c0, i1(v0)[1]
                    return self.alloc(ArrC(shape, None, dt, view=(b0, lambda ix: f0(f1(ix)), inv2)))
                return self.alloc(ArrC(shape, None, dt, view=(a.id, f1, i1)))
            return self.mkarr(shape, el, dt)
        if all(isinstance(d, int) for d in sh) and all(isinstance(d, int) for d in shape):
            def el(*ix):
                lin = 0
                for i, d in zip(ix, shape):
                    lin = T.add(T.mul(lin, d), i)
                b = []
                for d in reversed(sh):
                    b.append(self.mod(lin, d))
                    lin = self.floordiv(lin, d)
                return e(*reversed(b))
            return self.mkarr(shape, el, dt)
        # row-major flattening of a symbolic matrix
        if len(src) == 2 and len(dst) == 1:
            m = sh[src[1]]

            def el(*ix):
                t = T.toz(ix[dst[0]])
                b = [0] * len(sh)
                b[src[0]], b[src[1]] = t / T.toz(m), t % T.toz(m)
                return e(*b)
            return self.mkarr(shape, el, dt)
        raise Unsupported('reshape of symbolic shape')

    # ------------------------------------------------------------ random draws
    def draw(self, kind, shape):
        ctx = self.ctx
        shape = tuple(self.dim(d) for d in shape)
        f = ctx.fresh_fun('rng_' + kind, len(shape), RL)
        ks = [ctx.var('q') for _ in shape]
        if kind == 'u':
            body = z3.And(f(*ks) >= 0, f(*ks) < 1)
            if not ks:
                ctx.assume(body)
            elif all(isinstance(d, int) and d == 1 for d in shape):
                z = [0] * len(shape)
                ctx.assume(z3.And(f(*z) >= 0, f(*z) < 1))
            else:
                ctx.add_rule(ks, body, label='u01')
        ctx.rng.append((kind, shape, f))
        if not shape:
            return f()
        return self.mkarr(shape, lambda *ix: f(*ix), 'f')

    # ------------------------------------------------------------ library dispatch
    def extattr(self, full):
        if full.startswith('numpy.'):
            a = full[6:]
            if a == 'inf' or a == 'Inf' or a == 'infty':
                return float('inf')
            if a in ('nan', 'NaN'):
                return float('nan')
            if a == 'pi':
                return PI
            if a == 'newaxis':
                return None
        if full == 'math.pi' or full == 'scipy.pi':
            return PI
        if full == 'math.nan':
            return float('nan')
        if full == 'math.inf':
            return float('inf')
        if full == 'os.sep':
            return '/'
        if full == 'numpy.int':
            raise PyRaise('AttributeError', ('np.int',))
        return ExtV(full)

    def ext(self, name, args, kw):
        key = name.replace('.', '_')
        if name.startswith('numpy.linalg.linalg.'):
            name = 'numpy.linalg.' + name.split('.')[-1]
        h = EXT.get(name)
        if h is None and name.startswith('exc.'):
            return OpaqueV('exc', (name[4:], tuple(args)))
        if h is None and name.startswith('scipy.') and name.split('.')[-1] in ('sin', 'cos'):
            h = EXT['numpy.' + name.split('.')[-1]]
        m = self.ext_hooks.get(name) if hasattr(self, 'ext_hooks') else None
        if m is not None:
            return m(self, args, kw)
        if h is None:
            raise Unsupported('external function %s' % name)
        if kw:
            check_kw(name, kw)
        self.trusted.add(name)
        return h(self, args, kw)

    def method(self, o, name, args, kw):
        if isinstance(o, Ref):
            c = self.H(o)
            if isinstance(c, ArrC):
                f = ARRM.get(name)
                if f is None:
                    raise Unsupported('ndarray.%s' % name)
                return f(self, o, args, kw)
            if isinstance(c, ListC):
                return self.list_method(o, name, args, kw)
            if isinstance(c, DictC):
                return self.dict_method(o, name, args, kw)
        if isinstance(o, (str, StrF, StrV)):
            return self.str_method(o, name, args, kw)
        if isinstance(o, SoaElem):
            soa = self.H(o.lst).soa
            if name == 'get':
                k = self.dkey(args[0])
                return soa[k](o.idx) if k in soa else (args[1] if len(args) > 1 else None)
            raise Unsupported('record method ' + name)
        if isinstance(o, OpaqueV):
            h = self.opaque_hooks.get((o.kind, name)) if hasattr(self, 'opaque_hooks') else None
            if h:
                return h(self, o, args, kw)
            return OpaqueV('call', (o, name, tuple(args)))
        o = self.unw(o)
        if T.is_scalar(o):
            if name in ('sum', 'copy', 'item', 'max', 'min', 'mean', 'transpose'):
                return o
            if name in ('any', 'all'):
                return NPB(self.asbool(o))
            if name == 'reshape':
                a = self.to_array(o)
                return ARRM['reshape'](self, a, args, kw)
            if name == 'astype':
                return trunc_int(o)
            if name == 'is_integer':
                raise Unsupported('is_integer')
        if o is None:
            raise PyRaise('AttributeError', (name,))
        raise Unsupported('method %s of %r' % (name, o))

    def list_method(self, o, name, args, kw):
        c = self.H(o)
        if name == 'append':
            if c.soa is not None:
                v = args[0]
                if not self.is_dict(v):
                    raise Unsupported('append to record list')
                d = self.H(v).d
                n = self.length(o)
                soa = {k: (lambda i, old=c.soa[k], x=d.get(k): self.merge(T.eq(i, n), x, old(i))) for k in c.soa}
                self.ctx.heap[o.id] = ListC(T.add(c.n, 1), c.fn, c.tail, soa)
                return None
            self.ctx.heap[o.id] = ListC(c.n, c.fn, c.tail + (args[0],))
            return None
        if name == 'extend':
            v = args[0]
            n = self.length(v) if not isinstance(v, (tuple, list)) else len(v)
            if isinstance(n, int):
                for x in self.concrete_items(v):
                    self.list_method(o, 'append', [x], {})
                return None
            if not self.is_list(v):
                q = self.iterate(v)
                v = self.alloc(ListC(q.n, q.get))
            self.ctx.heap[o.id] = self.H(self.list_concat(o, v))
            return None
        if name == 'clear':
            self.ctx.heap[o.id] = ListC(0, None, ())
            return None
        if name == 'reverse' and isinstance(self.length(o), int):
            self.ctx.heap[o.id] = ListC(0, None, tuple(reversed(self.concrete_items(o))))
            return None
        if name == 'copy':
            return self.alloc(ListC(c.n, c.fn, c.tail, c.soa))
        if name == 'sort':
            self.ctx.heap[o.id] = ListC(0, None, tuple(self.sort_items(self.concrete_items(o), kw)))
            return None
        if name == 'pop':
            items = self.concrete_items(o)
            i = self.conc_int(args[0]) if args else -1
            v = items.pop(i)
            self.ctx.heap[o.id] = ListC(0, None, tuple(items))
            return v
        if name == 'insert' and isinstance(self.length(o), int):
            items = self.concrete_items(o)
            items.insert(self.conc_int(args[0]), args[1])
            self.ctx.heap[o.id] = ListC(0, None, tuple(items))
            return None
        if name == 'index' and isinstance(self.length(o), int):
            for i, x in enumerate(self.concrete_items(o)):
                if self.truth(self.equal(x, args[0])):
                    return i
            raise PyRaise('ValueError')
        raise Unsupported('list.%s' % name)

    def sort_items(self, items, kw):
        """sorting by concrete keys only (numbers, texts, and lists or tuples of them)"""
        if set(kw) - {'key', 'reverse'}:
            raise Unsupported('sort')
        f = kw.get('key')

        def conc(x):
            if isinstance(x, (bool, int, Fraction, str)):
                return x
            if isinstance(x, tuple):
                return tuple(conc(y) for y in x)
            if isinstance(x, Ref) and isinstance(self.H(x), ListC):
                return [conc(y) for y in self.concrete_items(x)]
            raise Unsupported('sort key')
        keys = [conc(x if f is None else self.call(f, [x], {})) for x in items]
        rev = kw.get('reverse', False)
        if not isinstance(rev, (bool, int)):
            raise Unsupported('sort')
        try:
            order = sorted(range(len(items)), key=lambda i: keys[i], reverse=bool(rev))
        except TypeError:
            raise PyRaise('TypeError')
        return [items[i] for i in order]

    def dict_method(self, o, name, args, kw):
        d = self.H(o).d
        if name == 'keys':
            ks = list(d.keys())
            return IterV(len(ks), lambda k: ks[k])
        if name == 'values':
            vs = list(d.values())
            return IterV(len(vs), lambda k: vs[k])
        if name == 'items':
            it = list(d.items())
            return IterV(len(it), lambda k: it[k])
        if name == 'get':
            return d.get(self.dkey(args[0]), args[1] if len(args) > 1 else None)
        if name == 'copy':
            return self.mkdict(d)
        if name == 'update':
            nd = dict(d)
            if args:
                nd.update(self.H(args[0]).d)
            nd.update(kw)
            self.ctx.heap[o.id] = DictC(nd)
            return None
        if name == 'pop':
            k = self.dkey(args[0])
            nd = dict(d)
            if k not in nd:
                if len(args) > 1:
                    return args[1]
                raise PyRaise('KeyError', (k,))
            v = nd.pop(k)
            self.ctx.heap[o.id] = DictC(nd)
            return v
        if name == 'setdefault':
            k = self.dkey(args[0])
            if k not in d:
                nd = dict(d)
                nd[k] = args[1] if len(args) > 1 else None
                self.ctx.heap[o.id] = DictC(nd)
                return nd[k]
            return d[k]
        if name == 'close' and isinstance(self.H(o), H5C):
            return None
        raise Unsupported('dict.%s' % name)

    def str_method(self, o, name, args, kw):
        if name == 'format':
            if isinstance(o, str):
                if all(isinstance(x, (str, int)) and not isinstance(x, bool) for x in args) and not kw:
                    return o.format(*args)
                return StrF(o, args) if kw else self.str_format(o, args)
            return StrF('fmt', (o,) + tuple(args))
        if isinstance(o, str) and all(isinstance(a, (str, int)) for a in args):
            if name in ('lower', 'upper', 'endswith', 'startswith', 'split', 'strip', 'replace', 'rsplit', 'rstrip', 'lstrip', 'count', 'find', 'isdigit', 'join'):
                r = getattr(o, name)(*args)
                return self.mklist(r) if isinstance(r, list) else r
        if name == 'join':
            parts = []
            for q, x in enumerate(self.concrete_items(args[0])):
                if not isinstance(x, (str, StrF, StrV)):
                    raise PyRaise('TypeError', ('join of non-text',))
                parts += ([o] if q else []) + [x]
            return self.mktext(parts)
        if isinstance(o, StrF) and name in ('lower', 'upper'):
            return StrF(o.fmt, o.args)
        raise Unsupported('str.%s' % name)


from .extlib import EXT, ARRM, check_kw  # noqa: E402
