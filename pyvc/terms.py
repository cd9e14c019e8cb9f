"""Scalar domain of the verifier.

A scalar is one of
  * a concrete Python bool / int / Fraction / non-finite float (inf, -inf, nan),
  * a z3 Bool / Int / Real expression (a finite number),
  * XR(v, c): an IEEE-like extended real; c is a z3 Int (0 finite, 1 +inf,
    2 -inf, 3 nan) and v is its value when c == 0.
Finite arithmetic is exact real arithmetic (rounding is not modelled - a stated
assumption); infinities and NaN follow IEEE comparison and propagation rules.
"""
from fractions import Fraction
import math
import z3

z3.set_param('memory_max_size', 6000)


class Unsupported(Exception):
    """Construct outside the subset the verifier understands."""


FIN, PINF, NINF, NAN = 0, 1, 2, 3


class XR:
    __slots__ = ('v', 'c')

    def __init__(self, v, c):
        self.v = toz(v, real=True)
        self.c = c if z3.is_expr(c) else z3.IntVal(c)

    def __repr__(self):
        return 'XR(%s,%s)' % (self.v, self.c)

    def __add__(s, o): return add(s, o)
    def __radd__(s, o): return add(o, s)
    def __sub__(s, o): return sub(s, o)
    def __rsub__(s, o): return sub(o, s)
    def __mul__(s, o): return mul(s, o)
    def __rmul__(s, o): return mul(o, s)
    def __truediv__(s, o): return div(s, o)
    def __rtruediv__(s, o): return div(o, s)
    def __neg__(s): return neg(s)
    def __lt__(s, o): return lt(s, o)
    def __le__(s, o): return le(s, o)
    def __gt__(s, o): return lt(o, s)
    def __ge__(s, o): return le(o, s)


def is_sym(x):
    return isinstance(x, XR) or z3.is_expr(x)


def is_scalar(x):
    return isinstance(x, (bool, int, float, Fraction, XR)) or (z3.is_expr(x) and (z3.is_bool(x) or z3.is_arith(x)))


def is_intlike(x):
    if isinstance(x, bool):
        return True
    if isinstance(x, int):
        return True
    return z3.is_expr(x) and (z3.is_int(x) or z3.is_bool(x))


def is_boollike(x):
    return isinstance(x, bool) or (z3.is_expr(x) and z3.is_bool(x))


def num(x):
    """canonical concrete number from a Python literal"""
    if isinstance(x, bool) or isinstance(x, int):
        return x
    if isinstance(x, float):
        if math.isnan(x) or math.isinf(x):
            return x
        return Fraction(x) if x != int(x) else Fraction(int(x))
    return x


def toz(x, real=False):
    if isinstance(x, bool):
        r = z3.IntVal(1 if x else 0)
        return z3.ToReal(r) if real else r
    if isinstance(x, int):
        return z3.RealVal(x) if real else z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.Q(x.numerator, x.denominator)
    if isinstance(x, float):
        if math.isnan(x) or math.isinf(x):
            raise Unsupported('non-finite concrete where finite needed')
        return toz(num(x), real)
    if z3.is_expr(x):
        if z3.is_bool(x):
            x = z3.If(x, z3.IntVal(1), z3.IntVal(0))
        if real and z3.is_int(x):
            if z3.is_int_value(x):
                return z3.RealVal(x.as_long())
            return z3.ToReal(x)
        return x
    raise Unsupported('toz %r' % (x,))


def xr(x):
    """lift to XR"""
    if isinstance(x, XR):
        return x
    if isinstance(x, float):
        if math.isnan(x):
            return XR(0, NAN)
        if math.isinf(x):
            return XR(0, PINF if x > 0 else NINF)
    return XR(toz(x, real=True), FIN)


def special(x):
    return isinstance(x, XR) or (isinstance(x, float) and (math.isnan(x) or math.isinf(x)))


def simp_cls(c):
    return z3.simplify(c)


def mkxr(v, c):
    c = simp_cls(c)
    if z3.is_int_value(c):
        k = c.as_long()
        if k == FIN:
            return z3.simplify(v) if False else v
        if k == PINF:
            return float('inf')
        if k == NINF:
            return float('-inf')
        return float('nan')
    return XR(v, c)


def both_conc(a, b):
    return isinstance(a, (bool, int, Fraction)) and isinstance(b, (bool, int, Fraction))


def iszero(x):
    return isinstance(x, (int, Fraction)) and not isinstance(x, bool) and x == 0


def isone(x):
    return isinstance(x, (int, Fraction)) and not isinstance(x, bool) and x == 1


def _coerce2(a, b):
    if is_intlike(a) and is_intlike(b):
        return toz(a), toz(b)
    return toz(a, True), toz(b, True)


def add(a, b):
    if both_conc(a, b):
        return a + b
    if special(a) or special(b):
        a, b = xr(a), xr(b)
        If = z3.If
        c = If(z3.Or(a.c == NAN, b.c == NAN, z3.And(a.c == PINF, b.c == NINF), z3.And(a.c == NINF, b.c == PINF)), 3,
               If(z3.Or(a.c == PINF, b.c == PINF), 1, If(z3.Or(a.c == NINF, b.c == NINF), 2, 0)))
        return mkxr(a.v + b.v, c)
    if iszero(a) and not is_boollike(b):
        return b if not (isinstance(a, Fraction) and is_intlike(b)) else toz(b, True)
    if iszero(b) and not is_boollike(a):
        return a if not (isinstance(b, Fraction) and is_intlike(a)) else toz(a, True)
    x, y = _coerce2(a, b)
    return x + y


def neg(a):
    if isinstance(a, (bool, int, Fraction)):
        return -a
    if isinstance(a, float):
        return -a
    if isinstance(a, XR):
        return mkxr(-a.v, z3.If(a.c == PINF, 2, z3.If(a.c == NINF, 1, a.c)))
    return -toz(a)


def sub(a, b):
    if both_conc(a, b):
        return a - b
    if special(a) or special(b):
        return add(a, neg(b))
    if iszero(b) and not is_boollike(a):
        return a if not (isinstance(b, Fraction) and is_intlike(a)) else toz(a, True)
    x, y = _coerce2(a, b)
    return x - y


def mul(a, b):
    if both_conc(a, b):
        return a * b
    if special(a) or special(b):
        a, b = xr(a), xr(b)
        If = z3.If
        sa = If(a.c == 0, If(a.v > 0, z3.IntVal(1), If(a.v < 0, z3.IntVal(-1), z3.IntVal(0))), If(a.c == 1, z3.IntVal(1), z3.IntVal(-1)))
        sb = If(b.c == 0, If(b.v > 0, z3.IntVal(1), If(b.v < 0, z3.IntVal(-1), z3.IntVal(0))), If(b.c == 1, z3.IntVal(1), z3.IntVal(-1)))
        ainf = z3.Or(a.c == 1, a.c == 2)
        binf = z3.Or(b.c == 1, b.c == 2)
        c = If(z3.Or(a.c == 3, b.c == 3), 3,
               If(z3.And(a.c == 0, b.c == 0), 0,
                  If(z3.Or(sa == 0, sb == 0), 3, If(sa == sb, z3.IntVal(1), z3.IntVal(2)))))
        return mkxr(a.v * b.v, c)
    if isone(a) and not is_boollike(b):
        return b if not (isinstance(a, Fraction) and is_intlike(b)) else toz(b, True)
    if isone(b) and not is_boollike(a):
        return a if not (isinstance(b, Fraction) and is_intlike(a)) else toz(a, True)
    if iszero(a) or iszero(b):
        return 0 if (is_intlike(a) and is_intlike(b)) else Fraction(0)
    x, y = _coerce2(a, b)
    return x * y


# hook installed by the context: decides whether a term is provably non-zero
_nonzero_hook = [None]
_fresh_hook = [None]


def known_nonzero(b):
    if isinstance(b, (int, Fraction)):
        return b != 0
    h = _nonzero_hook[0]
    return bool(h and h(b))


def div(a, b):
    """numpy true division"""
    if not special(a) and not special(b):
        if isinstance(b, (int, Fraction)) and not isinstance(b, bool) and b != 0:
            if isinstance(a, (int, Fraction)):
                return Fraction(a) / Fraction(b)
            return toz(a, True) / toz(b, True)
        if not iszero(b) and known_nonzero(toz(b, True)):
            return toz(a, True) / toz(b, True)
    a, b = xr(a), xr(b)
    If = z3.If
    sgn = _fresh_hook[0]('zsgn', z3.IntSort()) if _fresh_hook[0] else z3.IntVal(1)
    # sign of a division by a (signed) zero is left open: 1 or 2
    zs = If(sgn == 1, z3.IntVal(1), z3.IntVal(2))
    sb = If(b.v > 0, 1, -1)
    c = If(z3.Or(a.c == 3, b.c == 3), 3,
           If(z3.And(a.c != 0, b.c != 0), 3,
              If(b.c != 0, 0,                       # finite / inf = 0
                 If(a.c != 0, If(b.v == 0, zs, If((a.c == 1) == (b.v > 0), z3.IntVal(1), z3.IntVal(2))),
                    If(b.v != 0, 0, If(a.v == 0, z3.IntVal(3), zs))))))
    v = If(b.c != 0, z3.RealVal(0), a.v / b.v)
    return mkxr(v, c)


def ipow(a, n):
    if n == 0:
        return 1 if is_intlike(a) else Fraction(1)
    r = a
    for _ in range(n - 1):
        r = mul(r, a)
    return r


def not_(a):
    if isinstance(a, bool):
        return not a
    if z3.is_false(a):
        return True
    if z3.is_true(a):
        return False
    return z3.Not(a)


def and_(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
            continue
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return False
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def or_(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
            continue
        if z3.is_false(x):
            continue
        if z3.is_true(x):
            return True
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def tobool(x):
    """z3 Bool from bool"""
    if isinstance(x, bool):
        return z3.BoolVal(x)
    return x


def lt(a, b):
    if both_conc(a, b):
        return a < b
    if special(a) or special(b):
        if isinstance(a, float) and isinstance(b, (float, int, Fraction)) or isinstance(b, float) and isinstance(a, (int, Fraction)):
            return bool(float(a) < float(b))
        a, b = xr(a), xr(b)
        f = z3.And(a.c != 3, b.c != 3,
                   z3.Or(z3.And(a.c == 0, b.c == 0, a.v < b.v),
                         z3.And(a.c == 2, b.c != 2),
                         z3.And(b.c == 1, a.c != 1)))
        return z3.simplify(f)
    x, y = _coerce2(a, b)
    return x < y


def le(a, b):
    if both_conc(a, b):
        return a <= b
    if special(a) or special(b):
        if isinstance(a, float) and isinstance(b, (float, int, Fraction)) or isinstance(b, float) and isinstance(a, (int, Fraction)):
            return bool(float(a) <= float(b))
        a, b = xr(a), xr(b)
        f = z3.And(a.c != 3, b.c != 3,
                   z3.Or(z3.And(a.c == 0, b.c == 0, a.v <= b.v), a.c == 2, b.c == 1))
        return z3.simplify(f)
    x, y = _coerce2(a, b)
    return x <= y


def gt(a, b): return lt(b, a)
def ge(a, b): return le(b, a)


def eq(a, b):
    if both_conc(a, b):
        return a == b
    if is_boollike(a) and is_boollike(b):
        return tobool(a) == tobool(b)
    if special(a) or special(b):
        if isinstance(a, float) and isinstance(b, float):
            return a == b
        a, b = xr(a), xr(b)
        f = z3.And(a.c != 3, a.c == b.c, z3.Or(a.c != 0, a.v == b.v))
        return z3.simplify(f)
    x, y = _coerce2(a, b)
    if x.eq(y):
        return True
    if z3.is_int_value(x) and z3.is_int_value(y):
        return x.as_long() == y.as_long()
    return x == y


def same(a, b):
    """spec equality: like eq but NaN is the same as NaN"""
    if special(a) or special(b):
        if isinstance(a, float) and isinstance(b, float):
            return a == b or (a != a and b != b)
        a, b = xr(a), xr(b)
        return z3.simplify(z3.And(a.c == b.c, z3.Or(a.c != 0, a.v == b.v)))
    return eq(a, b)


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    c = z3.simplify(c) if z3.is_expr(c) and c.num_args() == 0 else c
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    if is_boollike(a) and is_boollike(b):
        if isinstance(a, bool) and isinstance(b, bool) and a == b:
            return a
        return z3.If(c, tobool(a), tobool(b))
    if special(a) or special(b):
        if isinstance(a, float) and isinstance(b, float) and (a == b or (a != a and b != b)):
            return a
        a, b = xr(a), xr(b)
        return mkxr(z3.If(c, a.v, b.v), z3.If(c, a.c, b.c))
    if both_conc(a, b) and a == b and type(a) is type(b):
        return a
    x, y = _coerce2(a, b)
    if x.eq(y):
        return x
    return z3.If(c, x, y)


def isnan(a):
    if isinstance(a, float):
        return math.isnan(a)
    if isinstance(a, XR):
        return z3.simplify(a.c == NAN)
    return False


def isinf(a):
    if isinstance(a, float):
        return math.isinf(a)
    if isinstance(a, XR):
        return z3.simplify(z3.Or(a.c == PINF, a.c == NINF))
    return False


def isfinite(a):
    if isinstance(a, float):
        return False if (math.isnan(a) or math.isinf(a)) else True
    if isinstance(a, XR):
        return z3.simplify(a.c == FIN)
    return True


def subst(x, pairs):
    """substitute z3 constants inside a scalar"""
    if isinstance(x, XR):
        return mkxr(z3.substitute(x.v, *pairs), z3.substitute(x.c, *pairs))
    if z3.is_expr(x):
        return z3.substitute(x, *pairs)
    return x
