"""Non-scalar values and heap contents."""
import z3
from . import terms as T
from .terms import Unsupported


class Ref:
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return 'Ref%d' % self.id


class ArrC:
    """numpy array content. elem(*idx)->scalar, or view=(base_id, fwd, inv)"""
    __slots__ = ('shape', 'elem', 'dtype', 'view', 'masks', 'inj')

    def __init__(self, shape, elem, dtype='f', view=None, masks=None, inj=None):
        self.shape, self.elem, self.dtype, self.view = tuple(shape), elem, dtype, view
        self.masks = masks or {}
        self.inj = inj          # (member(j), rank(j)) for injective index vectors


class ObjC:
    __slots__ = ('cls', 'attrs')

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs


class ListC:
    """n leading symbolic elements fn(i) followed by concrete tail.  soa: dict key->fn(i) (list of records)"""
    __slots__ = ('n', 'fn', 'tail', 'soa', 'tup')

    def __init__(self, n=0, fn=None, tail=(), soa=None):
        self.n, self.fn, self.tail, self.soa = n, fn, tuple(tail), soa


class DictC:
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d


class H5C(DictC):
    """an open binary file: named data sets, plus close()"""
    __slots__ = ()


class SoaElem:
    """element of a list of records (dicts), addressed by index"""
    __slots__ = ('lst', 'idx')

    def __init__(self, lst, idx):
        self.lst, self.idx = lst, idx


class ArrField:
    """field of a list of records kept in an array"""

    def __init__(self, it, ref):
        self.it, self.ref = it, ref

    def __call__(self, i):
        return self.it.elem(self.ref)(i)


class RangeV:
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step


class IxV:
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = parts


class IterV:
    """generic iterable: n items, get(k)"""
    __slots__ = ('n', 'get')

    def __init__(self, n, get):
        self.n, self.get = n, get


class FuncV:
    __slots__ = ('node', 'mod', 'cls', 'name', 'self_', 'closure', 'kind', 'defaults')

    def __init__(self, node, mod, cls, name, self_=None, closure=None, kind='f', defaults=None):
        self.node, self.mod, self.cls, self.name = node, mod, cls, name
        self.self_, self.closure, self.kind = self_, closure, kind
        self.defaults = defaults

    @property
    def qual(self):
        return '%s:%s' % (self.mod, (self.cls + '.' if self.cls else '') + self.name)


class ClassV:
    __slots__ = ('mod', 'name', 'node')

    def __init__(self, mod, name, node):
        self.mod, self.name, self.node = mod, name, node

    def __repr__(self):
        return 'Class(%s)' % self.name


class ModV:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Mod(%s)' % self.name


class ExtV:
    """external callable/attribute by dotted name"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Ext(%s)' % self.name


class MethV:
    """bound method of a built-in value"""
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class PyFn:
    """specification-level callable (user model function, ...): fn(interp, args, kwargs)"""
    __slots__ = ('fn', 'name')

    def __init__(self, fn, name='fn'):
        self.fn, self.name = fn, name


class PyB:
    """a symbolic value known to be a Python bool (identity tests are allowed)"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e


class NPB:
    """numpy.bool_ (never identical to True/False)"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e


class StrV:
    """opaque symbolic string with an Int identity"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e


class StrF:
    """formatted string: template + values"""
    __slots__ = ('fmt', 'args')

    def __init__(self, fmt, args):
        self.fmt, self.args = fmt, tuple(args)


class Junk:
    """a value the verifier has lost track of; any use is unsupported"""
    __slots__ = ('why',)

    def __init__(self, why=''):
        self.why = why


class OpaqueV:
    """external object with recorded identity"""
    __slots__ = ('kind', 'data')

    def __init__(self, kind, data=None):
        self.kind, self.data = kind, data


UNDEF = object()


class PyRaise(Exception):
    def __init__(self, cls, args=()):
        Exception.__init__(self, cls)
        self.cls, self.eargs = cls, args


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass
