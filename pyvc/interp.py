"""Symbolic interpreter for the Python subset used by the code under verification.

The input is the unmodified source text of the repository, parsed on every run.
Dropped by the interpretation (stated in DESIGN.md): docstrings, printing and
string formatting effects, wall-clock values, object identity of values that are
rebuilt by the loop rule, floating-point rounding."""
import ast
import os
import itertools
from fractions import Fraction
import z3
from . import terms as T
from .terms import Unsupported
from .values import *
from .ctx import PathEnd, Rule

I, RL, BL = z3.IntSort(), z3.RealSort(), z3.BoolSort()
UNROLL = 10


class Program:
    def __init__(self, root='/repo', pkg='pymcmcstat'):
        self.root, self.pkg = root, pkg
        self.mods = {}
        for d, _, fs in os.walk(os.path.join(root, pkg)):
            for f in fs:
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, root)[:-3].replace(os.sep, '.')
                    if rel.endswith('.__init__'):
                        rel = rel[:-9]
                    src = open(p).read()
                    self.mods[rel] = dict(tree=ast.parse(src), path=p, names=None)
        self.funcs = {}
        for m in self.mods:
            self._scan(m)
        self._scan_stores()

    MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update', 'setdefault', 'sort', 'reverse', 'fill', 'add', 'discard', 'popitem'}

    def _scan_stores(self):
        """names that may be changed in place (or rebound through `global`) somewhere, and attributes assigned outside __init__:
        state whose value at the start of a call depends on the calls made before it"""
        self.mutated, self.stored = set(), set()

        def base(x):
            while isinstance(x, ast.Subscript):
                x = x.value
            return x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else None
        for m in self.mods.values():
            for f in ast.walk(m['tree']):
                if isinstance(f, ast.Global):
                    self.mutated.update(f.names)
                elif isinstance(f, (ast.Assign, ast.AugAssign, ast.Delete, ast.AnnAssign)):
                    for t in (f.targets if isinstance(f, (ast.Assign, ast.Delete)) else [f.target]):
                        for x in ast.walk(t):
                            if isinstance(x, ast.Subscript) and not isinstance(x.ctx, ast.Load):
                                self.mutated.add(base(x))
                        if isinstance(f, ast.AugAssign):
                            self.mutated.add(base(t))
                elif isinstance(f, ast.Call) and isinstance(f.func, ast.Attribute) and f.func.attr in self.MUTATORS:
                    self.mutated.add(base(f.func.value))
                if isinstance(f, (ast.FunctionDef, ast.Lambda)) and getattr(f, 'name', '') != '__init__':
                    for x in ast.walk(f):
                        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                            self.stored.add(x.attr)
                        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'setattr':
                            a = x.args[1] if len(x.args) > 1 else None
                            self.stored.add(a.value if isinstance(a, ast.Constant) else '*')

    def _scan(self, m):
        ns = {}
        is_pkg = self.mods[m]['path'].endswith('__init__.py')

        def stmts(body):
            for n in body:
                if isinstance(n, ast.FunctionDef):
                    ns[n.name] = FuncV(n, m, None, n.name)
                    self.funcs['%s:%s' % (m, n.name)] = ns[n.name]
                elif isinstance(n, ast.ClassDef):
                    ns[n.name] = ClassV(m, n.name, n)
                    for q in n.body:
                        if isinstance(q, ast.FunctionDef):
                            kind = 'm'
                            for d in q.decorator_list:
                                if isinstance(d, ast.Name) and d.id in ('classmethod', 'staticmethod', 'property'):
                                    kind = d.id
                            self.funcs['%s:%s.%s' % (m, n.name, q.name)] = FuncV(q, m, n.name, q.name, kind=kind)
                elif isinstance(n, ast.Import):
                    for a in n.names:
                        if a.asname:
                            ns[a.asname] = ModV(a.name)
                        else:
                            ns[a.name.split('.')[0]] = ModV(a.name.split('.')[0])
                elif isinstance(n, ast.ImportFrom):
                    base = m.split('.')
                    if n.level:
                        base = base if is_pkg else base[:-1]
                        base = base[:len(base) - (n.level - 1)]
                        full = '.'.join(base + ([n.module] if n.module else []))
                    else:
                        full = n.module
                    for a in n.names:
                        ns[a.asname or a.name] = ('from', full, a.name)
                elif isinstance(n, ast.Try):
                    stmts(n.body)
                elif isinstance(n, ast.If):
                    stmts(n.body)
                    stmts(n.orelse)
                elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    ns[n.targets[0].id] = ('const', n.value)
        stmts(self.mods[m]['tree'].body)
        self.mods[m]['names'] = ns

    def resolve(self, m, name):
        ns = self.mods[m]['names']
        if name not in ns:
            return UNDEF
        v = ns[name]
        if isinstance(v, tuple) and v[0] == 'from':
            _, full, nm = v
            if full in self.mods:
                if full + '.' + nm in self.mods:
                    return ModV(full + '.' + nm)
                return self.resolve(full, nm)
            return ExtV(full + '.' + nm)
        return v

    def function(self, qual):
        """FuncV for 'mod:Class.name' or None"""
        return self.funcs.get(qual)


class Frame:
    __slots__ = ('env', 'mod', 'cls', 'fname', 'globals_', 'comp')

    def __init__(self, mod, cls, fname):
        self.comp = 0
        self.env, self.mod, self.cls, self.fname = {}, mod, cls, fname


from .npm import NumpyModel, idiv


class Interp(NumpyModel):
    def __init__(self, prog, ctx, summaries=None):
        self.prog, self.ctx = prog, ctx
        self.summaries = summaries or {}
        self.frames = []
        self.obl = []
        self.depth = 0
        self.inlined = set()
        self.used_summaries = set()
        self.trusted = set()
        self.loops = []
        self.root_qual = None
        self.check_bodies = False
        self.obl_seen = {}
        self.loop_cache = {}
        self.loop_invs = []
        self.inv_log = []
        self.ext_hooks = {}
        self.peel = False
        self.opaque_hooks = {}

    # ---------------------------------------------------------------- heap
    def alloc(self, c):
        r = Ref(self.ctx.nextref)
        self.ctx.nextref += 1
        self.ctx.heap[r.id] = c
        return r

    def H(self, r):
        return self.ctx.heap[r.id]

    def is_arr(self, v):
        return isinstance(v, Ref) and isinstance(self.H(v), ArrC)

    def is_list(self, v):
        return isinstance(v, Ref) and isinstance(self.H(v), ListC)

    def is_obj(self, v):
        return isinstance(v, Ref) and isinstance(self.H(v), ObjC)

    def is_dict(self, v):
        return isinstance(v, Ref) and isinstance(self.H(v), DictC)

    def mklist(self, items):
        return self.alloc(ListC(0, None, tuple(items)))

    def mkdict(self, d):
        return self.alloc(DictC(dict(d)))

    # ---------------------------------------------------------------- obligations
    only = None               # decide these obligations only
    forbidden = None          # external functions the code under contract must not call
    hit = False

    def oblige(self, name, goal, extra=None):
        if self.ctx.suppress or (self.only is not None and name not in self.only):
            return True
        st, be, info = self.ctx.prove(goal)
        gz = T.tobool(goal)
        key = (name, self.ctx.suffix, gz.get_id() if z3.is_expr(gz) else gz)
        if key in self.obl_seen:      # the same obligation met again on another exploration of the same path prefix
            if st == 'proved':
                self.ctx.assume(goal)
            return st == 'proved'
        self.obl_seen[key] = gz
        self.obl.append(dict(name=name, status=st, backend=be, info=info, goal=goal,
                             path=self.ctx.suffix, pc=[f for f, _ in self.ctx.pc] if st != 'proved' else None))
        if st == 'proved':
            self.ctx.assume(goal)
        return st == 'proved'

    # ---------------------------------------------------------------- calls
    def call_qual(self, qual, args, kwargs=None):
        fv = self.prog.function(qual)
        if fv is None:
            raise Unsupported('function %s not found' % qual)
        return self.call(fv, args, kwargs or {})

    def bind(self, fv, args, kwargs):
        a = fv.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        if len(args) > len(names) and not a.vararg:
            raise PyRaise('TypeError', ('too many arguments',))
        for n, v in zip(names, args):
            env[n] = v
        if a.vararg:
            env[a.vararg.arg] = tuple(args[len(names):])
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in env:
                raise PyRaise('TypeError', ('multiple values',))
            if k in names or k in kwonly:
                env[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise PyRaise('TypeError', ('unexpected keyword %s' % k,))
        if a.kwarg:
            env[a.kwarg.arg] = self.mkdict(extra)
        fr = Frame(fv.mod, fv.cls, fv.name)
        defs = a.defaults
        if defs:
            for n, d in zip(names[-len(defs):], defs):
                if n not in env:
                    env[n] = self.ev(d, fr)
                    self.freeze(env[n])
        for n, d in zip(kwonly, a.kw_defaults):
            if n not in env and d is not None:
                env[n] = self.ev(d, fr)
                self.freeze(env[n])
        for n in names + kwonly:
            if n not in env:
                raise PyRaise('TypeError', ('missing argument %s' % n,))
        return env

    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, FuncV):
            if f.self_ is not None:
                args = [f.self_] + list(args)
            return self.call_func(f, args, kwargs)
        if isinstance(f, PyFn):
            return f.fn(self, list(args), kwargs)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, ExtV):
            return self.ext(f.name, list(args), kwargs)
        if isinstance(f, MethV):
            return self.method(f.obj, f.name, list(args), kwargs)
        if isinstance(f, OpaqueV):
            return OpaqueV('result', (f, args, kwargs))
        if callable(f):
            return f(self, list(args), kwargs)
        raise Unsupported('call of %r' % (f,))

    def call_func(self, f, args, kwargs, force_inline=False):
        q = f.qual
        if not force_inline and q in self.summaries and not (q == self.root_qual and self.depth == 0):
            env = self.bind(f, args, kwargs)
            self.used_summaries.add(q)
            return self.summaries[q](self, env)
        if self.depth > 30:
            raise Unsupported('call depth (recursion without contract: %s)' % q)
        for d in getattr(f.node, 'decorator_list', ()):
            if not (isinstance(d, ast.Name) and d.id in ('classmethod', 'staticmethod', 'property')):
                raise Unsupported('decorator on %s' % q)
        env = self.bind(f, args, kwargs)
        fr = Frame(f.mod, f.cls, f.name)
        if f.closure:
            fr.env.update(f.closure)
        fr.env.update(env)
        if self.depth:
            self.inlined.add(q)
        self.depth += 1
        self.frames.append(fr)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fr)
            try:
                self.block(f.node.body, fr)
            except ReturnEx as r:
                return r.v
            return None
        finally:
            self.depth -= 1
            self.frames.pop()

    def find_method(self, cv, name):
        """method FuncV of class (with simple bases)"""
        fv = self.prog.function('%s:%s.%s' % (cv.mod, cv.name, name))
        pre = '_%s__' % cv.name.lstrip('_')
        if fv is None and name.startswith(pre):
            fv = self.prog.function('%s:%s.%s' % (cv.mod, cv.name, name[len(pre) - 2:]))
        if fv is not None:
            return fv
        for b in cv.node.bases:
            if isinstance(b, ast.Name):
                c = self.prog.resolve(cv.mod, b.id)
                if isinstance(c, ClassV):
                    r = self.find_method(c, name)
                    if r:
                        return r
        return None

    def instantiate(self, cv, args, kwargs):
        o = self.alloc(ObjC(cv, {}))
        init = self.find_method(cv, '__init__')
        if init is not None:
            self.call_func(FuncV(init.node, init.mod, init.cls, init.name, kind='m'), [o] + list(args), kwargs)
        return o

    # ---------------------------------------------------------------- names
    def mangle(self, name, fr):
        if fr.cls and name.startswith('__') and not name.endswith('__'):
            return '_%s%s' % (fr.cls.lstrip('_'), name)
        return name

    BUILTINS = {'range', 'len', 'sum', 'min', 'max', 'abs', 'int', 'float', 'bool', 'str', 'list', 'dict', 'tuple',
                'enumerate', 'zip', 'print', 'isinstance', 'hasattr', 'getattr', 'round', 'sorted', 'set', 'callable',
                'open', 'type', 'reversed', 'any', 'all', 'map', 'repr', 'setattr', 'iter', 'next', 'divmod', 'pow', 'super',
                'object', 'id', 'slice'}
    EXC = {'Exception', 'TypeError', 'ValueError', 'KeyError', 'IndexError', 'NameError', 'AttributeError', 'SystemExit',
           'ZeroDivisionError', 'UserWarning', 'RuntimeError', 'OSError', 'IOError', 'FileNotFoundError', 'ImportError', 'NotImplementedError', 'UnboundLocalError'}

    def lookup(self, name, fr):
        if name in fr.env:
            v = fr.env[name]
            if v is UNDEF:
                raise PyRaise('UnboundLocalError', (name,))
            return v
        nm = self.mangle(name, fr)
        if nm in fr.env:
            return fr.env[nm]
        v = self.prog.resolve(fr.mod, name)
        if v is UNDEF:
            v = self.prog.resolve(fr.mod, nm) if nm != name else UNDEF
        if v is not UNDEF:
            if isinstance(v, tuple) and v[0] == 'const':
                return self.module_const(fr.mod, name, v[1])
            return v
        if name in self.BUILTINS:
            return ExtV('builtins.' + name)
        if name in self.EXC:
            return ExtV('exc.' + name)
        raise PyRaise('NameError', (name,))

    def module_const(self, mod, name, node):
        """value of a module-level (or class-level) name: only if nothing in the program changes it"""
        if name in self.prog.mutated:
            raise Unsupported('module-level state %s' % name)
        v = self.ev(node, Frame(mod, None, '<module>'))
        self.freeze(v)
        return v

    def freeze(self, v):
        """the value outlives the call: changing it in place would be history the contract does not see"""
        if isinstance(v, Ref):
            self.ctx.frozen.append((v.id, self.ctx.heap[v.id]))

    def check_frozen(self):
        for i, cell in self.ctx.frozen:
            if self.ctx.heap.get(i, cell) is not cell:
                raise Unsupported('a default argument or module-level value is changed in place')

    # ---------------------------------------------------------------- expressions
    def ev(self, n, fr):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(n).__name__)
        return m(n, fr)

    def e_Constant(self, n, fr):
        return T.num(n.value) if isinstance(n.value, (int, float)) and not isinstance(n.value, bool) else n.value

    def e_Name(self, n, fr):
        return self.lookup(n.id, fr)

    def e_Tuple(self, n, fr):
        out = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                out += self.concrete_items(self.ev(x.value, fr))
            else:
                out.append(self.ev(x, fr))
        return tuple(out)

    def e_List(self, n, fr):
        return self.mklist(self.e_Tuple(n, fr))

    def e_Dict(self, n, fr):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                d.update(self.H(self.ev(v, fr)).d)
            else:
                d[self.dkey(self.ev(k, fr))] = self.ev(v, fr)
        return self.mkdict(d)

    def dkey(self, k):
        if isinstance(k, (str, int, bool)) or k is None:
            return k
        if isinstance(k, StrF):
            return ('strf', k.fmt, tuple(map(str, k.args)))
        raise Unsupported('symbolic dictionary key')

    def e_JoinedStr(self, n, fr):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
                continue
            x = self.unw(self.ev(v.value, fr))
            if v.conversion != -1 or v.format_spec is not None:
                sp = self.ev(v.format_spec, fr) if v.format_spec is not None else ''
                if not isinstance(sp, str):
                    raise Unsupported('symbolic format specification')
                cv = '!' + chr(v.conversion) if v.conversion != -1 else ''
                if isinstance(x, (str, int)) and not cv:
                    x = format(x, sp)
                elif not (sp == 'd' and not cv and T.is_scalar(x) and T.is_intlike(x)):
                    x = StrF('{%s%s}' % (cv, ':' + sp if sp else ''), (x,))
            parts.append(x)
        return self.mktext(parts)

    def e_Lambda(self, n, fr):
        # captures the variables of the frame, not their values; inside a comprehension
        # the frame's variables are restored afterwards, so there the values are kept
        # (a lambda that is itself an element of the comprehension is rejected there)
        return FuncV(n, fr.mod, fr.cls, '<lambda>', closure=dict(fr.env) if fr.comp else fr.env)

    def e_IfExp(self, n, fr):
        return self.ev(n.body, fr) if self.truth(self.ev(n.test, fr)) else self.ev(n.orelse, fr)

    def e_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        self.assign(n.target, v, fr)
        return v

    def e_BoolOp(self, n, fr):
        # `a or b` / `a and b`; merge pure boolean operands without forking when possible
        vals = n.values
        isand = isinstance(n.op, ast.And)
        v = None
        for i, x in enumerate(vals):
            v = self.ev(x, fr)
            if i == len(vals) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v
            if not isand and t:
                return v
        return v

    def e_UnaryOp(self, n, fr):
        v = self.ev(n.operand, fr)
        if isinstance(n.op, ast.Not):
            return not self.truth(v)
        if self.is_arr(v):
            if isinstance(n.op, ast.USub):
                return self.map1(v, T.neg)
            if isinstance(n.op, ast.Invert):
                return self.map1(v, lambda x: T.not_(self.asbool(x)), 'b')
            if isinstance(n.op, ast.UAdd):
                return v
        v = self.unw(v)
        if isinstance(n.op, ast.USub):
            return T.neg(v)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            return NPB(T.not_(v))
        raise Unsupported('unary')

    def e_BinOp(self, n, fr):
        return self.binop(type(n.op).__name__, self.ev(n.left, fr), self.ev(n.right, fr))

    def e_Compare(self, n, fr):
        l = self.ev(n.left, fr)
        res = None
        for op, c in zip(n.ops, n.comparators):
            r = self.ev(c, fr)
            v = self.compare(type(op).__name__, l, r)
            if len(n.ops) == 1:
                return v
            if not self.truth(v):
                return v
            res = v
            l = r
        return res

    def e_Call(self, n, fr):
        f = None
        if isinstance(n.func, ast.Name) and n.func.id == 'super':
            raise Unsupported('super')
        if isinstance(n.func, ast.Name) and n.func.id == 'next' and n.args and isinstance(n.args[0], ast.GeneratorExp) and not n.keywords:
            items = self.concrete_items(self.ev(n.args[0], fr))
            if items:
                return items[0]
            if len(n.args) > 1:
                return self.ev(n.args[1], fr)
            raise PyRaise('StopIteration')
        f = self.ev(n.func, fr)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args += self.concrete_items(self.ev(a.value, fr))
            else:
                args.append(self.ev(a, fr))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value, fr)
                if not self.is_dict(d):
                    raise Unsupported('** of non-dict')
                kw.update(self.H(d).d)
            else:
                kw[k.arg] = self.ev(k.value, fr)
        return self.call(f, args, kw)

    def e_Attribute(self, n, fr):
        return self.getattr(self.ev(n.value, fr), self.mangle(n.attr, fr))

    def e_Subscript(self, n, fr):
        return self.getitem(self.ev(n.value, fr), self.index(n.slice, fr))

    def index(self, s, fr):
        if isinstance(s, ast.Slice):
            g = lambda x: None if x is None else self.ev(x, fr)
            return slice(g(s.lower), g(s.upper), g(s.step))
        if isinstance(s, ast.Tuple):
            return tuple(self.index(x, fr) for x in s.elts)
        return self.ev(s, fr)

    def in_comp(self, fr, g, *elts):
        for e in elts:
            for x in [e] + list(getattr(e, 'elts', ())) + list(getattr(e, 'values', ())):
                if isinstance(x, ast.Lambda):
                    raise Unsupported('lambda as an element of a comprehension')
        fr.comp += 1
        try:
            return g()
        finally:
            fr.comp -= 1

    def e_ListComp(self, n, fr):
        return self.in_comp(fr, lambda: self.list_comp(n, fr), n.elt)

    def list_comp(self, n, fr):
        if len(n.generators) != 1:
            # [e for a in A for b in B] = concatenation of [e for b in B] over a in A
            out, save, g = [], dict(fr.env), n.generators[0]
            inner = ast.copy_location(ast.ListComp(n.elt, n.generators[1:]), n)
            for x in self.concrete_items(self.ev(g.iter, fr)):
                self.assign(g.target, x, fr)
                if all(self.truth(self.ev(c, fr)) for c in g.ifs):
                    out += self.concrete_items(self.e_ListComp(inner, fr))
            fr.env.clear()
            fr.env.update(save)
            return self.mklist(out)
        g = n.generators[0]
        it = self.iterate(self.ev(g.iter, fr))
        save = dict(fr.env)
        if isinstance(it.n, int) and it.n <= 64:
            out = []
            for k in range(it.n):
                self.assign(g.target, it.get(k), fr)
                if all(self.truth(self.ev(c, fr)) for c in g.ifs):
                    out.append(self.ev(n.elt, fr))
            fr.env.clear()
            fr.env.update(save)
            return self.mklist(out)
        if g.ifs:
            raise Unsupported('filtered comprehension over symbolic range')
        # desugar to an append loop and use the loop rule
        lst = self.mklist([])
        fr.env['%comp'] = lst
        node = ast.Expr(ast.Call(ast.Attribute(ast.Name('%comp', ast.Load()), 'append', ast.Load()), [n.elt], []))
        ast.fix_missing_locations(ast.copy_location(node, n))
        self.loop(fr, it.n, lambda k: self.assign(g.target, it.get(k), fr), [node], n)
        r = fr.env['%comp']
        fr.env.clear()
        fr.env.update(save)
        return r

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n, fr):
        return self.ext('builtins.set', [self.e_ListComp(n, fr)], {})

    def e_DictComp(self, n, fr):
        return self.in_comp(fr, lambda: self.dict_comp(n, fr), n.key, n.value)

    def dict_comp(self, n, fr):
        g = n.generators[0]
        it = self.iterate(self.ev(g.iter, fr))
        if len(n.generators) != 1 or not isinstance(it.n, int):
            raise Unsupported('dict comprehension')
        save = dict(fr.env)
        d = {}
        for k in range(it.n):
            self.assign(g.target, it.get(k), fr)
            if all(self.truth(self.ev(c, fr)) for c in g.ifs):
                d[self.dkey(self.ev(n.key, fr))] = self.ev(n.value, fr)
        fr.env.clear()
        fr.env.update(save)
        return self.mkdict(d)

    def e_Set(self, n, fr):
        return self.mklist(self.e_Tuple(n, fr))

    # ---------------------------------------------------------------- truth
    def unw(self, v):
        if isinstance(v, (PyB, NPB)):
            return v.e
        return v

    def asbool(self, x):
        x = self.unw(x)
        if T.is_boollike(x):
            return x
        return T.not_(T.eq(x, 0)) if not T.special(x) else T.not_(T.eq(x, 0))

    def truth_term(self, v):
        v = self.unw(v)
        if v is None:
            return False
        if isinstance(v, (str, tuple, range)):
            return len(v) > 0
        if T.is_scalar(v):
            return self.asbool(v)
        if isinstance(v, Ref):
            c = self.H(v)
            if isinstance(c, ArrC):
                sz = 1
                for d in c.shape:
                    if not isinstance(d, int):
                        if self.ctx.quick_valid(d == 1):
                            continue
                        raise Unsupported('truth of array of symbolic size')
                    sz *= d
                if sz == 1:
                    return self.asbool(self.elem(v)(*[0] * len(c.shape)))
                if sz == 0:
                    return False
                raise PyRaise('ValueError', ('ambiguous truth value',))
            if isinstance(c, ListC):
                n = self.length(v)
                return n > 0 if isinstance(n, int) else n > 0
            if isinstance(c, DictC):
                return len(c.d) > 0
            return True
        if isinstance(v, (FuncV, ClassV, ModV, ExtV, PyFn, MethV, OpaqueV)):
            return True
        if isinstance(v, RangeV):
            n = self.length(v)
            return n > 0
        raise Unsupported('truth of %r' % (v,))

    def truth(self, v):
        t = self.truth_term(v)
        if isinstance(t, bool):
            return t
        return self.ctx.branch(t)

    def length(self, v):
        if isinstance(v, (tuple, str)):
            return len(v)
        if isinstance(v, RangeV):
            return self.range_len(v)
        if isinstance(v, IterV):
            return v.n
        if isinstance(v, Ref):
            c = self.H(v)
            if isinstance(c, ListC):
                return T.add(c.n, len(c.tail)) if not isinstance(c.n, int) else c.n + len(c.tail)
            if isinstance(c, ArrC):
                if not c.shape:
                    raise PyRaise('TypeError', ('len of 0-d',))
                if 0 in c.masks:
                    return self.mask_count(c, 0)
                return c.shape[0]
            if isinstance(c, DictC):
                return len(c.d)
        if T.is_scalar(v) or v is None:
            raise PyRaise('TypeError', ('object has no len()',))
        raise Unsupported('len of %r' % (v,))

    def range_len(self, r):
        if all(isinstance(x, int) for x in (r.lo, r.hi, r.step)):
            return len(range(r.lo, r.hi, r.step))
        if not isinstance(r.step, int):
            st = T.toz(r.step)
            if self.ctx.quick_valid(st > 0):
                d = T.toz(r.hi) - T.toz(r.lo)
                n = idiv(d + st - 1, st)
                return n if self.ctx.quick_valid(d >= 0) else z3.If(d > 0, n, z3.IntVal(0))
            raise Unsupported('symbolic range step')
        d = z3.simplify(T.toz(r.hi) - T.toz(r.lo)) if r.step > 0 else z3.simplify(T.toz(r.lo) - T.toz(r.hi))
        s = abs(r.step)
        if s == 1:
            if z3.is_int_value(d):
                return max(0, d.as_long())
            if self.ctx.quick_valid(d >= 0):
                return d
            return z3.If(d > 0, d, z3.IntVal(0))
        return (d + (s - 1)) / s if self.ctx.quick_valid(d >= 0) else z3.If(d > 0, (d + (s - 1)) / s, z3.IntVal(0))

    def concrete_items(self, v):
        if isinstance(v, (tuple, list)):
            return list(v)
        it = self.iterate(v)
        if isinstance(it.n, int):
            return [it.get(k) for k in range(it.n)]
        raise Unsupported('unpacking of symbolic-length sequence')

    def iterate(self, v):
        if isinstance(v, IterV):
            return v
        if isinstance(v, tuple):
            return IterV(len(v), lambda k: v[k] if isinstance(k, int) else self.tuple_at(v, k))
        if isinstance(v, str):
            return IterV(len(v), lambda k: v[k])
        if isinstance(v, RangeV):
            n = self.length(v)
            return IterV(n, lambda k: T.add(v.lo, T.mul(k, v.step)) if v.step != 1 else T.add(v.lo, k))
        if isinstance(v, Ref):
            c = self.H(v)
            if isinstance(c, ListC):
                return IterV(self.length(v), lambda k: self.getitem(v, k))
            if isinstance(c, ArrC):
                if not c.shape:
                    raise PyRaise('TypeError', ('0-d iteration',))
                return IterV(self.length(v), lambda k: self.getitem(v, k))
            if isinstance(c, DictC):
                ks = list(c.d.keys())
                return IterV(len(ks), lambda k: ks[k])
        raise Unsupported('iteration over %r' % (v,))

    def tuple_at(self, v, k):
        raise Unsupported('symbolic index into tuple')

    # ---------------------------------------------------------------- statements
    def block(self, body, fr):
        for s in body:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        self.cur_line = getattr(s, 'lineno', None)
        return m(s, fr)

    def s_Expr(self, s, fr):
        self.ev(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Global(self, s, fr):
        raise Unsupported('global')

    def s_Import(self, s, fr):
        for a in s.names:
            fr.env[a.asname or a.name.split('.')[0]] = ModV(a.name if a.asname else a.name.split('.')[0])

    def s_ImportFrom(self, s, fr):
        full = s.module
        if s.level:
            b = fr.mod.split('.')
            if not self.prog.mods[fr.mod]['path'].endswith('__init__.py'):
                b = b[:-1]
            b = b[:len(b) - (s.level - 1)]
            full = '.'.join(b + ([s.module] if s.module else []))
        for a in s.names:
            if full in self.prog.mods:
                v = ModV(full + '.' + a.name) if full + '.' + a.name in self.prog.mods else self.getattr(ModV(full), a.name)
            else:
                v = self.extattr(full + '.' + a.name)
            fr.env[a.asname or a.name] = v

    def s_Return(self, s, fr):
        raise ReturnEx(None if s.value is None else self.ev(s.value, fr))

    def s_Break(self, s, fr):
        raise BreakEx()

    def s_Continue(self, s, fr):
        raise ContinueEx()

    def s_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            raise PyRaise('AssertionError')

    def s_FunctionDef(self, s, fr):
        fr.env[s.name] = FuncV(s, fr.mod, fr.cls, s.name, closure=fr.env)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                if self.is_dict(o):
                    d = dict(self.H(o).d)
                    k = self.dkey(self.index(t.slice, fr))
                    if k not in d:
                        raise PyRaise('KeyError', (k,))
                    del d[k]
                    self.ctx.heap[o.id] = DictC(d)
                    continue
            elif isinstance(t, ast.Name):
                fr.env.pop(t.id, None)
                continue
            raise Unsupported('del')

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            r = self.augmented(op, cur, self.ev(s.value, fr))
            if r is not cur:
                fr.env[t.id] = r
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            a = self.mangle(t.attr, fr)
            cur = self.getattr(o, a)
            r = self.augmented(op, cur, self.ev(s.value, fr))
            if r is not cur:
                self.setattr(o, a, r)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            ix = self.index(t.slice, fr)
            cur = self.getitem(o, ix)
            rhs = self.ev(s.value, fr)
            if self.is_arr(o):
                return self.setitem(o, ix, self.binop(op, cur, rhs))
            r = self.augmented(op, cur, rhs)
            if r is not cur:
                self.setitem(o, ix, r)
        else:
            raise Unsupported('augassign')

    def augmented(self, op, cur, rhs):
        """x op= rhs: arrays and lists change in place, anything else is replaced"""
        if self.is_arr(cur):
            self.setitem(cur, Ellipsis, self.binop(op, cur, rhs))
            return cur
        if self.is_list(cur) and op == 'Add':
            self.method(cur, 'extend', [rhs], {})
            return cur
        return self.binop(op, cur, rhs)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            fr.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)) and any(isinstance(x, ast.Starred) for x in t.elts):
            vals = self.concrete_items(v)
            q = [isinstance(x, ast.Starred) for x in t.elts].index(True)
            m = len(vals) - (len(t.elts) - 1)
            if m < 0:
                raise PyRaise('ValueError', ('unpack',))
            for x, y in zip(t.elts[:q], vals[:q]):
                self.assign(x, y, fr)
            self.assign(t.elts[q].value, self.mklist(vals[q:q + m]), fr)
            for x, y in zip(t.elts[q + 1:], vals[q + m:]):
                self.assign(x, y, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, vals):
                self.assign(x, y, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), self.mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.index(t.slice, fr), v)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n):
        if isinstance(v, tuple):
            vals = list(v)
        else:
            it = self.iterate(v)
            if not isinstance(it.n, int):
                if not self.ctx.quick_valid(it.n == n):
                    raise Unsupported('unpack of symbolic length')
                vals = [it.get(k) for k in range(n)]
            else:
                vals = [it.get(k) for k in range(it.n)]
        if len(vals) != n:
            raise PyRaise('ValueError', ('unpack',))
        return vals

    def s_If(self, s, fr):
        if self.truth(self.ev(s.test, fr)):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def s_With(self, s, fr):
        for it in s.items:
            v = self.ev(it.context_expr, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        self.block(s.body, fr)
        for it in s.items:
            pass

    def s_Raise(self, s, fr):
        if s.exc is None:
            raise PyRaise('Reraise')
        e = self.ev(s.exc, fr)
        if isinstance(e, OpaqueV) and e.kind == 'exc':
            raise PyRaise(e.data[0], e.data[1])
        if isinstance(e, ExtV) and e.name.startswith('exc.'):
            raise PyRaise(e.name[4:])
        raise Unsupported('raise')

    HIER = {'LinAlgError': ('ValueError', 'Exception'), 'SystemExit': ('BaseException',), 'UnboundLocalError': ('NameError', 'Exception'),
            'FileNotFoundError': ('OSError', 'IOError', 'Exception')}

    def exc_matches(self, cls, h):
        if isinstance(h, tuple):
            return any(self.exc_matches(cls, x) for x in h)
        name = h.name.split('.')[-1] if isinstance(h, ExtV) else None
        if name is None:
            raise Unsupported('except clause')
        if name == cls:
            return True
        up = self.HIER.get(cls, ('Exception',))
        return name in up or (name == 'BaseException')

    def s_Try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None or self.exc_matches(e.cls, self.ev(h.type, fr)):
                        if h.name:
                            fr.env[h.name] = OpaqueV('exc', (e.cls, e.eargs))
                        try:
                            self.block(h.body, fr)
                        except PyRaise as e2:
                            if e2.cls == 'Reraise':
                                raise e
                            raise
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        finally:
            if s.finalbody:
                self.block(s.finalbody, fr)

    # ---------------------------------------------------------------- loops
    def s_For(self, s, fr):
        it = self.iterate(self.ev(s.iter, fr))
        n = it.n
        if z3.is_expr(n):
            n = z3.simplify(n)
            if z3.is_int_value(n):
                n = n.as_long()
        if not self.counted_loop(fr, n, lambda k: self.assign(s.target, it.get(k), fr), s):
            self.block(s.orelse, fr)

    def counted(self, s, fr):
        """a while loop that counts (while v < bound: ... v += 1 ...): (name, start, step, trips(bound), bound expression) or None"""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            return None
        for l, op, r in ((t.left, type(t.ops[0]).__name__, t.comparators[0]), (t.comparators[0], {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE'}.get(type(t.ops[0]).__name__), t.left)):
            if not isinstance(l, ast.Name) or op not in ('Lt', 'LtE', 'Gt', 'GtE') or l.id not in fr.env:
                continue
            v = l.id
            if any(isinstance(x, ast.Name) and x.id == v for x in ast.walk(r)):
                continue
            if any(isinstance(x, (ast.Call,)) and not (isinstance(x.func, ast.Name) and x.func.id in ('len', 'int', 'min', 'max')) for x in ast.walk(r)):
                continue
            stores = [x for q in s.body for x in ast.walk(q) if isinstance(x, ast.Name) and x.id == v and not isinstance(x.ctx, ast.Load)]
            if len(stores) != 1 or any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ListComp)) for q in s.body for x in ast.walk(q) if isinstance(x, (ast.FunctionDef, ast.Lambda))):
                continue
            for q, b in enumerate(s.body):
                step = None
                if isinstance(b, ast.AugAssign) and b.target is stores[0] and isinstance(b.value, ast.Constant) and isinstance(b.op, (ast.Add, ast.Sub)):
                    step = b.value.value if isinstance(b.op, ast.Add) else -b.value.value
                elif isinstance(b, ast.Assign) and len(b.targets) == 1 and b.targets[0] is stores[0] and isinstance(b.value, ast.BinOp) and isinstance(b.value.op, (ast.Add, ast.Sub)):
                    x, y = b.value.left, b.value.right
                    if isinstance(b.value.op, ast.Add) and isinstance(x, ast.Constant):
                        x, y = y, x
                    if isinstance(x, ast.Name) and x.id == v and isinstance(y, ast.Constant):
                        step = y.value if isinstance(b.value.op, ast.Add) else -y.value
                if step is None:
                    continue
                if type(step) is not int or step != (1 if op in ('Lt', 'LtE') else -1):
                    return None
                if any(self.has_continue(x) for x in s.body[:q]):
                    return None
                v0 = self.unw(fr.env[v])
                if not T.is_scalar(v0) or not T.is_intlike(v0) or T.is_boollike(v0):
                    return None
                try:
                    bound = self.unw(self.ev(r, fr))
                except PyRaise:
                    return None
                if not T.is_scalar(bound) or not T.is_intlike(bound) or T.is_boollike(bound):
                    return None
                n = T.sub(bound, v0) if step == 1 else T.sub(v0, bound)
                if op in ('LtE', 'GtE'):
                    n = T.add(n, 1)
                if isinstance(n, int):
                    n = max(n, 0)
                else:
                    n = z3.simplify(n)
                    if z3.is_int_value(n):
                        n = max(n.as_long(), 0)
                    elif not self.ctx.quick_valid(n >= 0):
                        n = z3.If(n > 0, n, z3.IntVal(0))
                return v, v0, step, n, r, bound
        return None

    def has_continue(self, x):
        if isinstance(x, ast.Continue):
            return True
        if isinstance(x, (ast.For, ast.While, ast.FunctionDef, ast.Lambda)):
            return any(self.has_continue(q) for q in getattr(x, 'orelse', []) or [])
        return any(self.has_continue(q) for q in ast.iter_child_nodes(x))

    def while_counted(self, s, fr, c):
        v, v0, step, n, r, bound = c

        def check():
            b = self.unw(self.ev(r, fr))
            if b is not bound and not (T.is_scalar(b) and self.ctx.quick_valid(T.toz(b) == T.toz(bound))):
                raise Unsupported('while bound changes in the loop')

        def setup(k):
            fr.env[v] = T.add(v0, T.mul(k, step)) if step != 1 else T.add(v0, k)
            check()
        brk = self.counted_loop(fr, n, setup, s)
        if not brk:
            fr.env[v] = T.add(v0, T.mul(n, step)) if step != 1 else T.add(v0, n)
            check()
            self.block(s.orelse, fr)

    def counted_loop(self, fr, n, setup, s):
        """n iterations of s.body, setup(k) first in each; True if left by break"""
        if isinstance(n, int) and n <= max(UNROLL, 16):
            for k in range(n):
                setup(k)
                try:
                    self.block(s.body, fr)
                except BreakEx:
                    return True
                except ContinueEx:
                    continue
            return False
        off = 0
        if self.peel and not isinstance(n, int):
            # first iteration on its own (a contract's request: state created by the first iteration)
            if not self.ctx.branch(n >= 1):
                return False
            setup(0)
            try:
                self.block(s.body, fr)
            except BreakEx:
                return True
            except ContinueEx:
                pass
            off, n = 1, z3.simplify(n - 1)
        return self.loop(fr, n, lambda k: setup(k + off if off else k), s.body, s)

    def s_While(self, s, fr):
        c = self.counted(s, fr)
        if c is not None:
            return self.while_counted(s, fr, c)
        # try concrete unrolling while the test is concrete
        for _ in range(64):
            snap = None
            try:
                t = self.const_test(s.test, fr)
            except Unsupported:
                t = None
            if t is None or (isinstance(s.test, ast.Constant)):
                break
            if not t:
                self.block(s.orelse, fr)
                return
            try:
                self.block(s.body, fr)
            except BreakEx:
                return
            except ContinueEx:
                continue
        else:
            raise Unsupported('long concrete while loop')
        if s.orelse:
            raise Unsupported('while-else')
        test = ast.If(test=ast.UnaryOp(ast.Not(), s.test), body=[ast.Break()], orelse=[])
        ast.copy_location(test, s)
        ast.fix_missing_locations(test)
        self.loop(fr, None, lambda k: None, [test] + list(s.body), s)

    def const_test(self, test, fr):
        """value of the test if it is concrete without forking, else None"""
        class Stop(Exception):
            pass
        try:
            saved = self.ctx.branch
            snap = self.ctx.snapshot()

            def nb(c, why=''):
                if isinstance(c, bool):
                    return c
                c = z3.simplify(c)
                if z3.is_true(c):
                    return True
                if z3.is_false(c):
                    return False
                if self.ctx.quick_valid(c):
                    return True
                if self.ctx.quick_valid(z3.Not(c)):
                    return False
                raise Stop()
            self.ctx.branch = nb
            try:
                return self.truth(self.ev(test, fr))
            except Stop:
                return None
        finally:
            del self.ctx.branch
            self.ctx.restore(snap)

    # ---- the loop rule
    def loop(self, fr, n, setup, body, node):
        from .loops import LoopRule
        return LoopRule(self, fr, n, setup, body, node).run()
