"""The loop rule.

For a loop with counter k (0 <= k < n) every location the body writes becomes a
family of values f(k) (= value before iteration k).  The body is executed once
symbolically at a generic k; the relation between f(k) and f(k+1) is turned into
a closed form (sum, product, write-once array, append-only list) when the solver
accepts it, otherwise into the recurrence f(k+1) = post(f(k)).  Candidate
invariants supplied by contracts are kept only if initiation and consecution are
proved.  Normal completion means no iteration k < n left the loop; an abnormal
exit (break / return / exception) happens at a fresh iteration k0 before which
all iterations were normal.  Partial correctness: termination is not proved.
"""
import z3
from fractions import Fraction
from . import terms as T
from .terms import Unsupported, XR
from .values import *
from .ctx import PathEnd, Rule, uf_apps

I, RL, BL = z3.IntSort(), z3.RealSort(), z3.BoolSort()
SORT = {'I': I, 'R': RL, 'B': BL}


class Tm:
    pass


class TScalar(Tm):
    def __init__(self, s, wrap=None):
        self.s, self.wrap = s, wrap       # s in I R B X ; wrap in None 'py' 'np'

    def key(self):
        return ('s', self.s, self.wrap)


def parse_text(fmt, text, n):
    """the integers i.. with fmt.format(i..) == text, or None"""
    import re
    try:
        m = re.fullmatch('(-?[0-9]+)'.join(re.escape(p) for p in fmt.format(*['\0'] * n).split('\0')), text)
    except (IndexError, KeyError, ValueError):
        return None
    g = [int(x) for x in m.groups()] if m else None
    return g if g is not None and fmt.format(*g) == text else None


class TStr(Tm):
    def key(self):
        return ('str',)


class TArr(Tm):
    def __init__(self, dims, dtype, s):
        self.dims, self.dtype, self.s = tuple(dims), dtype, s   # dims: term | 'leaf'

    def key(self):
        return ('a', tuple(d if isinstance(d, (int, str)) else d.get_id() for d in self.dims), self.dtype, self.s)


class TObj(Tm):
    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs

    def key(self):
        return ('o', getattr(self.cls, 'name', None), tuple((k, v.key()) for k, v in sorted(self.attrs.items())))


class TSeq(Tm):
    def __init__(self, kind, items):
        self.kind, self.items = kind, items     # kind: tuple list dict

    def key(self):
        if self.kind == 'dict':
            return ('q', 'dict', tuple((k, v.key()) for k, v in self.items.items()))
        return ('q', self.kind, tuple(x.key() for x in self.items))


class TStrF(Tm):
    def __init__(self, fmt, items):
        self.fmt, self.items = fmt, items

    def key(self):
        return ('f', self.fmt, tuple(x.key() for x in self.items))


class TRef(Tm):
    def __init__(self, id, content):
        self.id, self.content = id, content      # content: thunk -> by-value template

    def key(self):
        return ('r', self.id)


class TConst(Tm):
    def __init__(self, v):
        self.v = v

    def key(self):
        return ('c', id(self.v) if not isinstance(self.v, (str, type(None), bool)) else self.v)


class TJunk(Tm):
    def __init__(self, why=''):
        self.why = why

    def key(self):
        return ('j',)


class TAppend(Tm):
    """append-only list: concrete initial content + m items per iteration"""

    def __init__(self, init, items):
        self.init, self.items = init, items      # init: ListC

    def key(self):
        return ('l', id(self.init), tuple(x.key() for x in self.items))


class LoopRule:
    def __init__(self, it, fr, n, setup, body, node):
        self.it, self.fr, self.n, self.setup, self.body, self.node = it, fr, n, setup, body, node
        self.ctx = it.ctx

    # ------------------------------------------------------------ templates
    def sort_of(self, x):
        if T.special(x):
            return 'X'
        if T.is_boollike(x):
            return 'B'
        return 'I' if T.is_intlike(x) else 'R'

    def tm(self, v, depth=0):
        """template of a value in the current state"""
        it = self.it
        if depth > 6:
            return TJunk('deep')
        if isinstance(v, PyB) or isinstance(v, bool):
            return TScalar('B', 'py')
        if isinstance(v, NPB):
            return TScalar('B', 'np')
        if T.is_scalar(v):
            return TScalar(self.sort_of(v))
        if isinstance(v, StrV):
            return TStr()
        if v is None or isinstance(v, (str, FuncV, ClassV, ModV, ExtV, MethV, PyFn, OpaqueV, RangeV, IterV, IxV)):
            return TConst(v)
        if isinstance(v, StrF):
            return TStrF(v.fmt, [self.tm(x, depth + 1) for x in v.args])
        if isinstance(v, tuple):
            return TSeq('tuple', [self.tm(x, depth + 1) for x in v])
        if isinstance(v, Ref):
            if v.id < self.boundary:
                heap = self.ctx.heap
                return TRef(v.id, lambda: self.content_tm(v, heap, depth))
            return self.content_tm(v, self.ctx.heap, depth)
        return TJunk('value kind %s' % type(v).__name__)

    def content_tm(self, v, heap, depth):
        save = self.ctx.heap
        self.ctx.heap = heap
        try:
            c = heap[v.id]
            if isinstance(c, ArrC):
                if c.masks:
                    return TJunk('masked array')
                ks = [self.ctx.var('t') for _ in c.shape]
                g = []
                for q, d in zip(ks, c.shape):
                    g += [q >= 0, q < T.toz(d)]
                with self.ctx.binding(ks, *g):
                    x = self.it.elem(v)(*ks)
                return TArr([self.tdim(d) for d in c.shape], c.dtype, self.sort_of(x))
            if isinstance(c, ObjC):
                return TObj(c.cls, {k: self.tm(x, depth + 1) for k, x in c.attrs.items()})
            if isinstance(c, DictC):
                return TSeq('dict', {k: self.tm(x, depth + 1) for k, x in c.d.items()})
            if isinstance(c, ListC):
                if isinstance(c.n, int) and c.n == 0:
                    return TSeq('list', [self.tm(x, depth + 1) for x in c.tail])
                return TJunk('symbolic list by value')
            return TJunk('content')
        finally:
            self.ctx.heap = save

    def tdim(self, d):
        if isinstance(d, int):
            return d
        if self.ctx._has(d, self.k) or any(a.decl().name().startswith(self.uid) for a in uf_apps([d])):
            return 'leaf'
        return d

    def join(self, a, b):
        if a.key() == b.key():
            return a
        if isinstance(a, TJunk):
            return a
        if isinstance(b, TJunk):
            return b
        if isinstance(a, TRef) or isinstance(b, TRef):
            a2 = a.content() if isinstance(a, TRef) else a
            b2 = b.content() if isinstance(b, TRef) else b
            return self.join(a2, b2)
        if isinstance(a, TScalar) and isinstance(b, TScalar):
            if a.s == b.s:
                return TScalar(a.s, None)
            ss = {a.s, b.s}
            if 'X' in ss:
                return TScalar('X')
            if 'B' in ss:
                return TScalar('I' if 'I' in ss else 'R')
            return TScalar('R')
        if isinstance(a, TArr) and isinstance(b, TArr) and len(a.dims) == len(b.dims):
            dims = []
            for x, y in zip(a.dims, b.dims):
                if isinstance(x, str) or isinstance(y, str):
                    dims.append('leaf')
                elif isinstance(x, int) and isinstance(y, int) and x == y:
                    dims.append(x)
                elif not (isinstance(x, int) and isinstance(y, int)) and self.ctx.quick_valid(T.toz(x) == T.toz(y)):
                    dims.append(x)
                else:
                    dims.append('leaf')
            ss = {a.s, b.s}
            s = 'X' if 'X' in ss else 'R' if 'R' in ss else a.s if a.s == b.s else 'R'
            return TArr(dims, 'f' if 'f' in (a.dtype, b.dtype) else a.dtype, s)
        if isinstance(a, TObj) and isinstance(b, TObj) and getattr(a.cls, 'name', 0) == getattr(b.cls, 'name', 1):
            at = {}
            for k in set(a.attrs) | set(b.attrs):
                at[k] = self.join(a.attrs[k], b.attrs[k]) if k in a.attrs and k in b.attrs else TJunk('attribute only sometimes set')
            return TObj(a.cls, at)
        if isinstance(a, TSeq) and isinstance(b, TSeq) and a.kind == b.kind:
            if a.kind == 'dict':
                if list(a.items) == list(b.items):
                    return TSeq('dict', {k: self.join(a.items[k], b.items[k]) for k in a.items})
            elif len(a.items) == len(b.items):
                return TSeq(a.kind, [self.join(x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, TStrF) and isinstance(b, TStrF) and a.fmt == b.fmt and len(a.items) == len(b.items):
            return TStrF(a.fmt, [self.join(x, y) for x, y in zip(a.items, b.items)])
        for x, y in ((a, b), (b, a)):
            if isinstance(x, TStrF) and isinstance(y, TConst) and isinstance(y.v, str):
                g = parse_text(x.fmt, y.v, len(x.items))
                if g is not None:
                    return TStrF(x.fmt, [self.join(u, self.tm(w)) for u, w in zip(x.items, g)])
        if isinstance(a, (TStr, TStrF)) and isinstance(b, (TStr, TStrF)):
            return TStr()
        return TJunk('values of different kinds')

    # ------------------------------------------------------------ leaves
    def leaf(self, name, s, nidx):
        """uninterpreted family for one leaf: callable (k, idx...) -> scalar"""
        nm = '%s_%s' % (self.uid, name)
        lv = list(self.outer_lv)
        ctx = self.ctx
        dom = [I] * (len(lv) + 1 + nidx)
        if s == 'X':
            fv = z3.Function(nm + '.v', *(dom + [RL]))
            fc = z3.Function(nm + '.c', *(dom + [I]))

            def f(k, *ix):
                a = lv + [T.toz(k)] + [T.toz(i) for i in ix]
                return XR(fv(*a), fc(*a))
            f.decls = (fv, fc)
            ks = [ctx.var('x') for _ in range(nidx + 1)]
            c = fc(*(lv + ks))
            self.pending_rules.append((c, ks, z3.And(c >= 0, c <= 3)))
        else:
            d = z3.Function(nm, *(dom + [SORT[s]]))

            def f(k, *ix):
                return d(*(lv + [T.toz(k)] + [T.toz(i) for i in ix]))
            f.decls = (d,)
        return f

    def build(self, t, name, k, leaves):
        """value of template t at counter k; registers leaves"""
        it = self.it
        if isinstance(t, TScalar):
            f = leaves.get(name)
            if f is None:
                f = leaves[name] = self.leaf(name, t.s, 0)
            x = f(k)
            return PyB(x) if t.wrap == 'py' else NPB(x) if t.wrap == 'np' else x
        if isinstance(t, TStr):
            f = leaves.get(name)
            if f is None:
                f = leaves[name] = self.leaf(name, 'I', 0)
            return StrV(f(k))
        if isinstance(t, TArr):
            f = leaves.get(name)
            if f is None:
                f = leaves[name] = self.leaf(name, t.s, len(t.dims))
            dims = []
            for q, d in enumerate(t.dims):
                if isinstance(d, str):
                    nm = '%s.d%d' % (name, q)
                    g = leaves.get(nm)
                    if g is None:
                        g = leaves[nm] = self.leaf(nm, 'I', 0)
                    dz = g(k)
                    dims.append(dz)
                    self.pending_nonneg.append(dz)
                else:
                    dims.append(d)
            kk = k
            return it.alloc(ArrC(dims, lambda *ix: f(kk, *ix), t.dtype))
        if isinstance(t, TObj):
            return it.alloc(ObjC(t.cls, {a: self.build(x, '%s.%s' % (name, a), k, leaves) for a, x in t.attrs.items()}))
        if isinstance(t, TSeq):
            if t.kind == 'dict':
                return it.mkdict({a: self.build(x, '%s[%s]' % (name, a), k, leaves) for a, x in t.items.items()})
            vs = [self.build(x, '%s[%d]' % (name, q), k, leaves) for q, x in enumerate(t.items)]
            return tuple(vs) if t.kind == 'tuple' else it.mklist(vs)
        if isinstance(t, TStrF):
            return StrF(t.fmt, [self.build(x, '%s{%d}' % (name, q), k, leaves) for q, x in enumerate(t.items)])
        if isinstance(t, TRef):
            return Ref(t.id)
        if isinstance(t, TConst):
            return t.v
        if isinstance(t, TJunk):
            return Junk(t.why)
        raise Unsupported('template')

    def flat(self, t, v, name, out):
        """leaf expressions of value v for template t in the current state"""
        it = self.it
        if isinstance(t, (TJunk, TConst)):
            return
        if isinstance(t, TRef):
            return
        if isinstance(t, TScalar):
            out[name] = self.coerce(it.unw(v), t.s)
            return
        if isinstance(t, TStr):
            out[name] = it.strid(v).e
            return
        if isinstance(t, TArr):
            c = it.H(v)
            js = self.jvars(name, len(t.dims))
            g = []
            for j, d in zip(js, c.shape):
                g += [j >= 0, j < T.toz(d)]
            with self.ctx.binding(js, *g):
                x = it.elem(v)(*js)
            out[name] = self.coerce(x, t.s)
            for q, d in enumerate(t.dims):
                if isinstance(d, str):
                    out['%s.d%d' % (name, q)] = T.toz(c.shape[q])
            return
        if isinstance(t, TObj):
            at = it.H(v).attrs
            for a, x in t.attrs.items():
                if not isinstance(x, TJunk):
                    self.flat(x, at[a], '%s.%s' % (name, a), out)
            return
        if isinstance(t, TSeq):
            if t.kind == 'dict':
                d = it.H(v).d
                for a, x in t.items.items():
                    self.flat(x, d[a], '%s[%s]' % (name, a), out)
                return
            vs = v if isinstance(v, tuple) else it.concrete_items(v)
            for q, (x, y) in enumerate(zip(t.items, vs)):
                self.flat(x, y, '%s[%d]' % (name, q), out)
            return
        if isinstance(t, TStrF):
            for q, (x, y) in enumerate(zip(t.items, parse_text(t.fmt, v, len(t.items)) if isinstance(v, str) else v.args)):
                self.flat(x, y, '%s{%d}' % (name, q), out)
            return
        raise Unsupported('flat')

    def coerce(self, x, s):
        if s == 'X':
            return T.xr(x)
        if s == 'B':
            return T.tobool(x)
        if s == 'R':
            return T.toz(x, True)
        return T.toz(x)

    def jvars(self, name, n):
        v = self.jv.get(name)
        if v is None:
            v = self.jv[name] = [z3.Int('%s_J%d_%s' % (self.uid, q, name)) for q in range(n)]
        return v

    # ------------------------------------------------------------ locations
    def loc_name(self, loc):
        return '.'.join(str(x) for x in loc)

    def get_loc(self, loc, env, heap):
        if loc[0] == 'v':
            return env.get(loc[1], UNDEF)
        c = heap[loc[1]]
        if loc[0] == 'a':
            return c.attrs.get(loc[2], UNDEF)
        if loc[0] == 'd':
            return c.d.get(loc[2], UNDEF)
        return Ref(loc[1])       # content locations

    def put(self, loc, val):
        heap = self.ctx.heap
        if loc[0] == 'v':
            if val is UNDEF:
                self.fr.env.pop(loc[1], None)
            else:
                self.fr.env[loc[1]] = val
        elif loc[0] == 'a':
            c = heap[loc[1]]
            at = dict(c.attrs)
            if val is UNDEF:
                at.pop(loc[2], None)
            else:
                at[loc[2]] = val
            heap[loc[1]] = ObjC(c.cls, at)
        elif loc[0] == 'd':
            c = heap[loc[1]]
            d = dict(c.d)
            if val is UNDEF:
                d.pop(loc[2], None)
            else:
                d[loc[2]] = val
            heap[loc[1]] = DictC(d)
        else:
            heap[loc[1]] = heap[val.id] if isinstance(val, Ref) else val

    def written(self, env0, heap0):
        """locations that differ from the start state"""
        out = []
        env, heap = self.fr.env, self.ctx.heap
        for nme in set(env) | set(env0):
            a, b = env0.get(nme, UNDEF), env.get(nme, UNDEF)
            if a is not b and not (isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id):
                out.append(('v', nme))
        for i, c0 in heap0.items():
            c = heap.get(i)
            if c is c0:
                continue
            if i >= self.boundary:
                self.ph_written.setdefault(i, set())
                if isinstance(c, ObjC):
                    for a in set(c.attrs) | set(c0.attrs):
                        if c.attrs.get(a, UNDEF) is not c0.attrs.get(a, UNDEF):
                            self.ph_written[i].add(a)
                else:
                    self.ph_written[i].add('*')
                continue
            if isinstance(c, ObjC):
                for a in set(c.attrs) | set(c0.attrs):
                    if c.attrs.get(a, UNDEF) is not c0.attrs.get(a, UNDEF):
                        out.append(('a', i, a))
            elif isinstance(c, DictC):
                for a in list(dict.fromkeys(list(c.d) + list(c0.d))):
                    if c.d.get(a, UNDEF) is not c0.d.get(a, UNDEF):
                        out.append(('d', i, a))
            elif isinstance(c, ArrC):
                out.append(('arr', i))
            elif isinstance(c, ListC):
                out.append(('lst', i))
        return out

    # ------------------------------------------------------------ running the body
    def run_body(self, kv):
        """-> outcome: 'normal' | ('break',) | ('return', v) | ('raise', e)"""
        it = self.it
        try:
            self.setup(kv)
            it.block(self.body, self.fr)
            return ('normal',)
        except ContinueEx:
            return ('normal',)
        except BreakEx:
            return ('break',)
        except ReturnEx as r:
            return ('return', r)
        except PyRaise as e:
            return ('raise', e)

    def enter(self, k, leaves, templates):
        """put placeholders for all written locations at counter k"""
        self.ph_loc = {}
        for loc, t in templates.items():
            nm = self.loc_name(loc)
            if isinstance(t, TAppend):
                self.ctx.heap[loc[1]] = self.append_list(t, nm, k, leaves)
                continue
            if t is None:          # not defined before the loop
                self.put(loc, UNDEF)
                continue
            before = self.ctx.nextref
            v = self.build(t, nm, k, leaves)
            if isinstance(v, Ref) and v.id >= before and loc[0] in ('v', 'a', 'd'):
                self.ph_loc[v.id] = loc
            self.put(loc, v)
        for dz in self.pending_nonneg:
            self.ctx.assume(dz >= 0)
        self.pending_nonneg = []

    def append_list(self, t, nm, k, leaves):
        m = len(t.items)
        c0 = t.init
        len0 = T.add(c0.n, len(c0.tail))
        it = self.it
        total = T.add(len0, T.mul(m, k))
        if m == 1:
            self.build(t.items[0], nm + '#0', k, leaves)

        def fn(i):
            d = T.sub(i, len0)
            init_ok = not (isinstance(len0, int) and len0 == 0)

            def fresh_part(dd):
                if m == 1:
                    return self.build(t.items[0], nm + '#0', dd, leaves)
                raise Unsupported('several appends per iteration')
            if isinstance(d, int):
                return it.list_elem(c0, i) if d < 0 else fresh_part(d)
            d = z3.simplify(d)
            if not init_ok or self.ctx.quick_valid(d >= 0):
                return fresh_part(d)
            if self.ctx.quick_valid(d < 0):
                return it.list_elem(c0, i)
            # merge when possible
            if isinstance(t.items[0], (TScalar, TArr)) and isinstance(len0, int) and len0 <= 3:
                r = fresh_part(d)
                ok = True
                for q in range(len0):
                    x = it.list_elem(c0, q)
                    if not (T.is_scalar(it.unw(x)) or it.is_arr(x)):
                        ok = False
                        break
                    r = it.merge(T.toz(i) == q, x, r)
                if ok:
                    return r
            if self.ctx.branch(d < 0):
                return it.list_elem(c0, i)
            return fresh_part(d)
        return ListC(self.it.dim(total) if not isinstance(total, int) else total, fn, ())

    # ------------------------------------------------------------ main
    def run(self):
        it, ctx, fr = self.it, self.ctx, self.fr
        it.loops.append((fr.mod, fr.cls, fr.fname, getattr(self.node, 'lineno', 0)))
        n = self.n
        if n is not None and not isinstance(n, int):
            n = z3.simplify(T.toz(n))
            self.n = n
            if not ctx.quick_valid(n >= 0):
                n = z3.If(n > 0, n, z3.IntVal(0))
                self.n = n
        if n is not None and ctx.quick_valid(T.toz(n) == 0):
            return False
        self.uid = ctx.name('L').replace('!', '_')
        self.boundary = ctx.nextref
        self.outer_lv = list(ctx.loopvars)
        env0 = dict(fr.env)
        heap0 = dict(ctx.heap)
        self.k = k = z3.Int(self.uid + '_k')
        self.jv = {}
        guard = [k >= 0] + ([k < T.toz(n)] if n is not None else [])
        suffix0 = ctx.suffix
        templates = {}
        self.ph_written = {}
        junked = set()
        base_snap = ctx.snapshot()

        def start(kv, leaves, tag, assume_guard=True):
            fr.env.clear()
            fr.env.update(env0)
            self.pending_rules = []
            self.pending_nonneg = []
            ctx.suffix = suffix0 + '~' + tag + self.uid
            if assume_guard:
                for g in guard:
                    ctx.assume(g)
            self.enter(kv, leaves, templates)
            for app, vs, f in self.pending_rules:
                ctx.def_rule(app, vs, f, label='class')
            self.pending_rules = []
            for loc, tag, f in self.early:
                v = self.get_loc(loc, fr.env, ctx.heap)
                if T.is_scalar(v) and not T.is_boollike(v):
                    ctx.assume(f(v))

        # --- discovery of the written locations and their shapes
        state = {}

        def discover():
            ctx.suppress += 1
            try:
                for rnd in range(12):
                    changed = False
                    leaves = {}
                    alias = {}
                    state.clear()
                    prev = dict(templates)
                    ctx.loopvars = ctx.loopvars + [k]

                    def one():
                        start(k, leaves, 'B')
                        state['env'], state['heap'] = dict(fr.env), dict(ctx.heap)
                        return self.run_body(k)
                    for out in ctx.explore(one):
                        w = self.written(state['env'], state['heap'])
                        if out[0] != 'normal':
                            for loc in w:
                                if loc not in templates and self.get_loc(loc, env0, heap0) is UNDEF and loc[0] == 'v':
                                    pass
                            continue
                        for loc in w:
                            if loc not in prev:
                                if loc not in templates:
                                    templates[loc] = 'new'
                                changed = True
                        byref = {}
                        for loc in set(templates):
                            v = self.get_loc(loc, fr.env, ctx.heap)
                            t = self.template_for(loc, v, env0, heap0, templates.get(loc), state)
                            if loc in junked and t is not None:
                                t = TJunk('aliased')
                            old = templates.get(loc)
                            if old == 'new' or (old is None) != (t is None) or (t is not None and old.key() != t.key()):
                                templates[loc] = t
                                changed = True
                            if isinstance(v, Ref) and loc[0] in ('v', 'a', 'd') and v.id >= self.boundary:
                                byref.setdefault(v.id, []).append(loc)
                        # in-place writes to by-value placeholders
                        for i, attrs in self.ph_written.items():
                            loc = self.ph_loc.get(i)
                            if loc is None:
                                raise Unsupported('in-place update of a nested loop-carried value')
                            if '*' in attrs and self.get_loc(loc, env0, heap0) is not UNDEF and isinstance(self.get_loc(loc, env0, heap0), Ref) \
                                    and self.get_loc(loc, env0, heap0).id < self.boundary and not self.private(self.get_loc(loc, env0, heap0), env0, heap0, loc):
                                raise Unsupported('in-place update of an aliased loop-carried array')
                            for locs in byref.values():
                                if loc in locs:
                                    for o in locs:
                                        if o != loc and o not in junked:
                                            junked.add(o)
                                            changed = True
                    ctx.loopvars = self.outer_lv
                    if not changed:
                        break
                else:
                    raise Unsupported('loop analysis did not converge')
            finally:
                ctx.suppress -= 1
                ctx.loopvars = list(self.outer_lv)
                fr.env.clear()
                fr.env.update(env0)
                ctx.restore(base_snap)

        # an outermost loop met again on the same path prefix is in the same state: reuse its analysis
        cacheable = self.cacheable = not ctx.suppress and not ctx.loopvars
        ckey = (self.uid, suffix0, len(ctx.pc), tuple(f.get_id() for f, _ in ctx.pc))
        hit = it.loop_cache.get(ckey) if cacheable else None
        if hit is not None:
            templates, leaves, paths, init, abnormal, self.early, self.ph_written, self.jv = hit
            templates = dict(templates)
        else:
            self.early = []
            discover()
            if self.has_x(templates):
                self.find_early(start, k, templates, env0, heap0, base_snap)
                if self.early:
                    templates.clear()
                    junked.clear()
                    self.ph_written = {}
                    discover()

            # --- final symbolic pass: leaf expressions of every normal path
            ctx.suppress += 1
            leaves = {}
            paths = []
            abnormal = 0
            init = {}
            nleaf = {}
            try:
                # initial leaf values
                for loc, t in templates.items():
                    if t is None or isinstance(t, TAppend):
                        continue
                    self.flat(t, self.get_loc(loc, env0, heap0), self.loc_name(loc), init)
                base_pc, base_rules, base_calls = len(ctx.pc), len(ctx.rules), len(ctx.calls)
                base_rng, base_ev = len(ctx.rng), len(ctx.events)
                ctx.loopvars = ctx.loopvars + [k]

                def one():
                    start(k, leaves, 'B')
                    self.mark = (len(ctx.pc), len(ctx.rules), len(ctx.calls))
                    state['env'], state['heap'] = dict(fr.env), dict(ctx.heap)
                    return self.run_body(k)
                for out in ctx.explore(one):
                    if out[0] != 'normal':
                        abnormal += 1
                        continue
                    post = {}
                    undef = {}
                    for loc, t in templates.items():
                        v = self.get_loc(loc, fr.env, ctx.heap)
                        nm = self.loc_name(loc)
                        if t is None:
                            undef[loc] = (v, dict(ctx.heap))
                            continue
                        if isinstance(t, TAppend):
                            c = ctx.heap[loc[1]]
                            for q, x in enumerate(t.items):
                                self.flat(x, c.tail[q], '%s#%d' % (nm, q), post)
                            continue
                        self.flat(t, v, nm, post)
                    m0, m1, m2 = self.mark
                    br = [f for f, kd in ctx.pc[m0:] if kd == 'br']
                    fa = [f for f, kd in ctx.pc[m0:] if kd != 'br']
                    paths.append(dict(br=br, fa=fa, rules=list(ctx.rules[m1:]), calls=list(ctx.calls[m2:]), post=post, undef=undef,
                                      rng=ctx.rng[base_rng:], events=ctx.events[base_ev:], heap=dict(ctx.heap), env=dict(fr.env)))
            finally:
                ctx.suppress -= 1
                ctx.loopvars = list(self.outer_lv)
                fr.env.clear()
                fr.env.update(env0)
                ctx.restore(base_snap)
            if cacheable:
                it.loop_cache[ckey] = (dict(templates), leaves, paths, init, abnormal, self.early, self.ph_written, self.jv)
            ctx.keep += [f for f, _ in ctx.pc]
        # keep class rules of 'X' leaves
        class_rules = []
        for nm, f in leaves.items():
            if len(f.decls) == 2:
                fc = f.decls[1]
                ar = fc.arity() - len(self.outer_lv)
                ks = [z3.Int('%s_x%d' % (self.uid, q)) for q in range(ar)]
                a = fc(*(self.outer_lv + ks))
                class_rules.append((a, ks, z3.And(a >= 0, a <= 3)))
        for a, ks, f in class_rules:
            ctx.def_rule(a, ks, f, label='class')
        self.leaves, self.init, self.paths, self.templates = leaves, init, paths, templates
        self.env0, self.heap0, self.guard = env0, heap0, guard
        # calls must stay known
        seen = {c[1].decl().name() for c in ctx.calls}
        for p in paths:
            for c in p['calls']:
                if c[1].decl().name() not in seen:
                    ctx.calls.append(c)
                    seen.add(c[1].decl().name())

        # --- how does the loop end
        mode = 'normal'
        if n is None:
            if not abnormal:
                raise PathEnd('infinite loop')
            mode = 'abnormal'
        elif abnormal:
            # inside the body of another loop the way this one ends is a function of the outer counters, and part of the path condition
            sel = ctx.fresh('ends', BL) if ctx.loopvars else None
            mode = 'normal' if ctx.choose(2) == 0 else 'abnormal'
            if sel is not None:
                ctx.assume(sel if mode == 'normal' else z3.Not(sel), 'br')
        if mode == 'abnormal':
            k0 = ctx.fresh('k0', I)
            ctx.assume(k0 >= 0)
            if n is not None:
                ctx.assume(k0 < T.toz(n))
            limit = k0
        else:
            limit = T.toz(n)
        if mode == 'abnormal' and not paths:
            ctx.assume(k0 == 0)
        if mode == 'normal' and not paths:
            ctx.assume(limit == 0)
            if not ctx.feasible():
                raise PathEnd('no normal path')
        self.limit = limit
        self.install(limit)
        for loc, tag, f in self.early:
            if loc not in templates:
                continue
            fx = self.leaves.get(self.loc_name(loc))
            if fx is not None:
                v = fx(k)
                ctx.add_rule([k], z3.Implies(z3.And(k >= 0, k <= T.toz(limit)), f(v)), label='mono')
        self.invariants(limit, start)
        if mode == 'abnormal' and n is None and paths and not getattr(it, 'hoare', False) and not any(z3.is_true(c) for c in self.conds):
            # the iteration before the last one ran to its end
            ctx.assume(z3.Implies(k0 > 0, z3.substitute(z3.Or(*self.conds), (k, k0 - 1))))
        if paths and it.check_bodies and not ctx.suppress:
            self.check_body(start, limit)
        if mode == 'abnormal':
            suf = ctx.suffix
            lv = {}
            ctx.suffix = suf + '~X' + self.uid
            fr.env.clear()
            fr.env.update(env0)
            self.pending_rules, self.pending_nonneg = [], []
            if ctx.quick_valid(k0 == 0):
                k0 = z3.IntVal(0)
                self.restore_init()
            else:
                self.enter(k0, self.leaves, templates)
            rid = ctx.nextref
            self.taint()
            out = self.run_body(0 if z3.is_int_value(k0) else k0)
            if out[0] == 'normal':
                raise PathEnd('iteration ended normally')
            ctx.events.append(('loop', self, limit))
            if not ctx.feasible():
                raise PathEnd('infeasible exit')
            if out[0] == 'break':
                return True
            raise out[1]
        # normal completion: state at k = n
        if any(t is None for t in templates.values()) and not ctx.quick_valid(limit > 0):
            nz = ctx.branch(limit > 0)
        else:
            nz = not ctx.quick_valid(limit == 0)
        self.pending_rules, self.pending_nonneg = [], []
        fr.env.clear()
        fr.env.update(env0)
        if not nz:
            self.restore_init()
            return False
        self.enter(limit, self.leaves, templates)
        for loc, t in templates.items():
            if t is None:
                self.put(loc, self.undef_value(loc, limit))
        self.taint()
        ctx.events.append(('loop', self, limit))
        return False

    def has_x(self, templates):
        def go(t):
            if isinstance(t, (TScalar, TArr)):
                return t.s == 'X'
            if isinstance(t, TSeq):
                return any(go(x) for x in (t.items.values() if isinstance(t.items, dict) else t.items))
            if isinstance(t, TObj):
                return any(go(x) for x in t.attrs.values())
            if isinstance(t, TAppend):
                return any(go(x) for x in t.items)
            return False
        return any(go(t) for t in templates.values())

    def find_early(self, start, k, templates, env0, heap0, base_snap):
        """monotone scalar bounds, proved inductive before the values are summarised"""
        it, ctx, fr = self.it, self.ctx, self.fr
        cands = []
        for loc, t in templates.items():
            if not isinstance(t, TScalar) or t.s == 'B' or t.wrap:
                continue
            i0 = self.get_loc(loc, env0, heap0)
            if not T.is_scalar(i0) or T.special(i0) or T.is_boollike(i0):
                continue
            cands.append((loc, 'ge', lambda v, i0=i0: T.tobool(T.le(i0, v))))
            cands.append((loc, 'le', lambda v, i0=i0: T.tobool(T.le(v, i0))))
        ctx.suppress += 1
        try:
            while cands:
                self.early = list(cands)
                bad = set()
                ctx.loopvars = ctx.loopvars + [k]
                leaves = {}

                def one():
                    start(k, leaves, 'E')
                    return self.run_body(k)
                for out in ctx.explore(one):
                    if out[0] != 'normal':
                        continue
                    for q, (loc, tag, f) in enumerate(cands):
                        if q in bad:
                            continue
                        v = self.get_loc(loc, fr.env, ctx.heap)
                        if not T.is_scalar(v) or T.is_boollike(v) or ctx.check_sat([z3.Not(f(v))], timeout=1500, rounds=1, lemmas=False) != z3.unsat:
                            bad.add(q)
                ctx.loopvars = list(self.outer_lv)
                ctx.restore(base_snap)
                if not bad:
                    break
                cands = [c for q, c in enumerate(cands) if q not in bad]
            self.early = list(cands)
        except Unsupported:
            self.early = []
        finally:
            ctx.suppress -= 1
            ctx.loopvars = list(self.outer_lv)
            fr.env.clear()
            fr.env.update(env0)
            ctx.restore(base_snap)

    def restore_init(self):
        for loc, t in self.templates.items():
            if loc[0] in ('arr', 'lst'):
                self.ctx.heap[loc[1]] = self.heap0[loc[1]]
            else:
                self.put(loc, self.get_loc(loc, self.env0, self.heap0))

    def private(self, ref, env0, heap0, loc):
        """no other location of the start state refers to this cell"""
        cnt = 0
        for nme, v in env0.items():
            if isinstance(v, Ref) and v.id == ref.id and ('v', nme) != loc:
                return False
        for f in self.it.frames:
            if f is not self.fr:
                for v in f.env.values():
                    if isinstance(v, Ref) and v.id == ref.id:
                        return False
        for i, c in heap0.items():
            vals = c.attrs.items() if isinstance(c, ObjC) else c.d.items() if isinstance(c, DictC) else enumerate(c.tail) if isinstance(c, ListC) else ()
            for a, v in vals:
                if isinstance(v, Ref) and v.id == ref.id and loc[1:] != (i, a):
                    return False
            if isinstance(c, ArrC) and c.view and c.view[0] == ref.id:
                return False
        return True

    def taint(self):
        """original cells that were captured by value and written through the capture"""
        for i, attrs in self.ph_written.items():
            pass
        for loc, t in self.templates.items():
            if t is None or loc[0] not in ('v', 'a', 'd') or isinstance(t, (TRef, TAppend)):
                continue
            v0 = self.get_loc(loc, self.env0, self.heap0)
            if isinstance(v0, Ref) and v0.id < self.boundary and isinstance(self.heap0.get(v0.id), ObjC) and isinstance(t, TObj):
                wr = set()
                for i, attrs in self.ph_written.items():
                    wr |= attrs
                wr.discard('*')
                if wr:
                    c = self.ctx.heap[v0.id]
                    at = dict(c.attrs)
                    for a in wr:
                        if a in at:
                            at[a] = Junk('object was also updated through a loop-carried reference')
                    self.ctx.heap[v0.id] = ObjC(c.cls, at)

    def template_for(self, loc, v, env0, heap0, old, state):
        if loc[0] == 'arr':
            c0, c = heap0[loc[1]], self.ctx.heap[loc[1]]
            t0 = self.content_tm(Ref(loc[1]), heap0, 0)
            t1 = self.content_tm(Ref(loc[1]), self.ctx.heap, 0)
            t = self.join(t0, t1)
            if isinstance(old, TArr):
                t = self.join(old, t)
            if isinstance(t, TArr):
                t = TArr(c0.shape, c0.dtype, t.s)
            return t
        if loc[0] == 'lst':
            c0, c = heap0[loc[1]], self.ctx.heap[loc[1]]
            pre = state['heap'][loc[1]]
            if c.soa is not None or pre.soa is not None:
                return TJunk('record list')
            if c.fn is not pre.fn or (c.n is not pre.n and not (isinstance(c.n, int) and c.n == pre.n)) or c.tail[:len(pre.tail)] != pre.tail:
                if isinstance(c0.n, int) and c0.n == 0 and isinstance(c.n, int) and c.n == 0 and len(c.tail) == len(c0.tail):
                    raise Unsupported('in-place update of list items in a loop')
                raise Unsupported('list update in a loop')
            added = c.tail[len(pre.tail):]
            if isinstance(old, TAppend):
                if len(added) != len(old.items):
                    raise Unsupported('varying number of appends')
                return TAppend(c0, [self.join(a, self.tm(b)) for a, b in zip(old.items, added)])
            if len(added) == 0:
                return TJunk('conditionally appended list')
            return TAppend(c0, [self.tm(b) for b in added])
        v0 = self.get_loc(loc, env0, heap0)
        if v0 is UNDEF:
            return None
        if v is UNDEF:
            return TJunk('deleted')
        save = self.ctx.heap
        self.ctx.heap = dict(heap0)
        try:
            t0 = self.tm(v0)
        finally:
            self.ctx.heap = save
        t = self.join(t0, self.tm(v))
        if old not in (None, 'new'):
            t = self.join(old, t)
        # objects referenced by a changing location are captured by value; keep TRef only if stable
        return t

    def undef_value(self, loc, limit):
        """value after the loop of a variable first defined in the body"""
        ctx, it = self.ctx, self.it
        last = z3.simplify(limit - 1)
        vals = []
        for p in self.paths:
            v, heap = p['undef'][loc]
            if v is UNDEF:
                return Junk('conditionally defined')
            vals.append((z3.And(*p['br']) if p['br'] else z3.BoolVal(True), v, heap))
        ts = []
        save = ctx.heap
        for _, v, h in vals:
            ctx.heap = dict(h)
            try:
                t = self.tm(v)
            finally:
                ctx.heap = save
            ts.append(t)
        t = ts[0]
        for x in ts[1:]:
            t = self.join(t, x)
        if isinstance(t, TRef):
            return Ref(t.id)
        if isinstance(t, (TConst,)):
            return t.v
        if isinstance(t, TScalar):
            r = None
            for c, v, h in reversed(vals):
                x = self.coerce(it.unw(v), t.s)
                r = x if r is None else T.ite(c, x, r)
            r = T.subst(r, [(self.k, last)])
            return PyB(r) if t.wrap == 'py' else NPB(r) if t.wrap == 'np' else r
        if isinstance(t, TArr) and not any(isinstance(d, str) for d in t.dims):
            es = []
            for c, v, h in vals:
                ctx.heap = dict(h)
                try:
                    es.append((c, it.elem(v)))
                finally:
                    ctx.heap = save

            def el(*ix):
                r = None
                for c, e in reversed(es):
                    x = self.coerce(e(*ix), t.s)
                    r = x if r is None else T.ite(c, x, r)
                return T.subst(r, [(self.k, last)])
            return it.alloc(ArrC(t.dims, el, t.dtype))
        return Junk('first defined in a loop')

    # ------------------------------------------------------------ definitions
    def install(self, limit):
        ctx, k = self.ctx, self.k
        lim = T.toz(limit)
        inr = z3.And(k >= 0, k < lim)
        paths = self.paths
        conds = [z3.And(*p['br']) if len(p['br']) > 1 else p['br'][0] if p['br'] else z3.BoolVal(True) for p in paths]
        self.conds = conds
        if getattr(self.it, 'hoare', False):     # state summarised by the stated invariants only
            return
        # facts of the body
        for p, c in zip(paths, conds):
            g = inr if z3.is_true(c) else z3.And(inr, c)
            for f in p['fa']:
                self.gen_rule([k], z3.Implies(g, f), 'body')
            for r in p['rules']:
                vs = list(r.vars)
                if ctx._has(r.formula, k) or not z3.is_true(c):
                    nr = Rule(vs + [k], z3.Implies(g, r.formula), label=r.label)
                    if r.trigs and not nr.trigs:
                        nr.trigs = r.trigs
                    ctx.rules.append(nr)
                else:
                    ctx.rules.append(r)
        if paths and not any(z3.is_true(c) for c in conds):
            self.gen_rule([k], z3.Implies(inr, z3.Or(*conds)), 'cover')
        # definitions
        self.mcache = {}
        for nm, f in self.leaves.items():
            for d in f.decls:
                ctx.closed_defs.pop(d.name(), None)
        for nm, f in self.leaves.items():
            if '#' in nm:
                self.def_append(nm, f, lim)
                continue
            if nm not in self.init:
                continue
            self.define(nm, f, lim)

    def gen_rule(self, vs, f, label):
        if self.ctx._has(f, vs[0]):
            f0 = f
            r = Rule(vs, f0, label=label)
            self.ctx.rules.append(r)
        else:
            self.ctx.assume(f)

    def expand(self, x):
        """replace values of inner loops by their closed forms"""
        if isinstance(x, XR):
            return T.mkxr(self.expand_z(x.v), self.expand_z(x.c))
        return self.expand_z(x) if z3.is_expr(x) else x

    def expand_z(self, e):
        cd = self.ctx.closed_defs
        for _ in range(6):
            pairs = []
            for a in uf_apps([e]):
                d = cd.get(a.decl().name())
                if d is None or not self.ctx._has(a, self.k):
                    continue
                params, rhs, guard = d
                sub = list(zip(params, a.children()))
                g = z3.substitute(guard, *sub)
                snap = len(self.ctx.pc)
                for q in self.guard:
                    self.ctx.pc.append((q, 'as'))
                ok = self.ctx.quick_valid(g)
                del self.ctx.pc[snap:]
                if ok:
                    pairs.append((a, z3.substitute(rhs, *sub)))
            if not pairs:
                return e
            e = z3.substitute(e, *pairs)
        return e

    def merged(self, nm):
        if nm in self.mcache:
            return self.mcache[nm]
        r = self.mcache[nm] = self._merged(nm)
        return r

    def _merged(self, nm):
        r = None
        for p, c in reversed(list(zip(self.paths, self.conds))):
            x = p['post'].get(nm)
            if x is None:
                return None
            x = self.expand(x)
            if z3.is_expr(x):
                x = z3.simplify(x)
            p['post'][nm] = x
            r = x if r is None else T.ite(c, x, r)
        return r

    def eqf(self, a, b):
        """z3 equality of two leaf scalars"""
        if isinstance(a, XR) or isinstance(b, XR):
            a, b = T.xr(a), T.xr(b)
            return z3.And(a.c == b.c, a.v == b.v)
        if T.is_boollike(a) and T.is_boollike(b):
            return T.tobool(a) == T.tobool(b)
        x, y = T._coerce2(a, b)
        return x == y

    def has_uf(self, e, f):
        names = {d.name() for d in f.decls}
        es = [e.v, e.c] if isinstance(e, XR) else [e]
        return any(a.decl().name() in names for a in uf_apps([x for x in es if z3.is_expr(x)]))

    def def_append(self, nm, f, lim):
        post = self.merged(nm)
        if post is None:
            return
        js = self.jv.get(nm, [])
        lhs = f(self.k, *js)
        self.def_eq(lhs, [self.k] + list(js), z3.Implies(z3.And(self.k >= 0, self.k < lim), self.eqf(lhs, post)), f)

    def def_eq(self, lhs, vs, formula, f):
        if isinstance(lhs, XR):
            self.ctx.def_rule(lhs.v, vs, formula, 'def')
            self.ctx.def_rule(lhs.c, vs, formula, 'def')
        else:
            self.ctx.def_rule(lhs, vs, formula, 'def')

    def define(self, nm, f, lim):
        ctx, k = self.ctx, self.k
        js = list(self.jv.get(nm, []))
        i0 = self.init[nm]
        post = self.merged(nm)
        if post is None:
            return
        pre = f(k, *js)
        inr1 = z3.And(k >= 0, k <= lim)
        # value does not depend on the previous one and only on k
        if not self.has_uf(post, f):
            rhs = T.ite(k >= 1, T.subst(post, [(k, k - 1)]), i0)
            self.close(pre, js, rhs, inr1, f)
            return self.def_eq(pre, [k] + js, z3.Implies(inr1, self.eqf(pre, rhs)), f)
        if js:
            r = self.write_once(nm, f, js, post, pre, i0, lim)
            if r is not None:
                self.close(pre, js, r, inr1, f)
                return self.def_eq(pre, [k] + js, z3.Implies(inr1, self.eqf(pre, r)), f)
        r = self.sum_form(nm, f, js, pre, i0)
        if r is not None:
            self.close(pre, js, r, inr1, f)
            return self.def_eq(pre, [k] + js, z3.Implies(inr1, self.eqf(pre, r)), f)
        r = self.prod_form(nm, f, js, pre, i0)
        if r is not None:
            self.close(pre, js, r, inr1, f)
            return self.def_eq(pre, [k] + js, z3.Implies(inr1, self.eqf(pre, r)), f)
        # recurrence
        rhs = T.ite(k >= 1, T.subst(post, [(k, k - 1)]), i0)
        self.def_eq(pre, [k] + js, z3.Implies(inr1, self.eqf(pre, rhs)), f)

    def close(self, pre, js, rhs, guard, f):
        cd = self.ctx.closed_defs
        if self.has_uf(T.xr(rhs) if isinstance(pre, XR) else rhs if z3.is_expr(rhs) else z3.IntVal(0), f):
            return
        if isinstance(pre, XR):
            rhs = T.xr(rhs)
            for a, b in ((pre.v, rhs.v), (pre.c, rhs.c)):
                cd[a.decl().name()] = (a.children(), b, guard)
        else:
            b = rhs if z3.is_expr(rhs) else None
            if T.is_boollike(pre):
                b = T.tobool(rhs)
            else:
                b = T.toz(rhs, z3.is_real(pre))
            if b.sort() != pre.sort():
                return
            cd[pre.decl().name()] = (pre.children(), b, guard)
        self.ctx.keep += [rhs, guard, pre]

    def sum_form(self, nm, f, js, pre, i0):
        ctx, k = self.ctx, self.k
        if isinstance(pre, XR) or T.is_boollike(pre):
            return None
        d = None
        for p, c in reversed(list(zip(self.paths, self.conds))):
            x = z3.simplify(T.toz(p['post'][nm]) - T.toz(pre), som=True)
            if self.has_uf(x, f):
                return None
            d = x if d is None else T.ite(c, x, d)
        isint = z3.is_int(T.toz(pre))
        s = ctx.mk_sum(k, lambda t: T.subst(d, [(k, T.toz(t))]))
        if isint:
            if isinstance(s, int) or (z3.is_expr(s) and z3.is_int(s)):
                return T.add(i0, s)
            # integer valued sum: keep as real equation through a recurrence as well
            dd = z3.simplify(d)
            if z3.is_int_value(dd):
                return T.add(i0, T.mul(dd.as_long(), k))
            return None
        return T.add(i0, s)

    def prod_form(self, nm, f, js, pre, i0):
        ctx, k = self.ctx, self.k
        if isinstance(pre, XR) or T.is_boollike(pre) or z3.is_int(T.toz(pre)):
            return None
        d = None
        for p, c in reversed(list(zip(self.paths, self.conds))):
            x = p['post'][nm]
            if isinstance(x, XR):
                return None
            z0 = z3.simplify(z3.substitute(x, (pre, z3.RealVal(0))), som=True)
            if not (z3.is_rational_value(z0) and z0.as_fraction() == 0):
                return None
            c1 = z3.simplify(z3.substitute(x, (pre, z3.RealVal(1))))
            if self.has_uf(c1, f):
                return None
            rest = z3.simplify(x - pre * c1, som=True)
            if not (z3.is_rational_value(rest) and rest.as_fraction() == 0):
                return None
            d = c1 if d is None else T.ite(c, c1, d)
        try:
            s = ctx.mk_prod(k, lambda t: T.subst(d, [(k, T.toz(t))]))
        except Unsupported:
            return None
        return T.mul(i0, s)

    def write_once(self, nm, f, js, post, pre, i0, lim):
        """array element written in at most one iteration"""
        ctx, k = self.ctx, self.k
        cands = self.candidates(post, js)
        if not cands:
            return None
        dims = self.dims_of(nm)
        snap = ctx.snapshot()
        try:
            ctx.assume(z3.And(k >= 0, k < lim))
            for j, d in zip(js, dims):
                ctx.assume(z3.And(j >= 0, j < T.toz(d)))
            same = self.eqf(post, pre)
            good = None
            for t in cands:
                r = ctx.check_sat([k != t, z3.Not(same)], timeout=2500, rounds=1, lemmas=False)
                if r == z3.unsat:
                    good = t
                    break
        finally:
            ctx.restore(snap)
        if good is None:
            return None
        at = T.subst(post, [(k, good)])
        own = f(good, *js)
        pairs = []
        if isinstance(own, XR):
            iv = T.xr(i0)
            at = T.mkxr(z3.substitute(T.xr(at).v, (own.v, iv.v), (own.c, iv.c)), z3.substitute(T.xr(at).c, (own.v, iv.v), (own.c, iv.c)))
        else:
            at = T.subst(at, [(own, self.coerce(i0, {'Int': 'I', 'Real': 'R', 'Bool': 'B'}[str(own.sort())]))])
        return T.ite(z3.And(good >= 0, good < k), at, i0)

    def dims_of(self, nm):
        for loc, t in self.templates.items():
            base = self.loc_name(loc)
            if base == nm and isinstance(t, TArr):
                return [d if not isinstance(d, str) else 10 ** 9 for d in t.dims]
        return [z3.IntVal(10 ** 9)] * len(self.jv[nm])

    def candidates(self, post, js):
        k = self.k
        es = [post.v, post.c] if isinstance(post, XR) else [post]
        seen, out, ids = set(), [], set()
        stack = list(es)
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_eq(x) and z3.is_int(x.arg(0)) and self.ctx._has(x, k):
                t = self.solve(x.arg(0) - x.arg(1))
                if t is not None and t.get_id() not in ids and any(self.ctx._has(t, j) for j in js):
                    ids.add(t.get_id())
                    out.append(t)
            stack.extend(x.children())
        out = out[:4]
        res = list(out)
        for a in range(len(out)):
            for b in range(a + 1, len(out)):
                res.append(z3.If(out[a] >= out[b], out[a], out[b]))
                res.append(z3.If(out[a] <= out[b], out[a], out[b]))
        return res

    def solve(self, d):
        """d == 0 solved for k when the coefficient of k is +-1"""
        k = self.k
        z0 = z3.simplify(z3.substitute(d, (k, z3.IntVal(0))))
        c = z3.simplify(z3.substitute(d, (k, z3.IntVal(1))) - z0)
        if not z3.is_int_value(c) or abs(c.as_long()) != 1:
            return None
        if not z3.is_int_value(z3.simplify(d - z0 - c * k)):
            return None
        return z3.simplify(-z0 if c.as_long() == 1 else z0)

    # ------------------------------------------------------------ invariants
    def invariants(self, limit, start):
        """candidate invariants from contracts: kept if initiation and consecution are proved"""
        it, ctx, fr, k = self.it, self.ctx, self.fr, self.k
        cands = getattr(it, 'loop_invs', None) or []
        if not cands:
            return
        for ci, cand0 in enumerate(cands):
            snap = ctx.snapshot()
            ikey = ('inv', ci, self.uid, ctx.suffix, tuple(f.get_id() for f, _ in ctx.pc))
            hit = it.loop_cache.get(ikey) if self.cacheable else None
            if hit is not None:
                for vs, f, lab in hit:
                    ctx.add_rule(vs, f, label='inv:' + lab)
                continue
            ctx.keep += [f for f, _ in ctx.pc]
            it.loop_cache[ikey] = []
            dead, alive = set(), None

            def cand(it, fr, k):
                return [x for x in cand0(it, fr, k) or [] if '~' not in x[0] or (x[0] not in dead and (alive is None or x[0] in alive))]
            ok = None
            while ok is None:
                ok, rules, bad, present = self.try_invariant(cand, limit, snap)
                if bad and all('~' in x for x in bad):
                    dead |= bad
                    ok = None
                elif bad:
                    ok = False
                if alive is None and present:
                    alive = present
            if ok:
                it.loop_cache[ikey] = list(rules)
                for vs, f, lab in rules:
                    ctx.add_rule(vs, f, label='inv:' + lab)
                    it.inv_log.append((lab, 'kept', 'proved'))

    def try_invariant(self, cand, limit, snap):
        """one round: (all proved, rules, labels that failed, labels present at loop entry)"""
        it, ctx, fr, k = self.it, self.ctx, self.fr, self.k
        ctx.suppress += 1
        rules, bad, present = [], set(), set()
        try:
            fr.env.clear()
            fr.env.update(self.env0)
            self.restore_init()
            i0 = cand(it, fr, 0)
            if not i0:
                return False, rules, bad, present
            present = {lab for lab, vs, f in i0}

            def need(lab, f, what):
                if lab in bad:
                    return
                st = ctx.prove(f)[0]
                if st != 'proved':
                    bad.add(lab)
                    it.inv_log.append((lab, what, st))
            for lab, vs, f in i0:
                need(lab, f, 'initiation')
                if bad and '~' not in lab:
                    return False, rules, bad, present
            if bad:
                return False, rules, bad, present
            ctx.restore(snap)
            self.pending_rules, self.pending_nonneg = [], []
            fr.env.clear()
            fr.env.update(self.env0)
            ctx.loopvars = ctx.loopvars + [k]
            self.enter(k, self.leaves, self.templates)
            fs = cand(it, fr, k)
            ctx.loopvars = list(self.outer_lv)
            fs = [x for x in fs if x[0] in present]
            lost = {x for x in present if '~' in x} - {x[0] for x in fs}
            if not fs or lost:
                return False, rules, lost, present
            for lab, vs, f in fs:
                rules.append(([k] + list(vs), z3.Implies(z3.And(k >= 0, k <= limit), T.tobool(f)), lab))
            # consecution
            ctx.restore(snap)
            ctx.assume(k < T.toz(limit))
            ctx.loopvars = ctx.loopvars + [k]

            def one():
                ctx.suffix = ctx.suffix + '~I' + self.uid
                fr.env.clear()
                fr.env.update(self.env0)
                self.pending_rules, self.pending_nonneg = [], []
                for g in self.guard:
                    ctx.assume(g)
                self.enter(k, self.leaves, self.templates)
                for loc, tag, f in self.early:
                    v = self.get_loc(loc, fr.env, ctx.heap)
                    if T.is_scalar(v) and not T.is_boollike(v):
                        ctx.assume(f(v))
                for lab, vs, f in cand(it, fr, k) or []:
                    if lab in present:
                        ctx.add_rule(list(vs), f, label='inv') if vs else ctx.assume(f)
                return self.run_body(k)
            for out in ctx.explore(one):
                if out[0] != 'normal':
                    continue
                res = cand(it, fr, k + 1)
                have = {x[0] for x in res}
                gone = present - have
                if gone:
                    bad |= gone
                    it.inv_log.extend((x, 'consecution', 'lost') for x in gone)
                for lab, vs, f in res:
                    if lab in present:
                        need(lab, f, 'consecution')
                    if bad and '~' not in lab:
                        break
                if bad and not all('~' in x for x in bad):
                    break
            return not bad, rules, bad, present
        finally:
            ctx.suppress -= 1
            ctx.loopvars = list(self.outer_lv)
            ctx.restore(snap)
            fr.env.clear()
            fr.env.update(self.env0)

    def check_body(self, start, limit):
        it, ctx, fr, k = self.it, self.ctx, self.fr, self.k
        bkey = ('body', self.uid, ctx.suffix, tuple(f.get_id() for f, _ in ctx.pc))
        if self.cacheable and bkey in it.loop_cache:
            return
        it.loop_cache[bkey] = True
        ctx.keep += [f for f, _ in ctx.pc]
        snap = ctx.snapshot()
        ctx.loopvars = ctx.loopvars + [k]
        try:
            def one():
                start(k, self.leaves, 'C')
                ctx.assume(k < T.toz(limit))
                return self.run_body(k)
            for out in ctx.explore(one):
                pass
        finally:
            ctx.loopvars = list(self.outer_lv)
            ctx.restore(snap)
            fr.env.clear()
            fr.env.update(self.env0)
