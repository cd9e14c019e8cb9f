"""Verification context: path condition, quantified rules, sums, solver back ends."""
import itertools
import subprocess
import tempfile
import os
import time
import z3
from . import terms as T
from .terms import Unsupported

I = z3.IntSort()
RL = z3.RealSort()
BL = z3.BoolSort()


class PathEnd(Exception):
    """The current path is finished (infeasible or closed by a loop rule)."""


class EngineLimit(Exception):
    pass


def free_consts(e, acc=None, seen=None):
    """uninterpreted constants in e in order of first occurrence"""
    acc = [] if acc is None else acc
    seen = set() if seen is None else seen
    stack = [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.append(x)
        else:
            stack.extend(reversed(x.children()))
    return acc


_UF = {}


def _uf1(e):
    i = e.get_id()
    c = _UF.get(i)
    if c is not None:
        return c[1]
    seen = set()
    out = []
    stack = [e]
    while stack:
        x = stack.pop()
        i2 = x.get_id()
        if i2 in seen:
            continue
        seen.add(i2)
        if not z3.is_app(x):
            continue
        if x.num_args():
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(x)
            stack.extend(x.children())
    _UF[i] = (e, out)
    return out


def uf_apps(es):
    """applications of uninterpreted functions in the given formulas (each once)"""
    if len(_UF) > 200000:
        _UF.clear()
    es = list(es)
    if len(es) == 1:
        return list(_uf1(es[0]))
    seen = set()
    out = []
    for e in reversed(es):
        for x in _uf1(e):
            i = x.get_id()
            if i not in seen:
                seen.add(i)
                out.append(x)
    return out


class Rule:
    """forall vars. formula   (instantiated by matching its triggers)"""
    __slots__ = ('vars', 'formula', 'trigs', 'label', 'vids')

    def __init__(self, vars, formula, trigs=None, label=''):
        self.vars = list(vars)
        self.formula = formula
        self.label = label
        self.vids = {v.get_id(): n for n, v in enumerate(self.vars)}
        self.trigs = trigs if trigs is not None else self.auto()

    def pat(self, app):
        """-> list of (argpos, varidx, offset) or None"""
        out = []
        for pos, a in enumerate(app.children()):
            i = a.get_id()
            if i in self.vids:
                out.append((pos, self.vids[i], 0))
            elif z3.is_add(a) and a.num_args() == 2:
                c, d = a.children()
                if z3.is_int_value(c):
                    c, d = d, c
                if z3.is_int_value(d) and c.get_id() in self.vids:
                    out.append((pos, self.vids[c.get_id()], d.as_long()))
            elif z3.is_sub(a) and a.num_args() == 2:
                c, d = a.children()
                if z3.is_int_value(d) and c.get_id() in self.vids:
                    out.append((pos, self.vids[c.get_id()], -d.as_long()))
        return out

    def auto(self):
        full, part = [], []
        for app in uf_apps([self.formula]):
            p = self.pat(app)
            cov = {v for _, v, _ in p}
            if not cov:
                continue
            key = (app.decl().name(), app.num_args(), tuple(p))
            if len(cov) == len(self.vars):
                full.append(key)
            else:
                part.append((cov, key))
        if full:
            return [[k] for k in dict.fromkeys(full)]
        # greedy multi-pattern
        need = set(range(len(self.vars)))
        pick = []
        for cov, key in sorted(part, key=lambda t: -len(t[0])):
            if cov & need:
                pick.append(key)
                need -= cov
            if not need:
                return [pick]
        return []      # fall back on all int terms


class Ctx:
    def __init__(self, timeout_ms=8000):
        self.timeout = timeout_ms
        self.global_sums = {}      # key -> (decl, params, bvar, body, n)   (persist over paths: hash-consed)
        self.sum_by_name = {}
        self.prod_names = set()
        self.keep = []             # keep z3 asts alive (ids are reused otherwise)
        self.stats = dict(queries=0, solver_s=0.0, cvc5=0, z3=0)
        self.cache = {}
        self.pcache = {}
        self.closed_defs = {}      # loop value name -> (params, closed form, guard)
        self.reset()

    # ------------------------------------------------------------ path state
    def reset(self):
        self.pc = []               # (formula, kind)
        self.rules = []
        self.calls = []            # extensional calls (name, id const, args)
        self.counter = 0
        self.suffix = ''
        self.loopvars = []
        self.heap = {}
        self.nextref = 1
        self.rng = []              # recorded draws
        self.events = []           # recorded external calls (model/prior evaluation, i/o ...)
        self.frozen = []
        self.sumrw = []
        self.dec = []
        self.pos = 0
        self.suppress = 0
        self.goal_ints = []
        self.notes = []
        T._nonzero_hook[0] = self.known_nonzero
        T._fresh_hook[0] = lambda n, s: self.fresh(n, s)

    def snapshot(self):
        return (list(self.pc), list(self.rules), list(self.calls), self.counter, self.suffix, list(self.loopvars),
                dict(self.heap), self.nextref, list(self.rng), list(self.events), list(self.sumrw))

    def restore(self, s):
        (pc, rules, calls, self.counter, self.suffix, lv, heap, self.nextref, rng, ev, rw) = s
        self.pc, self.rules, self.calls = list(pc), list(rules), list(calls)
        self.loopvars, self.heap = list(lv), dict(heap)
        self.rng, self.events, self.sumrw = list(rng), list(ev), list(rw)

    # ------------------------------------------------------------ symbols
    def name(self, base):
        self.counter += 1
        return '%s!%d%s' % (base, self.counter, self.suffix)

    def fresh(self, base, sort):
        """fresh constant; inside a generalised loop body: a Skolem function of the loop counters"""
        nm = self.name(base)
        if self.loopvars:
            f = z3.Function(nm, *([I] * len(self.loopvars) + [sort]))
            return f(*self.loopvars)
        return z3.Const(nm, sort)

    def fresh_fun(self, base, nargs, sort):
        """fresh function of nargs ints (+ loop counters); returns python callable"""
        nm = self.name(base)
        lv = list(self.loopvars)
        f = z3.Function(nm, *([I] * (len(lv) + nargs) + [sort])) if (lv or nargs) else None
        if f is None:
            c = z3.Const(nm, sort)
            return lambda *a: c
        g = lambda *a: f(*(lv + [T.toz(x) for x in a]))
        g.decl = f
        return g

    def var(self, base='v'):
        self.counter += 1
        return z3.Int('%s!%d%s' % (base, self.counter, self.suffix))

    # ------------------------------------------------------------ assumptions
    def assume(self, f, kind='as'):
        f = T.tobool(f)
        if z3.is_true(f):
            return
        self.pc.append((f, kind))

    def add_rule(self, vars, formula, trigs=None, label=''):
        formula = T.tobool(formula)
        if z3.is_true(formula):
            return
        if not vars:
            self.assume(formula)
            return
        self.rules.append(Rule(vars, formula, trigs, label))

    def def_rule(self, app, vars, formula, label=''):
        """definitional rule triggered only by `app`"""
        r = Rule(vars, formula, trigs=[], label=label)
        r.trigs = [[(app.decl().name(), app.num_args(), tuple(r.pat(app)))]]
        self.rules.append(r)

    class _Binding:
        """evaluate under bound variables ks with guards; symbols created meanwhile are
        functions of ks, facts become rules over ks"""

        def __init__(self, ctx, ks, fs):
            self.ctx, self.ks = ctx, list(ks)
            self.fs = [T.tobool(f) for f in fs]
            self.fs = [f for f in self.fs if not z3.is_true(f)]

        def __enter__(self):
            c = self.ctx
            self.n, self.r = len(c.pc), len(c.rules)
            c.loopvars = c.loopvars + self.ks
            for f in self.fs:
                c.pc.append((f, 'as'))

        def __exit__(self, *a):
            c = self.ctx
            if self.ks:
                c.loopvars = c.loopvars[:-len(self.ks)]
            extra = c.pc[self.n + len(self.fs):]
            c.pc = c.pc[:self.n]
            newrules = c.rules[self.r:]
            c.rules = c.rules[:self.r]
            hyp = z3.And(*self.fs) if self.fs else None
            for f, k in extra:
                g = z3.Implies(hyp, f) if hyp is not None else f
                vs = [v for v in self.ks if c._has(g, v)]
                if vs:
                    c.rules.append(Rule(vs, g, label='bound'))
                else:
                    c.pc.append((g, k))
            for r in newrules:
                g = z3.Implies(hyp, r.formula) if hyp is not None else r.formula
                vs = [v for v in self.ks if c._has(g, v)]
                c.rules.append(Rule(r.vars + vs, g, label=r.label) if vs else Rule(r.vars, g, r.trigs, r.label))

    def assuming(self, *fs):
        return Ctx._Binding(self, [], fs)

    def binding(self, ks, *fs):
        return Ctx._Binding(self, ks, fs)

    # ------------------------------------------------------------ sums
    def in_range(self, k, n):
        return z3.And(k >= 0, k < T.toz(n))

    def mk_sum(self, n, fn, kind='Sum'):
        """Sum_{0<=k<n} fn(k)  with exact, normalised representation"""
        if isinstance(n, int):
            if n <= 8:
                r = 0
                for i in range(n):
                    r = T.add(r, fn(i))
                return r
        n = T.toz(n)
        n = z3.simplify(n)
        if z3.is_int_value(n):
            if n.as_long() <= 8:
                return self.mk_sum(n.as_long(), fn)
        # peel n = m + c
        if z3.is_add(n):
            cs = [a for a in n.children() if z3.is_int_value(a)]
            if len(cs) == 1 and 0 < cs[0].as_long() <= 4:
                m = z3.simplify(n - cs[0])
                if self.quick_valid(m >= 0):
                    r = self.mk_sum(m, fn)
                    for t in range(cs[0].as_long()):
                        r = T.add(r, fn(m + t))
                    return r
        k = self.var('K')
        with self.binding([k], k >= 0, k < n):
            body = fn(k)
        if T.special(body):
            body = T.xr(body)
            return self._sum_special(n, k, body)
        return self._sum_lin(n, k, body)

    def _sum_lin(self, n, k, body):
        if isinstance(body, (int, T.Fraction)):
            nn = z3.If(n > 0, n, 0) if not self.quick_valid(n >= 0) else n
            return T.mul(body, T.toz(nn))
        b = T.toz(body, True) if not T.is_intlike(body) else T.toz(T.toz(body), True)
        isint = T.is_intlike(body)
        b = z3.simplify(b, som=True, pull_cheap_ite=False, push_to_real=True) if True else b
        monos = b.children() if z3.is_add(b) else [b]
        nn = None
        tot = None
        for m in monos:
            coef = []
            dep = []
            fs = self._factors(m)
            for f in fs:
                (dep if self._has(f, k) else coef).append(f)
            if not dep:
                if nn is None:
                    nn = n if self.quick_valid(n >= 0) else z3.If(n > 0, n, z3.IntVal(0))
                term = z3.ToReal(nn)
            else:
                d = dep[0]
                for x in dep[1:]:
                    d = d * x
                term = self._delta(n, k, dep)
                if term is None:
                    term = self._sum_atom(n, k, d)
            for c in coef:
                term = c * term
            tot = term if tot is None else tot + term
        if isint and z3.is_expr(tot) and not z3.is_int_value(tot) and tot.sort() == RL:
            self.assume(z3.IsInt(tot))
        return tot

    def _delta(self, n, k, dep):
        """Sum_k If(k == j, a, 0) * rest = (a * rest)[k := j] when 0 <= j < n, else 0"""
        for q, f in enumerate(dep):
            if f.decl().kind() != z3.Z3_OP_ITE:
                continue
            c, a, b = f.children()
            if not (z3.is_rational_value(b) and b.as_fraction() == 0):
                continue
            if not z3.is_eq(c) or not z3.is_int(c.arg(0)):
                continue
            l, r = c.children()
            j = r if l.eq(k) else l if r.eq(k) else None
            if j is None or self._has(j, k):
                continue
            t = a
            for i, x in enumerate(dep):
                if i != q:
                    t = t * x
            t = z3.substitute(t, (k, j))
            g = z3.And(j >= 0, j < n)
            return t if self.quick_valid(g) else z3.If(g, t, z3.RealVal(0))
        return None

    def _factors(self, m):
        if z3.is_mul(m):
            r = []
            for c in m.children():
                r += self._factors(c)
            return r
        if m.decl().kind() == z3.Z3_OP_DIV:
            a, b = m.children()
            return self._factors(a) + [z3.RealVal(1) / x for x in self._factors(b)] if not z3.is_rational_value(a) or True else [m]
        if m.decl().kind() == z3.Z3_OP_UMINUS:
            return [z3.RealVal(-1)] + self._factors(m.children()[0])
        if m.decl().kind() == z3.Z3_OP_POWER:
            a, b = m.children()
            if z3.is_rational_value(b) and b.denominator_as_long() == 1 and 0 < b.numerator_as_long() <= 8:
                return self._factors(a) * b.numerator_as_long()
        return [m]

    def _has(self, e, k):
        kid = k.get_id()
        seen = set()
        stack = [e]
        while stack:
            x = stack.pop()
            if x.get_id() == kid:
                return True
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            stack.extend(x.children())
        return False

    def _sum_atom(self, n, k, body, prefix='Sum'):
        for rw in self.sumrw:
            r = rw(n, k, body)
            if r is not None:
                return r
        params = [c for c in free_consts(z3.And(body == body, n == n) if False else body) if z3.is_int(c) and not c.eq(k)]
        pids = {p.get_id() for p in params}
        for c in free_consts(n):
            if z3.is_int(c) and not c.eq(k) and c.get_id() not in pids:
                params.append(c)
                pids.add(c.get_id())
        B = z3.Int('B!')
        P = [z3.Int('P!%d' % i) for i in range(len(params))]
        sub = [(k, B)] + list(zip(params, P))
        cb = z3.substitute(body, *sub)
        cn = z3.substitute(n, *sub)
        key = (prefix, cb.get_id(), cn.get_id())
        ent = self.global_sums.get(key)
        if ent is None:
            self.keep += [cb, cn]
            nm = '%s!%d' % (prefix, len(self.global_sums))
            decl = z3.Function(nm, *([I] * len(P) + [RL])) if P else None
            ent = (nm, decl, P, B, cb, cn)
            self.global_sums[key] = ent
            self.sum_by_name[nm] = ent
        nm, decl = ent[0], ent[1]
        return decl(*params) if decl is not None else z3.Real(nm)

    def mk_prod(self, n, fn):
        if isinstance(n, int) and n <= 8:
            r = 1
            for i in range(n):
                r = T.mul(r, fn(i))
            return r
        n = z3.simplify(T.toz(n))
        if z3.is_add(n):
            cs = [a for a in n.children() if z3.is_int_value(a)]
            if len(cs) == 1 and 0 < cs[0].as_long() <= 4:
                m = z3.simplify(n - cs[0])
                if self.quick_valid(m >= 0):
                    r = self.mk_prod(m, fn)
                    for t in range(cs[0].as_long()):
                        r = T.mul(r, fn(m + t))
                    return r
        k = self.var('K')
        with self.binding([k], k >= 0, k < n):
            body = fn(k)
        if T.special(body):
            raise Unsupported('product of non-finite terms')
        return self._sum_atom(n, k, z3.simplify(T.toz(body, True), som=True), prefix='Prod')

    def _sum_special(self, n, k, body):
        """sum whose terms may be inf/nan: value by linearity; class via any-predicates"""
        fin = self._sum_lin(n, k, z3.If(body.c == 0, body.v, z3.RealVal(0)) if not z3.is_int_value(body.c) else body.v)
        anyn = self._any_atom(n, k, body.c == 3)
        anyp = self._any_atom(n, k, body.c == 1)
        anym = self._any_atom(n, k, body.c == 2)
        c = z3.If(z3.Or(anyn, z3.And(anyp, anym)), 3, z3.If(anyp, 1, z3.If(anym, 2, 0)))
        return T.mkxr(fin, c)

    def _any_atom(self, n, k, cond):
        """Bool b  <->  exists 0<=k<n. cond(k)   with witness / instantiation rules"""
        cond = z3.simplify(cond)
        if z3.is_false(cond):
            return z3.BoolVal(False)
        if not self._has(cond, k):
            return z3.And(cond, T.toz(n) > 0)
        b = self.fresh('any', BL)
        w = self.fresh('wit', I)
        self.assume(z3.Implies(b, z3.And(w >= 0, w < n, z3.substitute(cond, (k, w)))))
        self.add_rule([k], z3.Implies(z3.And(k >= 0, k < n, cond), b), label='any')
        return b

    def mk_any(self, dims, fn):
        """exists idx in dims. fn(*idx)"""
        dims = list(dims)
        if all(isinstance(d, int) for d in dims):
            tot = 1
            for d in dims:
                tot *= d
            if tot <= 12:
                return T.or_(*[fn(*ix) for ix in itertools.product(*[range(d) for d in dims])])
        ks, ws, g = [], [], []
        for d in dims:
            if isinstance(d, int) and d == 1:
                ks.append(0)
                continue
            k = self.var('A')
            ks.append(k)
            g += [k >= 0, k < T.toz(d)]
        with self.binding([k for k in ks if z3.is_expr(k)], *g):
            cond = fn(*ks)
        if isinstance(cond, bool):
            if not cond:
                return False
            return T.and_(*[T.toz(d) > 0 for d in dims if not isinstance(d, int)])
        cond = z3.simplify(cond)
        if z3.is_false(cond):
            return False
        kv = [k for k in ks if z3.is_expr(k)]
        b = self.fresh('any', BL)
        ws = [self.fresh('wit', I) for _ in kv]
        sub = list(zip(kv, ws))
        self.assume(z3.Implies(b, z3.And(*([z3.substitute(x, *sub) for x in g] + [z3.substitute(cond, *sub)]))))
        self.add_rule(kv, z3.Implies(z3.And(*(g + [cond])), b), label='any')
        return b

    # ------------------------------------------------------------ extensional calls
    def ext_call(self, name, args):
        """Returns an Int constant identifying this call's result.  Two calls of the
        same name with (extensionally) equal args get equal ids (lemma at query time).
        args: list of ('s', scalar) | ('a', dims, elemfn)"""
        cid = self.fresh('call_' + name, I)
        self.calls.append((name, cid, args, list(self.loopvars)))
        return cid

    # ------------------------------------------------------------ query
    def quick_valid(self, f):
        f = T.tobool(f)
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        return self.check_sat([z3.Not(f)], timeout=600, rounds=1, lemmas=False) == z3.unsat

    def known_nonzero(self, b):
        b = z3.simplify(b)
        if z3.is_rational_value(b) or z3.is_int_value(b):
            return not (b.as_fraction() == 0 if z3.is_rational_value(b) else b.as_long() == 0)
        return self.check_sat([b == 0], timeout=1000, rounds=1, lemmas=False) == z3.unsat

    def feasible(self, extra=()):
        r = self.check_sat(list(extra), timeout=1500, rounds=1, lemmas=False)
        return r != z3.unsat

    def _instances(self, base, rounds, cap=1500):
        done = set()
        out = []
        known = {}
        appids = set()

        def absorb(fs):
            new = []
            for a in uf_apps(fs):
                if a.get_id() not in appids:
                    appids.add(a.get_id())
                    self.keep.append(a)
                    known.setdefault((a.decl().name(), a.num_args()), []).append(a)
                    new.append(a)
            return new
        frontier = absorb(base)
        ints = None
        for r in range(rounds):
            batch = []
            for ri, rule in enumerate(self.rules):
                if not rule.trigs:
                    if ints is None:
                        ints = self._int_terms(base)
                    if len(rule.vars) <= 2:
                        for tup in itertools.product(ints[:14], repeat=len(rule.vars)):
                            self._inst(rule, ri, tup, done, batch)
                    continue
                for trig in rule.trigs:
                    if len(trig) == 1:
                        nm, na, pat = trig[0]
                        for app in known.get((nm, na), ()):
                            b = self._match(rule, pat, app)
                            if b is not None and None not in b:
                                self._inst(rule, ri, tuple(b), done, batch)
                    else:
                        lists = [known.get((nm, na), [])[:20] for nm, na, _ in trig]
                        cnt = 0
                        for combo in itertools.product(*lists):
                            cnt += 1
                            if cnt > 400:
                                break
                            b = [None] * len(rule.vars)
                            ok = True
                            for (nm, na, pat), app in zip(trig, combo):
                                bb = self._match(rule, pat, app)
                                if bb is None:
                                    ok = False
                                    break
                                for q in range(len(b)):
                                    if bb[q] is not None:
                                        if b[q] is not None and not b[q].eq(bb[q]):
                                            ok = False
                                        b[q] = bb[q]
                            if ok and None not in b:
                                self._inst(rule, ri, tuple(b), done, batch)
                if len(out) + len(batch) > cap:
                    break
            if not batch:
                break
            out += batch
            absorb(batch)
            if len(out) > cap:
                break
        return out

    def _int_terms(self, fs):
        seen, res = set(), []
        for c in free_consts(z3.And(*fs)) if fs else []:
            if z3.is_int(c):
                res.append(c)
        for a in uf_apps(fs):
            for x in a.children():
                if z3.is_int(x) and x.get_id() not in seen:
                    seen.add(x.get_id())
                    res.append(x)
        out, ids = [], set()
        for x in list(self.goal_ints) + res:
            if x.get_id() not in ids:
                ids.add(x.get_id())
                out.append(x)
        return out

    def _match(self, rule, pat, app):
        b = [None] * len(rule.vars)
        ch = app.children()
        for pos, vi, off in pat:
            t = ch[pos]
            if not z3.is_int(t):
                return None
            if off:
                t = z3.simplify(t - off)
            if b[vi] is not None and not b[vi].eq(t):
                return None
            b[vi] = t
        return b

    def _inst(self, rule, ri, tup, done, batch):
        key = (ri,) + tuple(t.get_id() for t in tup)
        if key in done:
            return
        done.add(key)
        self.keep += list(tup)
        batch.append(z3.substitute(rule.formula, *zip(rule.vars, tup)))

    def _axioms(self, fs, lemmas):
        """theory axioms for exp/log/sqrt apps, sums and extensional calls in fs"""
        out = []
        by = {}
        for a in uf_apps(fs):
            by.setdefault(a.decl().name(), []).append(a)
        ex, lg, sq = by.get('exp', []), by.get('log', []), by.get('sqrt', [])
        for a in ex:
            x = a.arg(0)
            out += [a > 0, z3.Implies(x == 0, a == 1), z3.Implies(x < 0, a < 1), z3.Implies(x > 0, a > 1)]
        for a in lg:
            x = a.arg(0)
            out += [z3.Implies(x == 1, a == 0), z3.Implies(z3.And(x > 0, x < 1), a < 0), z3.Implies(x > 1, a > 0)]
        for a in sq:
            x = a.arg(0)
            out += [z3.Implies(x >= 0, z3.And(a >= 0, a * a == x)), z3.Implies(x > 0, a > 0)]
        for fam, guard in ((ex, False), (lg, True), (sq, True)):
            for a, b in itertools.combinations(fam[:8], 2):
                x, y = a.arg(0), b.arg(0)
                g = z3.And(x > 0, y > 0) if guard else z3.BoolVal(True)
                out.append(z3.Implies(g, (x < y) == (a < b)))
        for a in ex[:6]:
            for b in lg[:6]:
                if a.arg(0).eq(b):
                    out.append(z3.Implies(b.arg(0) > 0, a == b.arg(0)))
                if b.arg(0).eq(a):
                    out.append(b == a.arg(0))
        for a in by.get('pow', []):
            x = a.arg(0)
            out += [z3.Implies(x > 0, a > 0), z3.Implies(x >= 0, a >= 0), z3.Implies(z3.And(x == 0, a.arg(1) > 0), a == 0)]
        return out

    def _ext_lemmas(self, fs):
        """extensionality of sums / products / calls occurring in fs"""
        out = []
        sums = []
        consts = set()
        for a in uf_apps(fs):
            if a.decl().name() in self.sum_by_name:
                sums.append(a)
        for c in free_consts(z3.And(*fs)):
            if c.decl().name() in self.sum_by_name:
                sums.append(c)
        inst = []
        for a in sums:
            nm, decl, P, B, cb, cn = self.sum_by_name[a.decl().name()]
            sub = list(zip(P, a.children()))
            kind = nm.split('!')[0]
            body = z3.substitute(cb, *sub) if sub else cb
            n = z3.substitute(cn, *sub) if sub else cn
            inst.append((kind, a, B, body, n))
            out.append(z3.Implies(n <= 0, a == (0 if kind == 'Sum' else 1)))
            if kind == 'Sum' and self._square(body):
                out.append(a >= 0)
        idx = 0
        for (k1, a, B, b1, n1), (k2, b, B2, b2, n2) in itertools.combinations(inst, 2):
            if k1 != k2 or a.eq(b) or len(inst) > 24:
                continue
            idx += 1
            w = z3.Int('extw!%d' % idx)
            out.append(z3.Or(a == b, n1 != n2, z3.And(w >= 0, w < n1, z3.substitute(b1, (B, w)) != z3.substitute(b2, (B2, w)))))
        # extensional calls
        bydecl = {}
        for name, cid, args, lv in self.calls:
            bydecl[cid.decl().name()] = (name, args, lv)
        inst = []
        seen = set()
        for c in free_consts(z3.And(*fs)) + uf_apps(fs):
            nm = c.decl().name()
            if nm in bydecl and c.get_id() not in seen:
                seen.add(c.get_id())
                name, args, lv = bydecl[nm]
                inst.append((name, c, args, list(zip(lv, c.children()))))
        groups = {}
        for x in inst:
            groups.setdefault(x[0], []).append(x)
        pairs = [q for g in groups.values() for q in itertools.combinations(g[:16], 2)]
        for (m1, c1, a1, s1), (m2, c2, a2, s2) in pairs:
            if len(a1) != len(a2):
                continue
            diff = []
            ok = True
            sub1 = (lambda e, s1=s1: T.subst(e, s1) if s1 else e)
            sub2 = (lambda e, s2=s2: T.subst(e, s2) if s2 else e)
            for x, y in zip(a1, a2):
                if x[0] != y[0]:
                    ok = False
                    break
                if x[0] == 's':
                    diff.append(z3.Not(T.tobool(T.same(sub1(x[1]), sub2(y[1])))))
                else:
                    d1, e1 = x[1], x[2]
                    d2, e2 = y[1], y[2]
                    if len(d1) != len(d2):
                        ok = False
                        break
                    ws = []
                    g = []
                    for q, (m1_, m2_) in enumerate(zip(d1, d2)):
                        m1_, m2_ = sub1(m1_), sub2(m2_)
                        if not (isinstance(m1_, int) and isinstance(m2_, int) and m1_ == m2_):
                            diff.append(T.toz(m1_) != T.toz(m2_))
                        idx += 1
                        w = z3.Int('extw!%d' % idx)
                        ws.append(w)
                        g += [w >= 0, w < T.toz(m1_)]
                    v1 = sub1(e1(*ws))
                    v2 = sub2(e2(*ws))
                    diff.append(z3.And(*(g + [z3.Not(T.tobool(T.same(v1, v2)))])))
            if ok:
                out.append(z3.Or(c1 == c2, *diff))
        return out

    def _square(self, body):
        fs = self._factors(body)
        cnt = {}
        for f in fs:
            if z3.is_rational_value(f):
                if f.as_fraction() < 0:
                    return False
                continue
            cnt[f.get_id()] = cnt.get(f.get_id(), 0) + 1
        return all(v % 2 == 0 for v in cnt.values())

    def build(self, extra, rounds=2, lemmas=True):
        base = [f for f, _ in self.pc] + [T.tobool(x) for x in extra]
        fs = list(base)
        inst = self._instances(fs, rounds) if self.rules else []
        fs += inst
        if lemmas:
            lem = self._ext_lemmas(fs)
            if lem:
                fs += lem
                if self.rules:
                    inst2 = self._instances(fs, 2)
                    fs += inst2
                lem2 = self._ext_lemmas(fs)
                fs += [x for x in lem2]
        fs += self._axioms(fs, lemmas)
        # dedupe
        seen, out = set(), []
        for f in fs:
            if f.get_id() not in seen:
                seen.add(f.get_id())
                out.append(f)
        return out

    def check_sat(self, extra, timeout=None, rounds=2, lemmas=True, want_model=False):
        key = None
        if not want_model:
            key = (tuple(f.get_id() for f, _ in self.pc), tuple(T.tobool(x).get_id() for x in extra), len(self.rules), rounds, lemmas, timeout)
            if key in self.cache:
                return self.cache[key]
        t0 = time.time()
        fs = self.build(extra, rounds, lemmas)
        s = z3.Solver()
        s.set('timeout', timeout or self.timeout)
        s.add(*fs)
        r = s.check()
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time() - t0
        self._last = (s, fs)
        if key is not None:
            self.keep += [f for f, _ in self.pc] + [T.tobool(x) for x in extra]
            self.cache[key] = r
        return r

    def prove(self, goal, timeout=None, rounds=2):
        """-> (status, backend, model_or_reason);  status in proved/refuted/unknown"""
        g = T.tobool(goal)
        g = z3.simplify(g)
        if z3.is_true(g):
            return 'proved', 'simplify', None
        timeout = timeout or self.timeout
        key = (tuple(f.get_id() for f, _ in self.pc), g.get_id(), tuple(r.formula.get_id() for r in self.rules), timeout)
        c = self.pcache.get(key)
        if c is not None:
            return c
        self.keep += [g] + [f for f, _ in self.pc] + [r.formula for r in self.rules]
        c = self.pcache[key] = self._prove(g, timeout, rounds)
        return c

    def _prove(self, g, timeout, rounds):
        ng = z3.Not(g)
        # stage 0: no rules
        r = None
        for rd, lem, tmo in ((1, False, min(1500, timeout)), (rounds, True, timeout), (rounds + 2, True, timeout)):
            t0 = time.time()
            fs = self.build([ng], rd, lem)
            s = z3.Solver()
            s.set('timeout', tmo)
            s.add(*fs)
            r = s.check()
            self.stats['queries'] += 1
            self.stats['solver_s'] += time.time() - t0
            if r == z3.unsat:
                self.stats['z3'] += 1
                return 'proved', 'z3', None
            if rd == 1 and (self.closed_defs or 'if' in g.sexpr()):
                if self.rw_prove(g, timeout):
                    self.stats['z3'] += 1
                    return 'proved', 'z3-rewrite', None
            if r == z3.sat and rd >= rounds:
                last = (r, s, fs)
                if rd == rounds + 2:
                    break
                # one more round of instantiation may still refute the model
                continue
            if r == z3.unknown and rd >= rounds:
                t0 = time.time()
                ok = self.poly_prove(g, fs, timeout)
                self.stats['solver_s'] += time.time() - t0
                if ok:
                    return 'proved', 'z3-nlsat', None
                t0 = time.time()
                c = self.cvc5(fs, max(2, timeout // 1000))
                self.stats['solver_s'] += time.time() - t0
                if c == 'unsat':
                    self.stats['cvc5'] += 1
                    return 'proved', 'cvc5', None
                last = (r, s, fs)
        r, s, fs = last
        if r == z3.sat:
            return 'refuted', 'z3', s.model()
        return 'unknown', 'z3', s.reason_unknown()

    # ------------------------------------------------------------ rewriting prover
    def rw_expand(self, e):
        for _ in range(8):
            pairs = []
            for a in uf_apps([e]):
                d = self.closed_defs.get(a.decl().name())
                if d is None:
                    continue
                params, rhs, guard = d
                sub = list(zip(params, a.children()))
                if self.quick_valid(z3.substitute(guard, *sub)):
                    pairs.append((a, z3.substitute(rhs, *sub)))
            if not pairs:
                return e
            e = z3.substitute(e, *pairs)
        return e

    def rw_ites(self, e, stop=False):
        """(expression with decidable Ifs resolved, first undecided Int condition or None)"""
        memo = {}
        open_ = []

        def isint(c):
            seen, st = set(), [c]
            while st:
                x = st.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_real(x):
                    return False
                if z3.is_app(x):
                    st.extend(x.children())
            return True

        def go(x):
            i = x.get_id()
            if i in memo:
                return memo[i]
            if not z3.is_app(x) or not x.num_args():
                memo[i] = x
                return x
            if x.decl().kind() == z3.Z3_OP_ITE:
                c = z3.simplify(go(x.arg(0)))
                if z3.is_true(c):
                    r = go(x.arg(1))
                elif z3.is_false(c):
                    r = go(x.arg(2))
                elif isint(c):
                    if self.quick_valid(c):
                        r = go(x.arg(1))
                    elif self.quick_valid(z3.Not(c)):
                        r = go(x.arg(2))
                    else:
                        if not any(c.eq(o) for o in open_):
                            open_.append(c)
                        a, b = go(x.arg(1)), go(x.arg(2))
                        r = a if a.eq(b) else z3.If(c, a, b)
                else:
                    a, b = go(x.arg(1)), go(x.arg(2))
                    r = a if a.eq(b) else z3.If(c, a, b)
                memo[i] = r
                return r
            ch = [go(c) for c in x.children()]
            if all(a.eq(b) for a, b in zip(ch, x.children())):
                r = x
            elif z3.is_and(x):
                r = z3.And(*ch)
            elif z3.is_or(x):
                r = z3.Or(*ch)
            elif z3.is_add(x):
                r = z3.Sum(ch)
            elif z3.is_mul(x):
                r = z3.Product(ch)
            elif z3.is_distinct(x):
                r = z3.Distinct(*ch)
            else:
                r = x.decl()(*ch)
            memo[i] = r
            self.keep.append(r)
            return r
        r = go(e)
        return r, (open_[0] if open_ else None)

    def rw_prove(self, g, timeout, depth=0, budget=None):
        budget = budget if budget is not None else [40]
        budget[0] -= 1
        if budget[0] < 0:
            return False
        c = None
        for _ in range(4):
            g0 = g
            g = z3.simplify(self.rw_expand(g))
            g, c = self.rw_ites(g)
            g = z3.simplify(g)
            if g.eq(g0):
                break
        if z3.is_true(g):
            return True
        if c is not None and depth < 7:
            atom = c
            while True:
                if z3.is_and(atom) or z3.is_or(atom) or z3.is_not(atom):
                    und = [x for x in atom.children() if not (self.quick_valid(x) or self.quick_valid(z3.Not(x)))]
                    if not und:
                        break
                    atom = und[0]
                    continue
                break
            for cond in (atom, z3.simplify(z3.Not(atom))):
                n0 = len(self.pc)
                self.pc.append((cond, 'split'))
                try:
                    g2 = g
                    cs = cond
                    # orient equalities
                    if not z3.is_eq(cs) and (z3.is_le(cs) or z3.is_ge(cs)):
                        pass
                    if z3.is_eq(cs) and z3.is_int(cs.arg(0)):
                        a, b = cs.children()
                        if z3.is_const(b) and not z3.is_int_value(b) and not self._has(a, b):
                            g2 = z3.substitute(g2, (b, a))
                        elif z3.is_const(a) and not z3.is_int_value(a) and not self._has(b, a):
                            g2 = z3.substitute(g2, (a, b))
                    if not self.feasible():
                        continue
                    if not self.rw_prove(g2, timeout, depth + 1, budget):
                        return False
                finally:
                    del self.pc[n0:]
            return True
        return self.rw_finish(g, timeout)

    def rw_finish(self, g, timeout):
        if z3.is_and(g):
            return all(self.rw_finish(x, timeout) for x in g.children())
        ng = z3.Not(g)
        fs = self.build([ng], 2, True)
        # unit equalities between sums become substitutions
        fs = [z3.simplify(f) for f in fs]
        for _ in range(3):
            pairs = []
            for f in fs:
                if z3.is_eq(f) and z3.is_real(f.arg(0)):
                    a, b = f.children()
                    if z3.is_app(a) and a.decl().name() in self.sum_by_name and z3.is_app(b) and b.decl().name() in self.sum_by_name:
                        pairs.append((a, b))
            if not pairs:
                break
            a, b = pairs[0]
            fs = [z3.simplify(z3.substitute(f, (a, b))) for f in fs]
        fs = [f for f in fs if not z3.is_true(f)]
        t = min(timeout, 4000)
        # a small problem first: drop extensionality disjunctions
        small = [f for f in fs if 'extw!' not in f.sexpr()] if len(fs) < 400 else fs
        for cand in (small, fs):
            s = z3.Solver()
            s.set('timeout', t)
            s.add(*cand)
            t0 = time.time()
            r = s.check()
            self.stats['queries'] += 1
            self.stats['solver_s'] += time.time() - t0
            if r == z3.unsat:
                return True
            if r == z3.unknown and self.poly_prove(g, cand, t):
                return True
        return False

    def poly_prove(self, g, fs, timeout):
        """purify uninterpreted applications and use nlsat"""
        apps = {}
        def pur(e, memo):
            i = e.get_id()
            if i in memo:
                return memo[i]
            if z3.is_app(e) and e.num_args() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                k = e.get_id()
                if k not in apps:
                    apps[k] = z3.Const('pur!%d' % len(apps), e.sort())
                    self.keep.append(e)
                r = apps[k]
            elif e.num_args():
                ch = [pur(c, memo) for c in e.children()]
                r = e.decl()(*ch) if any(not a.eq(b) for a, b in zip(ch, e.children())) else e
                if z3.is_and(e):
                    r = z3.And(*ch)
                elif z3.is_or(e):
                    r = z3.Or(*ch)
                elif z3.is_add(e):
                    r = z3.Sum(ch)
                elif z3.is_mul(e):
                    r = z3.Product(ch)
                elif z3.is_distinct(e):
                    r = z3.Distinct(*ch)
            else:
                r = e
            memo[i] = r
            return r
        memo = {}
        try:
            pf = [pur(z3.simplify(f), memo) for f in fs]
            # integers become reals (weaker: sound for unsat? ints are a subset of reals -> yes)
            s = z3.Then('simplify', 'purify-arith', 'propagate-values', 'solve-eqs', 'elim-uncnstr', 'smt').solver()
            s.set('timeout', timeout)
            s.add(*pf)
            if s.check() == z3.unsat:
                return True
            rf = [self._toreal(f, {}) for f in pf]
            s = z3.Tactic('qfnra-nlsat').solver()
            s.set('timeout', timeout)
            s.add(*rf)
            return self._forked(lambda: s.check() == z3.unsat, timeout / 1000. + 1)
        except z3.Z3Exception:
            return False

    @staticmethod
    def _forked(fn, limit):
        """run a check that may ignore its own time limit in a child process"""
        pid = os.fork()
        if pid == 0:
            rc = 2
            try:
                rc = 0 if fn() else 1
            except BaseException:
                pass
            os._exit(rc)
        end = time.time() + limit
        nap = .002
        while True:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                return os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0
            if time.time() > end:
                os.kill(pid, 9)
                os.waitpid(pid, 0)
                return False
            time.sleep(nap)
            nap = min(.05, nap * 1.5)

    def _toreal(self, e, memo):
        i = e.get_id()
        if i in memo:
            return memo[i]
        ch = [self._toreal(c, memo) for c in e.children()]
        k = e.decl().kind() if z3.is_app(e) else None
        if z3.is_int_value(e):
            r = z3.RealVal(e.as_long())
        elif z3.is_const(e) and z3.is_int(e):
            r = z3.Real(e.decl().name() + '@r')
        elif k == z3.Z3_OP_TO_REAL:
            r = ch[0]
        elif not ch:
            r = e
        elif k == z3.Z3_OP_ADD:
            r = z3.Sum(ch)
        elif k == z3.Z3_OP_MUL:
            r = z3.Product(ch)
        elif k == z3.Z3_OP_SUB:
            r = ch[0]
            for c in ch[1:]:
                r = r - c
        elif k == z3.Z3_OP_UMINUS:
            r = -ch[0]
        elif k == z3.Z3_OP_DIV:
            r = ch[0] / ch[1]
        elif k == z3.Z3_OP_LE:
            r = ch[0] <= ch[1]
        elif k == z3.Z3_OP_LT:
            r = ch[0] < ch[1]
        elif k == z3.Z3_OP_GE:
            r = ch[0] >= ch[1]
        elif k == z3.Z3_OP_GT:
            r = ch[0] > ch[1]
        elif k == z3.Z3_OP_EQ:
            r = ch[0] == ch[1]
        elif k == z3.Z3_OP_ITE:
            r = z3.If(ch[0], ch[1], ch[2])
        elif k == z3.Z3_OP_AND:
            r = z3.And(*ch)
        elif k == z3.Z3_OP_OR:
            r = z3.Or(*ch)
        elif k == z3.Z3_OP_NOT:
            r = z3.Not(ch[0])
        elif k == z3.Z3_OP_IMPLIES:
            r = z3.Implies(ch[0], ch[1])
        else:
            raise z3.Z3Exception('toreal')
        memo[i] = r
        return r

    def cvc5(self, fs, secs):
        s = z3.Solver()
        s.add(*fs)
        txt = s.to_smt2()
        txt = '(set-logic ALL)\n' + txt
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt)
            fn = f.name
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % (secs * 1000), '--nl-ext-tplanes', fn], capture_output=True, text=True, timeout=secs + 5)
            return p.stdout.strip().split('\n')[0] if p.stdout.strip() else 'unknown'
        except Exception:
            return 'unknown'
        finally:
            os.unlink(fn)

    # ------------------------------------------------------------ branching
    def branch(self, cond, why=''):
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        ft = self.feasible([cond])
        ff = self.feasible([z3.Not(cond)])
        if not ft and not ff:
            raise PathEnd('infeasible')
        if not ft:
            self.assume(z3.Not(cond), 'br')
            return False
        if not ff:
            self.assume(cond, 'br')
            return True
        d = self.choose(2)
        self.assume(cond if d == 0 else z3.Not(cond), 'br')
        return d == 0

    def choose(self, n):
        if self.pos < len(self.dec):
            d = self.dec[self.pos][0]
        else:
            d = 0
            self.dec.append([0, n])
        self.pos += 1
        self.suffix = self.suffix + chr(ord('a') + d)
        return d

    def explore(self, fn, maxpaths=400):
        """run fn() over all decision sequences from the current state; fn returns value;
        yields (value, exc) with the ctx left in the final state of each path"""
        snap = self.snapshot()
        sdec, spos = self.dec, self.pos
        self.dec = []
        n = 0
        try:
            while True:
                self.restore(snap)
                self.pos = 0
                n += 1
                if n > maxpaths:
                    raise Unsupported('too many paths')
                try:
                    v = fn()
                    yield v
                except PathEnd:
                    pass
                dec = self.dec[:self.pos]
                while dec and dec[-1][0] + 1 >= dec[-1][1]:
                    dec.pop()
                if not dec:
                    break
                dec[-1] = [dec[-1][0] + 1, dec[-1][1]]
                self.dec = dec
        finally:
            self.dec, self.pos = sdec, spos
            self.restore(snap)
