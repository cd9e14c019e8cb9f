"""C03 - delayed rejection uses the n-stage (Green-Mira) acceptance probability.

The recursion is verified against its own contract: alphafun(path) = A(path), where A is
an arbitrary function of the path with values in [0, 1]; each stage 1..5 is proved
separately for all values (the stage number is the only bound)."""
from .common import DR, PS, SU, inside, dr_driver, pset

ASSUMPTIONS = ['C03: number of stages in one acceptance probability is at most 5 (ntry <= 5), number of tries in the driver loop at most 4; all values, dimensions and group counts arbitrary']


def path_sets(S, k, p, m):
    """k parameter sets; the first (current) one and the last have a finite posterior, or the last is not a number"""
    out = []
    for i in range(k):
        last = i == k - 1
        first = i == 0
        ss = S.arr('ss%d' % i, (m,), lo=0) if first else S.arr('ss%d' % i, (m,), ext=True, nan=True)
        out.append(S.obj(PS, theta=S.arr('th%d' % i, (p,)), ss=ss, prior=S.real('pr%d' % i), sigma2=S.arr('s2_%d' % i, (m,), pos=True), alpha=None, gid=i))
    return out


def alpha_stage(stage):
    def c(S):
        p, m = S.int('p', 1), S.int('m', 1)
        sets = path_sets(S, stage + 1, p, m)
        invR = [S.arr('invR%d' % q, (p, p)) for q in range(max(1, stage))]
        A = {}

        def alpha(ids):
            """the acceptance probability of a sub-path (value supplied by the contract of alphafun)"""
            ids = tuple(ids)
            if ids not in A:
                A[ids] = S.real('A_' + '_'.join(map(str, ids)), lo=0, hi=1)
            return A[ids]

        def summ(S, env):
            t = env['trypath']
            k = S.len(t)
            ids = [S.get(S.item(t, q), 'gid') for q in range(k.__index__())]
            v = alpha([q.__index__() if not isinstance(q, int) else q for q in ids])
            return S.mk((1,), lambda i: v)
        S.summary(DR + 'DelayedRejection.alphafun', summ)
        dr = S.obj(DR + 'DelayedRejection', dr_step_counter=0)
        if not S.sym:
            def alpha(ids):
                dr2 = S.obj(DR + 'DelayedRejection', dr_step_counter=0)
                return float(S.vec(S.method(dr2, 'alphafun', [sets[q] for q in ids], invR), 0))
        got = S.vec(S.method(dr, 'alphafun', S.list(sets), S.list(invR)), 0)
        L = stage
        a1, a2 = S.num(1), S.num(1)
        z = []
        for k in range(stage - 1):
            a1 = a1 * (1 - alpha(range(0, k + 2)))
            a2 = a2 * (1 - alpha(range(L, L - k - 2, -1)))
            z.append(S.eq(a2, 0))
        if z:
            S.assume(S.not_(S.eq(a1, 0)))
        th = lambda q, i: S.item(S.get(sets[q], 'theta'), i)
        lp = lambda q: S.num(-0.5) * S.sum(m, lambda j: S.item(S.get(sets[q], 'ss'), j) / S.item(S.get(sets[q], 'sigma2'), j)) + S.num(-0.5) * S.get(sets[q], 'prior')

        def qdist(k, a, b):
            return S.sum(p, lambda j: S.sum(p, lambda i: (th(b, i) - th(a, i)) * S.item(invR[k], i, j)) ** 2)
        y = lp(L) - lp(0)
        for k in range(stage - 1):
            y = y + S.num(-0.5) * (qdist(k, L, L - 1 - k) - qdist(k, 0, k + 1))
        S.ensure('probability', S.and_(got >= 0, got <= 1))
        zero = S.or_(*z) if z else S.num(1) == 2
        r = S.exp(y) * a2 / a1
        S.ensure('green-mira-formula', S.implies(S.and_(S.not_(zero), S.not_(S.isnan(r))), S.eq(got, S.ite(r <= 1, r, 1))))
        S.ensure('zero-if-reverse-path-cannot-reject', S.implies(zero, S.eq(got, 0)))
        S.ensure('zero-if-not-a-number', S.implies(S.isnan(r), S.eq(got, 0)))
    c.__name__ = 'alpha_stage%d' % stage
    c.cost = stage
    return c



def driver(ntry):
    def c(S):
        q = dr_driver(S, ntry)
        nd, ud = S.draws('n'), S.draws('u')
        tries = len(nd)
        S.ensure('at-least-one-further-try', tries >= 1)
        S.ensure('never-more-tries-than-asked-for', tries <= ntry - 1)
        ev, pv = S.events('sos'), S.events('prior')
        S.ensure('each-judged-try-evaluated-once', len(ev) == len(pv) and len(ev) == len(q.paths) and len(ud) <= len(ev))
        cand = [S.mk((q.p,), lambda i, k=k: S.item(q.ot, i) + S.sum(q.p, lambda l: S.draw_item(nd[k], l) * S.item(q.RDR[k + 1], l, i))) for k in range(tries)]
        S.ensure('custom-information-passed-on', all(S.same_obj(e[2], q.custom) for e in ev))
        acc = S.truthy(q.accept)
        if S.branch(acc):
            S.ensure_forall('accepted-is-the-last-candidate-of-its-own-stage-matrix', (q.p,), lambda i: S.eq(S.item(S.get(q.out, 'theta'), i), S.item(cand[-1], i)))
            S.ensure('last-try-was-judged', len(q.paths) > 0 and S.eq(S.len(q.paths[-1]) if not isinstance(q.paths[-1], list) else len(q.paths[-1]), tries + 2))
            ss, pr = S.ufun('sos', [S.get(q.out, 'theta')], q.m, True), S.ufun('prior', [S.get(q.out, 'theta')], None, True)
            S.ensure_forall('accepted-carries-its-sum-of-squares', (q.m,), lambda j: S.eq(S.item(S.get(q.out, 'ss'), j), S.item(ss, j)))
            S.ensure('accepted-carries-its-prior', S.eq(S.get(q.out, 'prior'), pr))
            S.ensure_forall('accepted-carries-error-variance', (q.m,), lambda j: S.eq(S.item(S.get(q.out, 'sigma2'), j), S.item(S.get(q.new, 'sigma2'), j)))
        else:
            S.ensure('current-point-kept-if-nothing-accepted', S.same_obj(q.out, q.old))
            S.ensure('all-tries-used-before-giving-up', tries == ntry - 1)
        S.ensure_forall('current-point-unchanged', (q.p,), lambda i: S.eq(S.item(S.get(q.old, 'theta'), i), S.item(q.ot, i)))
        # every judged path is current, first try, ..., this candidate - in order
        for k, path in enumerate(q.paths):
            L = len(path)
            S.ensure('path-starts-at-current-and-first-try', S.same_obj(path[0], q.old) and S.same_obj(path[1], q.new))
            for t in range(2, L):
                S.ensure_forall('path-holds-all-tries-in-order', (q.p,), lambda i: S.eq(S.item(S.get(path[t], 'theta'), i), S.item(cand[t - 2], i)))
            S.ensure_forall('judged-only-inside-limits', (q.p,), inside(S, S.get(path[-1], 'theta'), q.lo, q.hi, q.ind, q.p))
        # acceptance test: one uniform per judged try unless alpha >= 1
        # follow the draws: consume one uniform for every alpha < 1
        u = 0
        for k, a in enumerate(q.alphas):
            last = k == len(q.alphas) - 1
            judged_last = len(q.paths[k]) == tries + 2
            if S.branch(a >= 1):
                S.ensure('probability-one-accepts', acc if (last and judged_last) else S.num(1) == 2)
                if u < len(ud) and len(ud) - u > sum(1 for _ in q.alphas[k + 1:]):
                    u += 1
            else:
                S.ensure('a-uniform-decides', u < len(ud))
                if u >= len(ud):
                    return
                ok = a > S.draw_item(ud[u], 0)
                u += 1
                S.ensure('accepted-with-the-given-probability', S.iff(ok, acc) if (last and judged_last) else S.not_(ok))
        if not q.alphas or len(q.paths[-1]) != tries + 2:
            S.ensure('a-try-outside-the-limits-is-never-accepted', S.not_(acc))
        for t in range(ntry):
            hit = S.and_(acc, t == tries)
            S.ensure('stage-acceptance-count', S.eq(S.item(q.iacce, t), S.item(q.iacce0, t) + S.ite(hit, 1, 0)))
    c.__name__ = 'driver_%d_tries' % ntry
    c.cost = 2 + ntry
    return c


CONTRACTS = [alpha_stage(k) for k in (1, 2, 3, 4, 5)] + [driver(k) for k in (2, 3, 4)]
