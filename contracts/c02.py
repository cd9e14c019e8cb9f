"""C02 - a Metropolis step implements the posterior-ratio acceptance rule."""
from .common import MET, SU, parameters, inside, pset, targets


def metropolis_step(S):
    n, m = S.int('n', 1), S.int('m', 1)
    p = S.int('p', 1, n)
    par, lo, hi, ind = parameters(S, p, n)
    old = pset(S, 'old', p, m)
    ot, oss, opr, os2 = S.snap(S.get(old, 'theta')), S.snap(S.get(old, 'ss')), S.get(old, 'prior'), S.snap(S.get(old, 'sigma2'))
    R = S.arr('R', (p, p))
    prior, sos = targets(S, m)
    cust = S.obj(None)
    accept, new, outbound, u = S.method(S.new(MET), 'run_metropolis_step', old, par, R, prior, sos, cust)
    nd, ud = S.draws('n'), S.draws('u')
    S.ensure('one-gaussian-vector', len(nd) == 1 and S.eq(S.draw_size(nd[0]), p))
    cand = S.get(new, 'theta')
    S.ensure_forall('candidate-is-current-plus-shaped-gaussian', (p,), lambda i: S.eq(
        S.item(cand, i), S.item(ot, i) + S.sum(p, lambda k: S.draw_item(nd[0], k) * S.item(R, k, i))))
    S.ensure_forall('returned-increment', (p,), lambda i: S.eq(S.vec(u, i), S.draw_item(nd[0], i)))
    S.ensure_forall('candidate-carries-variance', (m,), lambda j: S.eq(S.item(S.get(new, 'sigma2'), j), S.item(os2, j)))
    ins = inside(S, cand, lo, hi, ind, p)
    if S.branch(S.truthy(outbound)):
        S.ensure('outside-never-accepted', S.not_(S.truthy(accept)))
        S.ensure('outside-not-evaluated', len(S.events()) == 0)
        S.assume_forall((p,), ins)
        S.ensure('in-limits-proposals-are-judged', False)
        return
    S.ensure_forall('evaluated-only-inside', (p,), ins)
    ev, pv = S.events('sos'), S.events('prior')
    S.ensure('one-evaluation', len(ev) == 1 and len(pv) == 1)
    S.ensure('custom-information-passed-on', all(S.same_obj(e[2], cust) for e in ev))
    S.ensure_forall('evaluated-at-candidate', (p,), lambda i: S.and_(S.eq(S.item(ev[0][1], i), S.item(cand, i)), S.eq(S.item(pv[0][1], i), S.item(cand, i))))
    ss, pr = S.ufun('sos', [cand], m, True), S.ufun('prior', [cand], None, True)
    S.ensure_forall('candidate-carries-sos', (m,), lambda j: S.eq(S.item(S.get(new, 'ss'), j), S.item(ss, j)))
    S.ensure('candidate-carries-prior', S.eq(S.get(new, 'prior'), pr))
    S.ensure('one-uniform', len(ud) == 1 and S.eq(S.draw_size(ud[0]), 1))
    lu = S.log(S.draw_item(ud[0], 0))
    fnew = S.num(-0.5) * S.sum(m, lambda j: S.item(ss, j) / S.item(os2, j)) + S.num(-0.5) * pr
    fold = S.num(-0.5) * S.sum(m, lambda j: S.item(oss, j) / S.item(os2, j)) + S.num(-0.5) * opr
    S.ensure('accept-iff-log-uniform-below-log-ratio', S.iff(S.truthy(accept), fnew - fold > lu))
    S.ensure('nan-posterior-never-accepted', S.implies(S.isnan(fnew), S.not_(S.truthy(accept))))


CONTRACTS = [metropolis_step]
