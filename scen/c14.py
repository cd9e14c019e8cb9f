import os
import numpy as np
from conc.sysrun import problem, execute, verify, again, continued, build, Rec, Run


def in_memory(s):
    P = problem(s, nsimu=s.r.choice([2, 5, 9, 20]))
    R = execute(s, P)
    runs = s.r.choice([1, 1, 2])
    for _ in range(runs):
        before = {k: (None if R.res[k] is None else np.array(R.res[k], copy=True)) for k in ('chain', 'sschain', 's2chain')}
        opt = dict(P.opt)
        new = {}
        if s.r.random() < .5:
            opt['nsimu'] = s.r.choice([2, 4, 13])
            new = dict(opt)
        Q = continued(P, R.res, opt)
        last = before['chain'].shape[0] - 1
        s2 = before['s2chain'][-1] if before['s2chain'] is not None else R.mc.model_settings.sigma2.copy()
        decl = [dict(p) for p in R.mc.parameters.parameters]
        R2 = again(s, P, R, **new)
        for k in before:
            if before[k] is not None:
                s.same('earlier-rows-unchanged', np.asarray(R2.res[k])[:last + 1], before[k], k)
        s.check('nsimu-1-rows-appended', R2.res['chain'].shape[0] == last + opt['nsimu'], R2.res['chain'].shape)
        for a, b in zip(decl, R2.mc.parameters.parameters):
            for k in a:
                if k == 'theta0' and a['sample']:
                    continue
                if k == 'prior_mu' and np.isnan(a[k]) and (a['sample'] or not np.isnan(b[k])):
                    s.same('unset-prior-mean-stays-at-declared-value', b[k], a['theta0'])
                    continue
                s.check('declarations-not-altered', a[k] is b[k] or a[k] == b[k], (k, a[k], b[k]))
        verify(s, Q, R2, ('C14', 'C04', 'C01', 'C05', 'C02', 'C03', 'C08'), start=last, first=[Q.par[i]['theta0'] for i in P.ind], s2first=s2, opt=opt)
        R, P = R2, Q


def from_file(s):
    d = s.scratch()
    P = problem(s, nsimu=s.r.choice([2, 8, 15]))
    P.opt['save_to_json'] = True
    P.opt['results_filename'] = 'res.json'
    if s.r.random() < .4:
        P.opt[s.r.choice(['save_to_bin', 'save_to_txt'])] = True
    R = execute(s, P, savedir=os.path.join(d, 'one'))
    th, qc = np.array(R.res['theta'], copy=True), np.array(R.res['qcovorig'], copy=True)
    ev = np.linalg.eigvalsh(np.atleast_2d(R.res['qcov']))
    if ev[0] < 1e-10 * max(ev[-1], 1e-300):      # singular up to rounding: its factorisation is not defined by exact arithmetic
        return
    opt = dict(P.opt)
    opt['json_restart_file'] = os.path.join(d, 'one', 'res.json')
    opt['nsimu'] = s.r.choice([3, 10])
    Q = continued(P, R.res, opt)
    Q2 = continued(P, R.res, dict(opt, qcov=qc))
    # the new run declares the original values again
    N = Run()
    N.rec = rec = Rec()
    P3 = continued(P, R.res, opt)
    P3.par = [dict(p) for p in P.par]
    P3.opt = opt
    with rec:
        N.mc = build(P3, rec, os.path.join(d, 'two'))
        rec.log.clear()
        N.mc.run_simulation()
    N.res, N.log = N.mc.simulation_results.results, list(rec.log)
    s.close('starts-at-final-values', N.res['chain'][0], th[P.ind])
    Q2.ms_passed, Q2.opt_passed = P3.ms_passed, dict(P3.opt_passed, qcov=qc)
    verify(s, Q2, N, ('C14', 'C02', 'C03', 'C05', 'C01', 'C04'))


def nothing_to_continue(s):
    P = problem(s)
    rec = Rec()
    with rec:
        mc = build(P, rec)
        e = s.raises(lambda: mc.run_simulation(use_previous_results=True))
    s.check('refused-without-previous-results', e is not None)


nothing_to_continue.runs = 3
SCENARIOS = [in_memory, from_file, nothing_to_continue]
