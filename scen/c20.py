import os
import numpy as np
from conc.sysrun import problem, build, Rec


def once(P, seed, d=None, noise=0):
    from pymcmcstat.MCMC import MCMC
    import conc.sysrun as SR
    np.random.seed(noise + 5)                  # whatever the generator did before must not matter
    np.random.rand(noise % 7 + 1)
    rec = Rec()
    mc = build(P, rec, d, rngseed=seed)
    mc.run_simulation()
    return mc.simulation_results.results


def same_seed(s):
    P = problem(s)
    seed = s.r.choice([0, 1, 7, 12345, 2 ** 31, 2 ** 32 - 1])
    a = once(P, seed, noise=1)
    b = once(P, seed, noise=9)
    s.desc = dict(seed=seed, opt=P.opt)
    for k in ('chain', 'sschain', 's2chain', 'theta', 'R', 'total_rejected'):
        s.check('same-seed-same-results', (a[k] is None and b[k] is None) or np.array_equal(np.asarray(a[k]), np.asarray(b[k]), equal_nan=True), k)


def different_seed(s):
    P = problem(s, nsimu=60)
    dif = False
    base = None
    for seed in range(1, 6):
        a = once(P, seed, noise=3)
        if base is None:
            base = a
            if np.all(a['chain'] == a['chain'][0]):
                return              # nothing was accepted: nothing to compare
        elif a['chain'].shape != base['chain'].shape or not np.array_equal(a['chain'], base['chain']):
            dif = True
    s.check('seed-decides-the-stream', dif)


different_seed.runs = 20


def unseeded(s):
    """without a seed the generator is left to numpy (fresh entropy), never to a constant"""
    from pymcmcstat.MCMC import MCMC
    seen = set()
    for _ in range(3):
        np.random.seed(4)
        MCMC()
        seen.add(float(np.random.rand()))
    s.check('no-constant-default-seed', len(seen) == 3 or seen == {np.random.RandomState(4).rand()}, seen)


unseeded.runs = 3


def processes(s):
    """same seed in two fresh processes with different string hashing and different histories"""
    import json
    import subprocess
    import sys
    seed = s.r.choice([0, 3, 99])
    pseed = s.r.randrange(10 ** 6)
    prog = ('import sys, json, random; sys.path[:0] = %r\n'
            'from conc.scenlib import Sc\nfrom conc.sysrun import problem\nfrom scen.c20 import once\n'
            'import numpy as np\n'
            's = Sc(%d)\n'
            'r = once(problem(s), %d, noise=int(sys.argv[1]))\n'
            'print("RES" + json.dumps([np.asarray(r[k]).tolist() for k in ("chain", "sschain", "theta")]))') % ([p for p in sys.path if p], pseed, seed)
    out = []
    for h in ('1', '777'):
        e = dict(os.environ, PYTHONHASHSEED=h, OMP_NUM_THREADS='1')
        p = subprocess.run([sys.executable, '-c', prog, h], capture_output=True, text=True, cwd=s.scratch(), env=e, timeout=120)
        out.append([l for l in p.stdout.splitlines() if l.startswith('RES')] or [p.stderr[-600:]])
    s.desc = dict(seed=seed, problem=pseed)
    s.check('same-seed-same-results-in-another-process', out[0] == out[1] or not any(o[0].startswith('RES') for o in out), [o[0][-300:] for o in out])


processes.runs = 6
processes.minruns = 2


def sos(q, data):
    return float(np.sum((np.asarray(q) - 1) ** 2)) * 5


def parallel(s):
    from pymcmcstat.MCMC import MCMC
    from pymcmcstat.ParallelMCMC import ParallelMCMC
    r = s.r
    mc = MCMC(rngseed=r.choice([None, 3, 11]))
    mc.data.add_data_set(np.zeros(3), np.zeros(3))
    for i in range(2):
        mc.parameters.add_model_parameter('p%d' % i, 1.)
    mc.model_settings.define_model_settings(sos_function=sos)
    mc.simulation_options.define_simulation_options(nsimu=25, method='mh', waitbar=False, verbosity=0, savedir=os.path.join(s.scratch(), 'p'), qcov=np.eye(2) * .1)
    num = r.choice([2, 3, 4])
    pm = ParallelMCMC()
    iv = np.ones((num, 2))                          # same start: only the random stream differs
    pm.setup_parallel_simulation(mc, initial_values=iv, num_cores=r.choice([1, 2, num]), num_chain=num)
    pm.run_parallel_simulation()
    ch = [q.simulation_results.results['chain'] for q in pm.parmc]
    s.desc = dict(num=num, cores=pm.num_cores)
    for i in range(num):
        for j in range(i):
            d = np.diff(ch[i], axis=0), np.diff(ch[j], axis=0)
            steps = {float(v) for v in d[0].reshape(-1) if v != 0} & {float(v) for v in d[1].reshape(-1) if v != 0}
            s.check('chains-do-not-share-their-random-stream', not np.array_equal(ch[i], ch[j]) and len(steps) < 3, (i, j, len(steps)))


parallel.runs = 8
parallel.minruns = 4
SCENARIOS = [same_seed, different_seed, unseeded, processes, parallel]
