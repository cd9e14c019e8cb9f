import os
import numpy as np
from conc.sysrun import problem, execute, again


def log_ranges(path):
    out = []
    for ln in open(path):
        f = ln.split('\t')
        out.append((int(f[-2]), int(f[-1])))
    return out


def logging(s):
    from pymcmcstat.chain import ChainProcessing as CP
    r = s.r
    d = os.path.join(s.scratch(), 'log')
    ns = r.choice([1, 2, 3, 5, 7, 12, 23, 40, 120])
    P = problem(s, nsimu=ns)
    P.opt['nsimu'] = ns
    P.opt['savesize'] = r.choice([0, 1, 2, 3, 5, 7, 10, ns - 1, ns, ns + 1, 1000])
    P.opt['save_to_bin'] = r.random() < .7
    P.opt['save_to_txt'] = (not P.opt['save_to_bin']) or r.random() < .4
    P.opt['save_to_json'] = r.random() < .4
    if P.opt['save_to_json']:
        P.opt['results_filename'] = 'summary.json'
        P.opt['save_lightly'] = r.choice([True, False])
    names = {}
    if r.random() < .4:
        names = dict(chainfile='mychain', sschainfile='myss', s2chainfile='mys2', covchainfile='mycov')
        P.opt.update(names)
    R = execute(s, P, savedir=d)
    runs = r.choice([0, 0, 0, 1, 2])
    for _ in range(runs):
        opt = dict(P.opt, savedir=d)
        if r.random() < .5:
            opt['nsimu'] = r.choice([2, 4, 9])
            opt['savesize'] = r.choice([0, 1, 3, opt['nsimu']])
        R = again(s, P, R, **opt)
    s.desc['runs'] = runs
    res = R.res
    n = res['chain'].shape[0]
    for ext, on, log in (('h5', P.opt['save_to_bin'], 'binlogfile.txt'), ('txt', P.opt['save_to_txt'], 'txtlogfile.txt')):
        if not on:
            s.check('format-not-asked-for-not-written', not os.path.exists(os.path.join(d, names.get('chainfile', 'chainfile') + '.' + ext)))
            continue
        rg = [x for x in log_ranges(os.path.join(d, log))]
        rows = [k for a, b in rg for k in range(a, b + 1)]
        s.check('log-covers-every-row-once-in-order', rows == list(range(n)), (rg, n))
        out = CP.read_in_savedir_files(d, extension=ext, **names)
        L = CP.load_serial_simulation_results(d, extension=ext, **names)
        if P.opt['save_to_json']:
            s.close('summary-loaded', L['theta'], res['theta'], rtol=1e-12, atol=0)
            s.check('summary-loaded', list(L['names']) == list(res['names']), L['names'])
        C = np.asarray(out['covchain'], float)
        s.check('covariance-log-ends-with-the-final-proposal-covariance', C.ndim == 2 and np.allclose(C[-C.shape[1]:], np.dot(res['R'].T, res['R']), rtol=1e-10, atol=0), (ext, C.shape))
        for k in ('chain', 'sschain', 's2chain'):
            if res[k] is not None:
                a, b = np.asarray(L[k], float), np.asarray(res[k], float)
                s.check('loading-reproduces-the-chains', a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=0, equal_nan=True), (ext, k, a.shape, b.shape))
        for k in ('chain', 'sschain', 's2chain'):
            if res[k] is None:
                s.check('no-variance-chain-file', len(out[k]) == 0, k)
                continue
            a, b = np.asarray(out[k], float), np.asarray(res[k], float)
            s.check('files-hold-the-chains', a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=0, equal_nan=True), (ext, k, a.shape, b.shape))
        if ext == 'h5':
            import h5py
            with h5py.File(os.path.join(d, names.get('chainfile', 'chainfile') + '.h5'), 'r') as h:
                nonempty = sorted((int(q.split('_')[1]), int(q.split('_')[2]), h[q].shape[0]) for q in h.keys() if h[q].shape[0])
            s.check('blocks-listed-in-log', [(a, b) for a, b, _ in nonempty] == [(a, b) for a, b in rg if b >= a], (nonempty, rg))


def order_of_blocks(s):
    """blocks come back in the order they were written whatever their number and sizes"""
    from pymcmcstat.chain import ChainProcessing as CP
    r = s.r
    f = os.path.join(s.scratch(), 'c')
    k = r.choice([1, 2, 9, 11, 15])
    w = r.choice([1, 3])
    rows, a = [], 0
    for q in range(k):
        m = r.choice([1, 2, 5, 10])
        M = s.np.randn(m, w)
        CP._save_to_bin_file(f + '.h5', 'nsimu_%d_%d' % (a, a + m - 1), M)
        CP._save_to_txt_file(f + '.txt', M)
        rows.append(M)
        a += m
    E = np.concatenate(rows)
    s.same('binary-blocks-in-order', CP.read_in_bin_file(f + '.h5'), E)
    s.close('text-blocks-in-order', CP.read_in_txt_file(f + '.txt'), E, rtol=1e-12, atol=0)


order_of_blocks.weight = .4
SCENARIOS = [logging, order_of_blocks]
