"""C16 - parallel chains get valid, separate set-ups and ordered results."""
from .common import INF, MC, MP
from .c13 import CHP, FILES, stored, same
PM = 'pymcmcstat.ParallelMCMC:'
PC = PM + 'ParallelMCMC'
SO = 'pymcmcstat.settings.SimulationOptions:SimulationOptions'
MS = 'pymcmcstat.settings.ModelSettings:ModelSettings'
DS = 'pymcmcstat.settings.DataStructure:DataStructure'
ASSUMPTIONS = ['C16: Pool.map returns one result per item, in the order of the items; a random_sample lies in [0, 1); copy.deepcopy copies every reachable mutable object']


def declared(S, n):
    th = S.arr('theta0', (n,))
    lo, hi = S.arr('minimum', (n,), ext=True, cvals=[-INF, -50., -30.]), S.arr('maximum', (n,), ext=True, cvals=[INF, 50., 30.])
    return th, lo, hi


def features(S):
    n = S.int('n', 1)
    th, lo, hi = declared(S, n)
    k, low, upp = S.call(PM + 'get_parameter_features', S.records(n, dict(name=lambda i: S.label(i), theta0=th, minimum=lo, maximum=hi)))
    S.ensure('number-of-parameters', S.eq(k, n))
    a = lambda i: 100 * S.abs(S.item(th, i))
    S.ensure_forall('lower-limit-or-finite-stand-in', (n,), lambda i: S.eq(S.item(low, i), S.ite(S.eq(S.item(lo, i), S.num(-INF)), S.item(th, i) - a(i), S.item(lo, i))))
    S.ensure_forall('upper-limit-or-finite-stand-in', (n,), lambda i: S.eq(S.item(upp, i), S.ite(S.eq(S.item(hi, i), S.num(INF)), S.item(th, i) + a(i), S.item(hi, i))))


def generated(S):
    n, k = S.int('n', 1), S.int('num_chain', 1)
    lo, hi = S.arr('lo', (n,), cvals=[-3., -1.]), S.arr('hi', (n,), cvals=[-1., 0., 4.])
    S.assume_forall((n,), lambda i: S.item(lo, i) <= S.item(hi, i))
    v, m = S.call(PM + 'check_initial_values', initial_values=None, num_chain=k, npar=n, low_lim=lo, upp_lim=hi)
    S.ensure('number-of-chains', S.eq(m, k))
    S.ensure('one-row-per-chain', S.and_(S.eq(S.shape(v)[0], k), S.eq(S.shape(v)[1], n)))
    S.ensure_forall('generated-values-within-limits', (k, n), lambda r, i: S.and_(S.item(lo, i) <= S.item(v, r, i), S.item(v, r, i) <= S.item(hi, i)))


def users(S):
    n, k = S.int('n', 1), S.int('num_chain', 1)
    rows, extra = S.int('rows', 1), S.int('extra', 0, cmax=2)
    if S.branch(S.eq(extra, 0)):
        extra = 0
    w = n + extra
    x = S.arr('x', (rows, w), cvals=[-2., -1., 0., 1.])
    lo, hi = S.arr('lo', (n,), cvals=[-2., -1.]), S.arr('hi', (n,), cvals=[0., 1.])
    x0 = S.snap(x)
    r = S.tryrun(lambda: S.call(PM + 'check_initial_values', initial_values=x, num_chain=k, npar=n, low_lim=lo, upp_lim=hi))
    ok = lambda t, i: S.and_(S.item(lo, i) <= S.item(x0, t, i), S.item(x0, t, i) <= S.item(hi, i))
    if S.raised(r):
        S.ensure('refusal-is-an-exit', r.cls == 'SystemExit')
        S.assume_forall((rows, n), ok)
        return S.ensure('refused-only-if-outside-limits', False)
    v, m = r
    S.ensure('rows-decide-the-number-of-chains', S.eq(m, rows))
    S.ensure('one-column-per-parameter', S.and_(S.eq(S.shape(v)[0], rows), S.eq(S.shape(v)[1], n)))
    S.ensure_forall('accepted-values-within-limits', (rows, n), ok)
    S.ensure_forall('users-values-used-in-order', (rows, n), lambda t, i: S.eq(S.item(v, t, i), S.item(x0, t, i)))
    S.ensure_forall('users-array-unchanged', (rows, w), lambda t, i: S.eq(S.item(x, t, i), S.item(x0, t, i)))


def setups(given):
    def c(S):
        n, K = S.int('n', 1), 3
        th, lo, hi = declared(S, n)
        smp = S.arr('sample', (n,), dtype='b')
        x = S.arr('x', (K, n))
        val = S.arr('generated', (K, n))
        par = S.obj(MP, parameters=S.records(n, dict(name=lambda i: S.label(i), theta0=th, minimum=lo, maximum=hi, sample=lambda i: S.pyb(S.item(smp, i)))))
        data = S.obj(DS, xdata=S.list([S.arr('xd', (2, 1))]), ydata=S.list([S.arr('yd', (2, 1))]), n=S.list([2]), weight=S.list([1]))
        opt = S.obj(SO, nsimu=S.int('nsimu', 1), savedir='D', results_filename=None, json_restart_file=None, save_to_txt=False, save_to_bin=True, save_to_json=True, qcov=S.arr('qcov', (n, n)))
        ms = S.obj(MS, sos_function=None, sigma2=S.arr('s2', (1,)), N=S.arr('N', (1,), dtype='i', lo=1, hi=9))
        mc = S.obj(MC, data=data, simulation_options=opt, model_settings=ms, parameters=par)
        S.summary(PM + 'check_initial_values', lambda S, env: (S.snap(x) if given else S.snap(val), K))
        S.summary(PM + 'check_directory', lambda S, env: None)
        S.summary(PM + 'assign_number_of_cores', lambda S, env: 2)
        pm = S.new(PC)
        S.method(pm, 'setup_parallel_simulation', mc, initial_values=x if given else None, num_cores=2, num_chain=K)
        ch = S.get(pm, 'parmc')
        S.ensure('one-set-up-per-chain', S.eq(S.len(ch), K))
        fld = lambda o, j, k: S.item(S.item(S.get(S.get(o, 'parameters'), 'parameters'), j), k)
        for a in range(K):
            m = S.item(ch, a)
            start = (lambda j: S.item(x, a, j)) if given else (lambda j: S.ite(S.truthy(S.item(smp, j)), S.item(val, a, j), S.item(th, j)))
            S.ensure_forall('chain-starts-from-its-own-row', (n,), lambda j: S.eq(fld(m, j, 'theta0'), start(j)))
            S.ensure_forall('declared-limits-kept', (n,), lambda j: S.and_(S.eq(fld(m, j, 'minimum'), S.item(lo, j)), S.eq(fld(m, j, 'maximum'), S.item(hi, j))))
            S.ensure('own-directory', S.text(S.get(S.get(m, 'simulation_options'), 'savedir')) == 'D/chain_%d' % a)
            S.ensure('own-results-file', S.text(S.get(S.get(m, 'simulation_options'), 'results_filename')) == 'chain_%d.json' % a)
            S.ensure('options-kept', S.eq(S.get(S.get(m, 'simulation_options'), 'nsimu'), S.get(opt, 'nsimu')))
            S.ensure_forall('model-settings-kept', (1,), lambda i: S.eq(S.item(S.get(S.get(m, 'model_settings'), 'sigma2'), i), S.item(S.get(ms, 'sigma2'), i)))
            for k in ('data', 'simulation_options', 'model_settings', 'parameters'):
                S.ensure('shares-nothing-with-the-original', S.disjoint(S.get(m, k), S.list([data, opt, ms, par])))
                for b in range(a):
                    S.ensure('shares-nothing-with-other-chains', S.disjoint(S.get(m, k), S.item(ch, b)))
        S.ensure_forall('original-parameters-unchanged', (n,), lambda j: S.eq(S.item(S.item(S.get(par, 'parameters'), j), 'theta0'), S.item(th, j)))
        S.ensure('original-options-unchanged', S.get(opt, 'savedir') == 'D' and S.get(opt, 'results_filename') is None)
    c.__name__ = 'separate_setups_%s' % ('given' if given else 'generated')
    c.symbolic_only = True
    return c


def ordered_results(S):
    K = 3
    ms = [S.obj(MC, tag=i) for i in range(K)]
    pm = S.obj(PC, parmc=S.list(ms), num_chain=K, num_cores=2)

    def pool(S, *a, **k):
        def mp(S, f, items, *a):
            return S.list([S.obj(None, of=S.item(items, i)) for i in range(S.len(items).__index__())])
        return S.obj(None, map=S.fn(mp), close=S.fn(lambda S: None), join=S.fn(lambda S: None))
    S.ext_hook('multiprocessing.Pool', pool)
    S.method(pm, 'run_parallel_simulation')
    for i in range(K):
        S.ensure('result-of-the-same-chain', S.same_obj(S.get(S.get(ms[i], 'simulation_results'), 'of'), ms[i]))


ordered_results.symbolic_only = True


def load_parallel(mod, ext, has):
    """loading stored parallel results: entry i is chain i, with its own summary and its own files, whatever the directory order"""
    def c(S):
        names = dict(zip(FILES, ('pars', 'errors', 'vars', 'covs'))) if ext == 'h5' else {a: a + 'file' for a in FILES}
        num = [0, 1, 2, 9, 10, 11]
        ns, own = {i: S.int('n%d' % i, 1) for i in num}, {i: S.arr('own%d' % i, (S.int('k%d' % i, 1), 2)) for i in num}

        def summary(S, name):
            i = [j for j in num if name == 'par/chain_%d/chain_%d.json' % (j, j)]
            S.ensure('the-summary-of-a-chain-is-read', len(i) == 1)
            return S.dict(dict(nsimu=ns[i[0]], **({'chain': own[i[0]]} if has else {})))
        mats = stored(S, ['par/chain_%d' % i for i in num], ext, names, summary)

        def listdir(S, d):
            if d == 'par':
                return S.list(['chain_10', 'chain_2', 'notes', 'chain_0', 'chain_list.txt', 'chain_11', 'chain_1', 'chain_9'])
            return S.list([x.split('/')[-1] for x in mats if x.startswith(d + '/')])
        S.ext_hook('os.listdir', listdir)
        S.ext_hook('os.path.isdir', lambda S, d: d == 'par/notes' or d in ['par/chain_%d' % i for i in num])
        kw = {a + 'file': names[a] for a in FILES} if ext == 'h5' else {}
        r = S.call(mod + 'load_parallel_simulation_results', 'par', extension=ext, **kw)
        S.ensure('one-result-per-chain', S.eq(S.len(r), len(num)))
        for i, j in enumerate(num):
            x = S.item(r, i)
            S.ensure('summary-of-the-same-chain', S.eq(S.item(x, 'nsimu'), ns[j]))
            if has:
                same(S, 'stored-chain-of-the-same-chain', S.item(x, 'chain'), own[j])
            else:
                for a in FILES:
                    same(S, 'files-of-the-same-chain', S.item(x, a), mats['par/chain_%d/%s.%s' % (j, names[a], ext)])
    c.__name__ = 'load_parallel_%s_%s_%s' % ('parallel' if 'Parallel' in mod else 'processing', ext, 'chains_in_summary' if has else 'chains_in_files')
    c.symbolic_only = True
    return c


CONTRACTS = [load_parallel(PM, 'h5', False), load_parallel(PM, 'txt', False), load_parallel(PM, 'h5', True), load_parallel(CHP, 'h5', False), load_parallel(CHP, 'h5', True), features, generated, users, setups(True), setups(False), ordered_results]
