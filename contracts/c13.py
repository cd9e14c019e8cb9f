"""C13 - log files hold the whole chain once, in order."""
from .common import simulator, MC, PS
ASSUMPTIONS = ['C13: h5py stores a data set under its name and returns it unchanged; numpy text files are appended to and read back unchanged']


def log(us, ext, continued):
    def c(S):
        q = simulator(S, us, 1, continued, ext)
        for nm in sorted(x for x in ('c_h5', 'c_txt', 's_h5', 's_txt', 'v_h5', 'v_txt', 'log_h5', 'log_txt') if S.has(q.files, x)):
            S.ensure('everything-written-once', S.eq(S.get(q.files, nm), q.rows))
    c.__name__ = 'log_%s_%s_%s' % ('s2' if us else 'fixed', ext, 'continued' if continued else 'fresh')
    c.symbolic_only = True
    c.cost = 6
    return c


def blocks(us, how):
    """what is written to each file is the chain of that run (the arrays themselves, not copies)"""
    def c(S):
        n, p, m, k = S.int('nsimu', 1), S.int('p', 1), S.int('m', 1), S.int('k', 1)
        mc = S.obj(MC, simulation_options=S.obj(None, chainfile='c', sschainfile='s', s2chainfile='v'), _MCMC__chain=S.arr('c', (k, p)), _MCMC__sschain=S.arr('s', (k, m)),
                   _MCMC__s2chain=S.arr('v', (k, m)) if us else None, _MCMC__initial_set=S.obj(PS, theta=S.arr('theta', (p,)), ss=S.arr('ss', (m,)), prior=0))
        if how == 'fresh':
            S.method(mc, '_MCMC__initialize_chains', chainind=0, nsimu=n, npar=p, nsos=m, updatesigma=us, sigma2=S.arr('s2', (m,)))
        else:
            S.method(mc, '_MCMC__expand_chains', nsimu=n, npar=p, nsos=m, updatesigma=us)
        b = S.get(mc, '_MCMC__chains')
        want = [('c', 'chain'), ('s', 'sschain')] + ([('v', 's2chain')] if us else [])
        S.ensure('one-file-per-chain', S.eq(S.len(b), len(want)))
        got = {S.item(S.item(b, i), 'file'): S.item(S.item(b, i), 'mtx') for i in range(len(want))}
        for f, a in want:
            S.ensure('file-receives-its-chain', f in got and S.same_obj(got[f], S.get(mc, '_MCMC__' + a)))
    c.__name__ = 'blocks_%s_%s' % ('s2' if us else 'fixed', how)
    return c


def read_back(names):
    """a binary file is read back block after block, in the order the blocks were generated, whatever their lengths"""
    def c(S):
        p = S.int('p', 1)
        rows = [S.int('r%d' % i, 1) for i in range(len(names))]
        mtx = [S.arr('b%d' % i, (r, p)) for i, r in enumerate(rows)]
        by = dict(zip(names, mtx))
        opened = []

        def File(S, name, *a, **k):
            opened.append(name)
            return S.h5file({x: by[x] for x in sorted(names)})
        S.ext_hook('h5py.File', File)
        r = S.call('pymcmcstat.chain.ChainProcessing:read_in_bin_file', 'some/file.h5')
        S.ensure('the-file-itself-is-read', opened == ['some/file.h5'])
        S.ensure('a-matrix-is-read', S.isarr(r))
        if not S.isarr(r):
            return
        tot = 0
        for x in rows:
            tot = tot + x
        S.ensure('all-rows-read', S.and_(S.eq(S.shape(r)[0], tot), S.eq(S.shape(r)[1], p)))
        a = 0
        for i, x in enumerate(rows):
            S.ensure_forall('rows-in-the-order-they-were-generated', (x, p), lambda j, k, a=a, i=i: S.eq(S.item(r, a + j, k), S.item(mtx[i], j, k)))
            a = a + x
    c.__name__ = 'read_back_%d_blocks' % len(names)
    c.symbolic_only = True
    return c


CHP = 'pymcmcstat.chain.ChainProcessing:'
FILES = ('chain', 'sschain', 's2chain', 'covchain')


def stored(S, dirs, ext, names, summary):
    """a directory tree with one file per chain and a JSON summary; what is read from a file is the content of that file"""
    mats, js, p = {}, {}, S.int('p', 1)
    for d in dirs:
        for a in FILES:
            mats['%s/%s.%s' % (d, names[a], ext)] = S.arr('m_%s_%s' % (d.replace('/', '_'), a), (S.int('r_%s_%s' % (d.replace('/', '_'), a), 1), p))

    def read(S, env):
        f = env['filename']
        S.ensure('only-files-of-this-run-are-read', f in mats)
        return mats[f]
    S.summary(CHP + 'read_in_bin_file' if ext == 'h5' else CHP + 'read_in_txt_file', read)
    for q in (CHP, 'pymcmcstat.structures.ResultsStructure:ResultsStructure.'):
        S.summary(q + 'load_json_object', lambda S, env: summary(S, env['filename']))
    return mats


def load_serial(ext, has):
    """loading a stored run: every chain comes from its own file, whatever the file names; results that hold their chains keep them"""
    def c(S):
        names = dict(zip(FILES, ('pars', 'errors', 'vars', 'covs'))) if ext == 'h5' else {a: a + 'file' for a in FILES}
        nsimu, own = S.int('nsimu', 1), S.arr('own', (S.int('k', 1),))

        def summary(S, name):
            S.ensure('the-summary-of-this-run-is-read', name == 'out/run.json')
            return S.dict(dict(nsimu=nsimu, theta=own, **({'chain': own} if has else {})))
        mats = stored(S, ['out'], ext, names, summary)
        S.ext_hook('os.listdir', lambda S, d: S.list(['x.' + ext, 'run.json'] + [x.split('/')[1] for x in mats]))
        kw = {a + 'file': names[a] for a in FILES} if ext == 'h5' else {}
        r = S.call(CHP + 'load_serial_simulation_results', 'out', extension=ext, **kw)
        S.ensure('summary-kept', S.eq(S.item(r, 'nsimu'), nsimu))
        same(S, 'summary-kept', S.item(r, 'theta'), own)
        if has:
            same(S, 'stored-chain-kept', S.item(r, 'chain'), own)
        else:
            for a in FILES:
                same(S, 'chain-comes-from-its-own-file', S.item(r, a), mats['out/%s.%s' % (names[a], ext)])
    c.__name__ = 'load_serial_%s_%s' % (ext, 'chains_in_summary' if has else 'chains_in_files')
    c.symbolic_only = True
    return c


def same(S, clause, a, b):
    S.ensure(clause, S.isarr(a))
    if S.isarr(a):
        sa, sb = S.shape(a), S.shape(b)
        S.ensure(clause, len(sa) == len(sb) and S.and_(*[S.eq(x, y) for x, y in zip(sa, sb)]))
        S.ensure_forall(clause, sb, lambda *i: S.eq(S.item(a, *i), S.item(b, *i)))


CONTRACTS = [load_serial('h5', False), load_serial('txt', False), load_serial('h5', True)] + [read_back(x) for x in (['nsimu_0_4'], ['nsimu_0_8', 'nsimu_9_19'], ['nsimu_0_4', 'nsimu_5_9', 'nsimu_10_101'], ['nsimu_0_99', 'nsimu_100_199', 'nsimu_200_999', 'nsimu_1000_1001'])] + [blocks(u, h) for u in (False, True) for h in ('fresh', 'continued')] + [log(False, 'h5', False), log(True, 'both', False), log(False, 'txt', True), log(True, 'both', True)]
