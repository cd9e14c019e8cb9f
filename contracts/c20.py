"""C20 - seeded runs are reproducible; parallel chains use independent randomness.

The generator is a ghost state: numpy.random.seed(x) sets it to a function of x, the draws
advance it.  Proved here: the constructor sets it from the seed the user gave, a worker of the
parallel driver gives it fresh entropy right before its run, and nothing that runs between
the constructor and the end of the simulation sets it again.  What a step does with the
numbers drawn is fixed by the contracts of the other properties (the verifier refuses code
whose outcome depends on anything else: clocks, process numbers, set order, object identity)."""
from . import c02, c03, c04, c05, c07, c08, c09, c10, c11, c14

MC = 'pymcmcstat.MCMC:MCMC'
PM = 'pymcmcstat.ParallelMCMC:'
ASSUMPTIONS = ['C20: numpy.random.seed(x) makes all later draws a function of x alone, numpy.random.seed() of fresh operating-system entropy',
               'C20: user functions (model, sum of squares, prior) are themselves deterministic']


def constructor(S):
    given = S.choice('given', ['number', 'nothing'])
    seed = S.int('seed', 0) if given == 'number' else None
    S.new(MC, rngseed=seed)
    ev = S.events('seed')
    S.ensure('generator-seeded-by-constructor', len(ev) >= 1)
    if ev:
        a = ev[-1][1][0]
        if given == 'number':
            S.ensure('seed-is-the-one-given', S.eq(S.up(a), seed) if a is not None else False)
        else:
            S.ensure('no-constant-default-seed', a is None)


constructor.symbolic_only = True


def worker(S):
    res = S.obj(None, tag=1)
    ran = []
    mc = S.obj(MC, simulation_options=S.obj(None, savedir='d'), simulation_results=res)

    def run(S, *a, **k):
        ran.append(list(S.events('seed')))
        return None
    S.stub(mc, 'run_simulation', MC + '.run_simulation', run)
    S.call(PM + 'run_serial_simulation', mc)
    S.ensure('chain-is-run-once', len(ran) == 1)
    for ev in ran:
        S.ensure('fresh-entropy-right-before-the-run', len(ev) >= 1 and ev[-1][1][0] is None)


worker.symbolic_only = True


def never_reseeded(c):
    def w(S):
        S.forbid('numpy.random.seed', 'generator-only-advanced-by-drawing')
        c(S)
        S.not_called('generator-only-advanced-by-drawing')
    w.__name__ = 'stream_' + c.__name__
    w.symbolic_only = True
    w.cost = getattr(c, 'cost', 1)
    return w


USED = [c for m, names in ((c02, ['metropolis_step']), (c03, ['alpha_stage2', 'driver_3_tries']), (c04, ['first_row_s2', 'simulator_s2_2try']), (c05, ['start_wiring']), (c07, ['below_burnin', 'adapted_factor', 'adapted_stages_3_tries', 'start_from_matrix', 'start_from_variances', 'start_default']),
                           (c08, ['conjugate_update']), (c09, ['accepted_draw', 'array_fill_2_2']), (c10, ['default_prior']), (c11, ['default_sum_of_squares_2_batch']), (c14, ['restart_memory', 'restart_none']))
        for c in m.CONTRACTS if names is None or c.__name__ in names]
CONTRACTS = [constructor, worker] + [never_reseeded(c) for c in USED]
