"""Decide one property (run with python3-vt):  check.py CNN [--thorough]

1. every contract of the property is verified against /repo's current source,
   one obligation at a time (symbolic execution of the unmodified text, Z3/cvc5);
2. the same contracts, and the whole-system stand-ins labelled bounded, run on the
   real code with sampled inputs;
3. exit 0 only if every obligation was discharged and no run failed.
Any failure is turned into a replay file; if no failing input is known for an
undischarged obligation the VIOLATION line ends with no-failing-input-found."""
import sys
import os
import json
import time
import subprocess
import importlib
import signal
import tempfile
import threading
import shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
VT = os.environ.get('VERIF_VT', 'python3-vt')
PY = os.environ.get('VERIF_PY', '/opt/venv/bin/python')
TRUSTED = [
    'numpy / scipy / Python built-ins behave as modelled in pyvc/extlib.py and pyvc/npm.py (element-wise ops, slicing, reductions, cholesky/inverse axioms, uniform draws in [0,1))',
    'finite floating-point arithmetic is treated as exact real arithmetic (rounding and overflow of finite operations are not modelled); inf and nan follow IEEE rules',
    'the symbolic interpreter pyvc (Python semantics of the subset it accepts) and the solvers Z3 and cvc5',
    'printing, docstrings, wall-clock times and progress bars are dropped; termination is not proved (partial correctness)',
]


STOP = threading.Event()  # a failing input is already known: proofs still running are cut short


def run_proof(mod, name, work, tmo, wall):
    out = os.path.join(work, 'p_%s.json' % name)
    cmd = [VT, os.path.join(HERE, 'prove.py'), mod, name, out, str(tmo), str(wall)]
    t0 = time.time()
    ef = os.path.join(work, 'p_%s.err' % name)
    with open(ef, 'w') as eh:
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=eh, cwd=HERE, start_new_session=True)
        why = None
        nap = .02
        while p.poll() is None:
            el = time.time() - t0
            if el > wall + 30:
                why = 'proof process exceeded %d s' % (wall + 30)
            elif STOP.is_set() and el > 25:
                why = 'stopped, a failing input is already known'
            if why:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
                break
            time.sleep(nap)
            nap = min(.25, nap * 1.3)
    err = why or open(ef).read()[-1500:]
    try:
        r = json.load(open(out))
    except Exception:
        r = dict(error='no result: ' + err, obligations=[], fails=[], paths=0, functions=[], inlined=[], summaries=[], trusted=[], inv=[], ensures={}, stats={}, wall=time.time() - t0, contract=name)
    return r


def run_conc(prop, work, tag, seed, n, budget, extra=()):
    out = os.path.join(work, 'c_%s.json' % tag)
    cmd = [PY, os.path.join(HERE, 'conc', 'run.py'), prop, out, str(seed), str(n), '--budget', str(budget)] + list(extra)
    env = dict(os.environ, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=budget * 3 + 120, cwd=work, env=env)
        err = p.stderr[-3000:]
        rc = p.returncode
    except subprocess.TimeoutExpired:
        err, rc = 'timeout', -9
    try:
        return json.load(open(out))
    except Exception:
        return dict(contracts={}, scenarios={}, fails=[], error='concrete runner rc=%s: %s' % (rc, err), wall=0)


def load_known(prop):
    try:
        d = json.load(open(os.path.join(HERE, 'known_findings.json')))
    except Exception:
        return []
    return [k for k in d.get('findings', []) if k.get('property') == prop and k.get('status') == 'open']


def is_known(f, known):
    for k in known:
        if f['kind'] == k.get('kind') and f['name'] == k.get('name') and all(any(a[0] == m for m in k.get('clauses', [])) for a in f['failed']):
            return k
    return None


def main():
    prop = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='vchk_%s_' % prop)
    rc = 1
    try:
        rc = decide(prop, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def decide(prop, tier, seed, work, t0):
    thorough = tier == 'thorough'
    mod = prop.lower()
    try:
        cm = importlib.import_module('contracts.' + mod)
        contracts = [c for c in cm.CONTRACTS]
    except ModuleNotFoundError:
        cm, contracts = None, []
    proofs = [c.__name__ for c in contracts if not getattr(c, 'concrete_only', False)]
    bounded = [c.__name__ for c in contracts if getattr(c, 'concrete_only', False)]
    tmo, wall = (30000, 1500) if thorough else (12000, 330)
    n = 4000 if thorough else 300
    cb = 240 if thorough else 40
    known = load_known(prop)
    has_scen = os.path.exists(os.path.join(HERE, 'scen', mod + '.py'))

    def notice(f):
        try:
            if any(not is_known(x, known) for x in f.result()['fails']):
                STOP.set()
        except Exception:
            pass
    with ThreadPoolExecutor(8) as ex:
        fconc = ex.submit(run_conc, prop, work, 'con', seed, n, cb, ('--con-only',)) if contracts else None
        fscen = ex.submit(run_conc, prop, work, 'scen', seed, n, cb * 1.5, ('--scen-only',)) if has_scen else None
        for f in (fconc, fscen):
            if f is not None:
                f.add_done_callback(notice)
        # slow proofs first
        proofs.sort(key=lambda q: -getattr([c for c in contracts if c.__name__ == q][0], 'cost', 1))
        fp = {q: ex.submit(run_proof, mod, q, work, tmo, wall) for q in proofs}
        presults = {q: f.result() for q, f in fp.items()}
        conc = fconc.result() if fconc else dict(contracts={}, scenarios={}, fails=[], wall=0)
        scen = fscen.result() if fscen else dict(contracts={}, scenarios={}, fails=[], wall=0)

        # undecided obligations get one retry with more time
        def undecided(r):
            return r.get('error') and ('time limit' in r['error'] or 'no result' in r['error']) or any(f['status'] == 'unknown' for f in r['fails'])
        again = [q for q in proofs if undecided(presults[q]) and not any(f['status'] == 'refuted' for f in presults[q]['fails'])]
        if again and time.time() - t0 < 400 and not (conc['fails'] or scen['fails']):
            left = max(60, min(300, 650 - (time.time() - t0)))
            fp = {q: ex.submit(run_proof, mod, q, work, tmo * 3, left) for q in again}
            for q, f in fp.items():
                r = f.result()
                if not r.get('error') or presults[q].get('error'):
                    presults[q] = r
    obligations = sum(len(r['obligations']) for r in presults.values())
    discharged = sum(1 for r in presults.values() for o in r['obligations'] if o[2] == 'proved')
    bad = []
    for q, r in presults.items():
        if r.get('error'):
            bad.append((q, 'not verified: ' + r['error'], r, None))
        elif not r['obligations'] or not r['paths']:
            bad.append((q, 'vacuous: no obligation was generated', r, None))
        for f in r['fails']:
            bad.append((q, 'obligation %s %s' % (f['name'], f['status']), r, f))
        exp = getattr([c for c in contracts if c.__name__ == q][0], 'expects', None)
    # vacuity of the concrete runs
    for src in (conc, scen):
        if src.get('error'):
            bad.append(('concrete', src['error'], None, None))
    fails = list(conc['fails']) + list(scen['fails'])
    search = 0
    if bad and not fails:
        # counterexample replay, then a wider search for a failing input
        seen = set()
        for q, why, r, f in bad:
            if q in seen or q == 'concrete':
                continue
            if f and f.get('model'):
                gf = os.path.join(work, 'given_%s.json' % q)
                json.dump(f['model'], open(gf, 'w'))
                c = run_conc(prop, work, 'g_' + q, seed, 1, 20, ('--con-only', '--only', q, '--given', gf))
                search += 1
                fails += c['fails']
                if fails:
                    break
            seen.add(q)
        if not fails and time.time() - t0 < 600:
            b = 90 if not thorough else 300
            with ThreadPoolExecutor(8) as ex:
                fs = [ex.submit(run_conc, prop, work, 's%d' % k, seed * 7919 + 13 * k + 1, 20000, b, ('--con-only',)) for k in range(3)] if contracts else []
                fs += [ex.submit(run_conc, prop, work, 't%d' % k, seed * 7907 + 17 * k + 1, 20000, b, ('--scen-only',)) for k in range(4)] if has_scen else []
                for f in fs:
                    fails += f.result()['fails']
                    search += 1
    violations = []
    told = set()
    for f in fails:
        k = is_known(f, known)
        if k:
            if k['what'] not in told:
                print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
            told.add(k['what'])
            continue
        violations.append(f)
    rdir = os.path.join(HERE, 'replays')
    rc = 0
    if violations:
        os.makedirs(rdir, exist_ok=True)
        f = violations[0]
        path = os.path.join(rdir, '%s_%s.json' % (prop, f['name']))
        f = dict(f, how='%s %s --replay %s' % (PY, os.path.join(HERE, 'conc', 'run.py'), path),
                 failed_obligations=[(q, why) for q, why, _, _ in bad][:20])
        json.dump(f, open(path, 'w'), indent=1, default=str)
        print('failed: %s %s %s' % (f['kind'], f['name'], str(f['failed'])[:600]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        rc = 1
    elif bad:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s_obligation.json' % prop)
        json.dump(dict(kind='obligation', property=prop, reason='the verifier did not accept an obligation; no failing input was found',
                       obligations=[dict(contract=q, why=why, verifier_output=dict(f or {}), traceback=(r or {}).get('tb')) for q, why, r, f in bad][:20]),
                  open(path, 'w'), indent=1, default=str)
        for q, why, _, _ in bad[:6]:
            print('undischarged: %s: %s' % (q, why[:300]))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        rc = 1
    write_evidence(prop, tier, seed, cm, presults, conc, scen, obligations, discharged, bounded, rc, t0, violations, bad, known)
    if rc == 0:
        print('OK property=%s obligations=%d discharged=%d concrete=%d scenarios=%d wall=%.1fs' % (
            prop, obligations, discharged, sum(d['ok'] for d in conc['contracts'].values()),
            sum(d['runs'] for d in scen['scenarios'].values()), time.time() - t0))
    return rc


def write_evidence(prop, tier, seed, cm, presults, conc, scen, obligations, discharged, bounded, rc, t0, violations, bad, known):
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    back = {}
    fns, inl, summ, trust = set(), set(), set(), set()
    solver = 0.0
    for r in presults.values():
        for o in r['obligations']:
            if o[2] == 'proved':
                back[o[3]] = back.get(o[3], 0) + 1
        fns |= set(r.get('functions', []))
        inl |= set(r.get('inlined', []))
        summ |= set(r.get('summaries', []))
        trust |= set(r.get('trusted', []))
        solver += (r.get('stats') or {}).get('solver_s', 0)
    nconc = sum(d['ok'] for d in conc['contracts'].values())
    samples = [dict(contract=k, inputs=d['sample']) for k, d in list(conc['contracts'].items())[:4] if d['sample']]
    samples += [dict(scenario=k, setup=d['sample']) for k, d in list(scen['scenarios'].items())[:4]]
    proof = bool(presults)
    cov = dict(
        obligations=obligations, discharged=discharged,
        checker_cmd='%s check.py %s' % (VT, prop),
        trusted_base=TRUSTED + ['assumed contract of external: %s' % t for t in sorted(trust)],
        functions_under_contract=sorted(fns), inlined_callees=sorted(inl), callees_by_contract=sorted(summ),
        discharged_by_backend=back, solver_seconds=round(solver, 2),
        contracts={q: dict(obligations=len(r['obligations']), paths=r['paths'], ensures=r.get('ensures'), loop_invariants=r.get('inv'),
                           wall_s=round(r.get('wall', 0), 2), error=r.get('error')) for q, r in presults.items()},
        bounded_standins=dict(
            note='bounded: sampled executions of the real code, never counted as proved',
            contracts_only_run_concretely=bounded,
            evaluations=nconc + sum(d['runs'] for d in scen['scenarios'].values()),
            contract_runs={k: dict(ok=d['ok'], skipped=d['skip'], failed=d['fail'], clauses=d['checked']) for k, d in conc['contracts'].items()},
            scenario_runs={k: dict(runs=d['runs'], failed=d['fail'], clauses=d['checked']) for k, d in scen['scenarios'].items()}),
        samples=samples)
    level = 'proof' if proof else 'exploration'
    if not proof:
        cov['evaluations'] = cov['bounded_standins']['evaluations']
        cov['distinct_nontrivial'] = cov['evaluations']
        cov['rule'] = 'random set-ups by seed; every run exercises the real code'
    d = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
             assumptions=TRUSTED + list(getattr(cm, 'ASSUMPTIONS', []) if cm else []) + ['known finding: ' + k['what'] for k in known],
             wall_s=round(time.time() - t0, 2), violations=len(violations) + (1 if bad and not violations else 0))
    json.dump(d, open(os.path.join(ev, prop + '.json'), 'w'), indent=1, default=str)


main()
