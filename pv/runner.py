"""Runs one property: proofs first, then the same contracts evaluated on the real code."""
import importlib
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('PV_EVIDENCE') or os.path.join(VERIF, 'evidence')


def _run_unit(job):
    pid, name, tier = job
    import signal
    from . import vm as V
    from .sym import Unsupported
    mod = importlib.import_module('props.' + pid.lower())
    fn, opts = next((u[1], u[2] if len(u) > 2 else {}) for u in mod.UNITS if u[0] == name)
    m = V.VM()
    t0 = time.time()
    out = dict(unit=name, status='proved', failures=[], why='')
    lim = opts.get('max_s', 240 if tier == 'quick' else 900)

    def onalarm(*a):
        raise TimeoutError('unit time limit')
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(int(lim) + 60)
    try:
        if 'prove_ms' in opts:
            m.PROVE_MS = opts['prove_ms']
        if 'feas_ms' in opts:
            m.FEAS_MS = opts['feas_ms']
        fails = m.explore(name, fn, max_paths=opts.get('max_paths', 4000), max_s=lim)
        if fails:
            out['status'] = 'refuted' if any(f.status == 'sat' for f in fails) else 'undecided'
            out['failures'] = [dict(unit=f.unit, label=f.label, status=f.status, model=f.model,
                                    detail=str(f.detail)) for f in fails]
    except Unsupported as e:
        out['status'] = 'unsupported'
        out['why'] = str(e)
    except TimeoutError as e:
        out['status'] = 'unsupported'
        out['why'] = str(e)
    except RecursionError as e:
        out['status'] = 'unsupported'
        out['why'] = 'recursion'
    except BaseException as e:      # an engine error never decides anything
        out['status'] = 'unsupported'
        out['why'] = 'engine: ' + ''.join(traceback.format_exception_only(type(e), e)).strip()
        out['trace'] = traceback.format_exc()
    finally:
        signal.alarm(0)
    out['obligations'] = m.stats['obligations']
    out['discharged'] = m.stats['discharged']
    out['by'] = m.stats['by']
    out['paths'] = m.stats['paths']
    out['loops'] = m.stats['loops']
    out['solver_s'] = round(m.stats['solver_s'], 3)
    out['functions'] = sorted(m.functions)
    out['assumed'] = sorted(m.assumed)
    out['wall'] = round(time.time() - t0, 2)
    return out


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def known_findings():
    out = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln:
                out.append(json.loads(ln))
    return out


def prove_all(pid, units, tier, workers=8):
    jobs = [(pid, u[0], tier) for u in units]
    if not jobs:
        return []
    if len(jobs) == 1 or os.environ.get('PV_SERIAL'):
        return [_run_unit(j) for j in jobs]
    ctx = mp.get_context('fork')
    with ctx.Pool(min(workers, len(jobs)), maxtasksperchild=1) as pool:
        rs = [(j, pool.apply_async(_run_unit, (j,))) for j in jobs]
        out = []
        tend = time.time() + (600 if tier == 'quick' else 3600)
        for j, r in rs:
            try:
                out.append(r.get(timeout=max(1, tend - time.time())))
            except Exception as e:
                out.append(dict(unit=j[1], status='unsupported', failures=[], why='worker: %r' % e, obligations=0, discharged=0,
                                by={}, paths=0, loops=0, solver_s=0.0, functions=[], assumed=[], wall=0))
        pool.terminate()
        return out


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--thorough', action='store_true')
    ap.add_argument('--unit')
    ap.add_argument('--noproof', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    pid = a.pid
    tier = 'thorough' if a.thorough or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)

    mod = importlib.import_module('props.' + pid.lower())
    if a.replay:
        from . import realenv
        realenv.ensure(getattr(mod, 'NEEDS_NATIVE', False))
        d = json.load(open(a.replay))
        r = mod.run_case(d['case'])
        print('reproduced: %s' % r if r else 'did not reproduce')
        return 1 if r else 0
    units = [u for u in mod.UNITS if not a.unit or a.unit in u[0]]
    results = [] if a.noproof else prove_all(pid, units, tier)
    if a.v:
        for r in results:
            print('%-45s %-11s obl=%d/%d paths=%d %.1fs %s' % (r['unit'], r['status'], r['discharged'], r['obligations'], r['paths'], r['wall'], r['why']))
            for f in r['failures']:
                print('     ', f)
            if 'trace' in r:
                print(r['trace'][-900:])
    bad = [r for r in results if r['status'] in ('refuted', 'undecided')]
    uns = [r for r in results if r['status'] == 'unsupported']

    # ---- the same contracts, evaluated on the real code
    from . import realenv
    realenv.ensure(getattr(mod, 'NEEDS_NATIVE', False))
    hints = [f for r in bad for f in r['failures']]
    budget = getattr(mod, 'BUDGET', 12)
    if tier == 'thorough':
        budget *= 15
    elif bad or uns:
        budget = max(budget * 4, 60)
    known = [k for k in known_findings() if k.get('property') == pid and k.get('status') == 'known']
    violation = None
    ncases = 0
    distinct = set()
    samples = []
    known_hit = set()
    conf_err = None

    def attempt(case):
        nonlocal ncases, violation
        ncases += 1
        try:
            r = mod.run_case(case)
        except Exception:
            r = 'exception from the code under test: ' + traceback.format_exc(limit=-4)
        k = json.dumps(jsonable(case), sort_keys=True)
        if len(distinct) < 200000:
            distinct.add(hash(k))
        if len(samples) < 3 and len(k) < 2000:
            samples.append(jsonable(case))
        if r:
            for kf in known:
                if kf.get('match') and kf['match'] in r:
                    known_hit.add(kf['what'])
                    return False
            violation = dict(case=jsonable(case), message=str(r))
            return True
        return False

    # 1. counterexamples of the verifier
    direct = None
    if hasattr(mod, 'case_from_failure'):
        for f in hints:
            try:
                c = mod.case_from_failure(f)
            except Exception:
                c = None
            if c is not None:
                if c.get('state'):
                    try:
                        rr = mod.run_case(c)
                    except Exception as e:
                        rr = 'exception %r' % e
                    if rr:
                        direct = dict(case=jsonable(c), message=str(rr))
                elif attempt(c):
                    break
    # 2. fixed + seeded histories
    if violation is None:
        rnd = random.Random(seed)
        tend = time.time() + budget
        maxc = getattr(mod, 'MAX_CASES', 10 ** 9)
        for case in mod.cases(rnd, hints, tier):
            if attempt(case):
                break
            if time.time() > tend or ncases >= maxc and not (bad or uns) and tier == 'quick':
                break
    # the listed findings must still be there to be announced
    for kf in known:
        if kf.get('case') is not None:
            try:
                r = mod.run_case(kf['case'])
            except Exception:
                r = 'exception ' + traceback.format_exc(limit=-3)
            if r:
                known_hit.add(kf['what'])
    for w in sorted(known_hit):
        print('KNOWN-FINDING: property=%s %s' % (pid, w))

    nobl = sum(r['obligations'] for r in results)
    ndis = sum(r['discharged'] for r in results)
    by = {}
    for r in results:
        for k, v in r['by'].items():
            by[k] = by.get(k, 0) + v
    functions = sorted({f for r in results for f in r['functions']})
    assumed = sorted({f for r in results for f in r['assumed']})
    assumptions = list(getattr(mod, 'ASSUME', [])) + COMMON_ASSUME
    bounded = list(getattr(mod, 'BOUNDED', [])) + ['%s: %s' % (r['unit'], r['why']) for r in uns]
    ev = dict(property=pid, tier=tier, seed=seed, level='proof',
              coverage=dict(obligations=nobl, discharged=ndis,
                            checker_cmd='bash run.sh %s  (pv: symbolic execution of the functions in /repo/src into z3 terms; back ends: z3 %s, normal-form rewriting, cvc5)' % (pid, _z3v()),
                            trusted_base=assumed + ['pv engine (/verif/pv)', 'z3', 'cvc5', 'CPython ast parser'],
                            functions_under_contract=functions,
                            units=[{k: r[k] for k in ('unit', 'status', 'obligations', 'discharged', 'paths', 'loops', 'solver_s', 'by', 'why')} for r in results],
                            backends=by, solver_s=round(sum(r['solver_s'] for r in results), 2),
                            bounded_stand_ins=bounded,
                            runtime_contract_evaluations=ncases, runtime_distinct=len(distinct),
                            samples=samples),
              assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=0)
    rc = 0
    if violation is not None:
        p = os.path.join(EVID, 'replay', '%s.json' % pid)
        json.dump(dict(property=pid, case=violation['case'], message=violation['message'],
                       failed_obligations=hints, how='bash run.sh %s --replay %s' % (pid, p)), open(p, 'w'), indent=1)
        print('violated: ' + violation['message'][:2000])
        for f in hints[:5]:
            print('failed obligation: %s/%s (%s)' % (f['unit'], f['label'], f['status']))
        print('VIOLATION property=%s replay=%s' % (pid, p))
        ev['violations'] = 1
        rc = 1
    elif any(r['status'] == 'refuted' for r in bad):
        p = os.path.join(EVID, 'replay', '%s.json' % pid)
        json.dump(dict(property=pid, failed_obligations=hints, direct_state=direct,
                       verifier_output=results), open(p, 'w'), indent=1)
        for f in hints[:5]:
            print('failed obligation: %s/%s (%s) model=%s' % (f['unit'], f['label'], f['status'], f['model']))
        if direct:
            print('replayed from the counterexample state: %s' % direct['message'][:1000])
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, p))
        ev['violations'] = 1
        rc = 1
    else:
        for r in bad:
            bounded.append('%s: undecided obligation(s) %s' % (r['unit'], sorted({f['label'] for f in r['failures']})))
        if results and nobl == 0 and not uns:
            print('no obligations generated')
            rc = 2
    if bounded:
        ev['coverage']['bounded_stand_ins'] = bounded
    json.dump(ev, open(os.path.join(EVID, pid + '.json'), 'w'), indent=1)
    print('%s: %d/%d obligations discharged in %d units (%s), %d functions, %d runtime evaluations, %s bounded stand-ins, %.1fs'
          % (pid, ndis, nobl, len(results), ', '.join('%s %d' % kv for kv in sorted(by.items())), len(functions), ncases, len(bounded), time.time() - t0))
    return rc


def _z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return '?'


COMMON_ASSUME = [
    'A-ARITH: Python floats are treated as mathematical reals, ints as unbounded integers; NaN and overflow are outside the proofs',
    'A-EXT: numpy/math/pandas calls obey the models in pv/ext.py (listed in trusted_base as external:*)',
    'A-FRAME: the objects handed to a unit are not aliased with each other unless the unit says so',
]

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
