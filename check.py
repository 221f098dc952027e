#!/usr/bin/env python3
"""check.py PROPERTY  -- decide one property on /repo's current working tree.

Stage 1 (decides): deductive verification.  Every contract unit registered for the
property is re-generated from /repo's current source and every obligation discharged.
Stage 2: the executable form of the contract is run against the real code, as a
cross-check of the verifier (short) or, when an obligation failed, as a search for a
replayable failing input (long).
"""
import importlib
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PYVC_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.setrecursionlimit(20000)

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


def run_unit(args):
    pid, idx, t_unit = args
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    from pyvc.engine import Engine
    import registry
    u = registry.units(pid)[idx]
    name = getattr(u, '__name__', str(u))
    e = Engine(name, budget_s=t_unit)
    if TIER == 'thorough':
        e.T_FRESH, e.T_CVC5 = 120000, 120
    try:
        e.explore(u)
        return e.report()
    except BaseException as x:
        r = e.report()
        r['failures'].append(dict(obligation=name + '/engine', kind='engine-error',
                                  detail='%s: %s\n%s' % (type(x).__name__, x, traceback.format_exc()[-1500:]),
                                  inputs={}, path=None))
        return r


class Hang(Exception):
    pass


def _alarm(sig, frm):
    raise Hang()


def falsify(pid, deep, budget, hints, q):
    """runs in a child process"""
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    signal.signal(signal.SIGPROF, _alarm)          # (processor time: a loaded machine is no finding)
    import random
    import registry
    mod = registry.falsifier(pid)
    n = 0
    seen = set()
    samples = []
    t0 = time.time()
    known = load_known(pid)
    knownhits = {}
    res = dict(evaluations=0, distinct=0, found=None, known={}, error=None, wall=0, exhaustive=[])

    def one(case):
        nonlocal n
        n += 1
        key = json.dumps(case, sort_keys=True, default=str)
        if key not in seen and len(seen) < 500000:
            seen.add(key if len(key) < 200 else hash(key))
        if len(samples) < 3:
            samples.append(key[:300])
        signal.setitimer(signal.ITIMER_PROF, 30)
        try:
            msg = mod.test(case)
        except Hang:
            msg = 'does not terminate within 30 s of processor time'
        except MemoryError:
            msg = 'exhausts memory'
        except RecursionError:
            msg = 'unbounded recursion'
        except Exception as x:
            # an exception the executable contract does not provide for, raised by the code under test
            frames = [f for f in traceback.extract_tb(x.__traceback__)
                      if f.filename.startswith((os.path.join(REPO, 'xlrd'), HERE))]
            if not frames or frames[-1].filename.startswith(HERE) or isinstance(x, AttributeError):
                raise       # (an AttributeError may come from a stand-in object of the harness)
            msg = 'raises %s: %s in %s' % (type(x).__name__, x, frames[-1].name)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        if msg:
            for k in known:
                if k['match'] in msg:
                    knownhits[k['match']] = msg
                    return None
            return dict(case=case, message=msg)
        return None
    try:
        it = []
        for h in hints:
            try:
                it.extend(mod.from_model(h) or [])
            except Exception:
                pass
        bad = None
        for case in it:
            bad = one(case)
            if bad:
                break
        if not bad:
            rng = random.Random(SEED * 7919 + (1 if deep else 0))
            for case in mod.cases(rng, deep):
                bad = one(case)
                if bad or time.time() - t0 > budget:
                    break
        res['found'] = bad
    except BaseException as x:
        res['error'] = '%s: %s\n%s' % (type(x).__name__, x, traceback.format_exc()[-2000:])
    res.update(evaluations=n, distinct=len(seen), samples=samples, known=knownhits, wall=round(time.time() - t0, 2))
    q.put(res)


def load_known(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('KNOWN-FINDING: property=%s ' % pid):
                rest = line.split(' ', 2)[2]
                m = rest.split('match="', 1)
                if len(m) == 2:
                    out.append(dict(match=m[1].rsplit('"', 1)[0], text=m[0].strip()))
    return out


def run_falsifier(pid, deep, budget, hints):
    q = mp.Queue()
    p = mp.Process(target=falsify, args=(pid, deep, budget, hints, q))
    p.start()
    try:
        r = q.get(timeout=budget + 60)
    except Exception:
        r = dict(evaluations=0, distinct=0, found=None, known={}, error='falsifier process died or hung', hung=True, wall=budget, samples=[])
    p.join(5)
    if p.is_alive():
        p.kill()
    return r


def main():
    pid = sys.argv[1]
    t0 = time.time()
    import registry
    meta = registry.PROPS[pid]
    nunits = len(registry.unit_names(pid))
    limit = 780 if TIER == 'quick' else 3000
    ctx = mp.get_context('fork')
    results = []
    pool = ctx.Pool(min(8, os.cpu_count() or 4), maxtasksperchild=1) if nunits else None
    order = list(range(nunits))
    t_unit = meta.get('unit_budget', 420) if TIER == 'quick' else 1500
    asyncs = [pool.apply_async(run_unit, ((pid, i, t_unit),)) for i in order]
    # smoke run of the executable contracts in parallel
    smoke_budget = meta.get('smoke', 20) if TIER == 'quick' else meta.get('smoke', 20) * 6
    smoke = None
    if meta.get('falsifier'):
        smoke = run_falsifier(pid, TIER == 'thorough', smoke_budget, [])
    for i, a in enumerate(asyncs):
        left = max(5, limit - (time.time() - t0))
        try:
            results.append(a.get(timeout=left))
        except mp.TimeoutError:
            results.append(dict(unit=registry.unit_names(pid)[i], obligations=1, discharged=0, named=1, names={}, backends={},
                                solver_s=0, queries=0, paths=0, functions={}, assumed=[], covers={}, wall_s=left,
                                failures=[dict(obligation=registry.unit_names(pid)[i] + '/timeout', kind='timeout',
                                               detail='unit did not finish', inputs={}, path=None)]))
    if pool:
        pool.terminate()
    failures = [dict(f, unit=r['unit']) for r in results for f in r['failures']]
    tot = sum(r['obligations'] for r in results)
    ok = sum(r['discharged'] for r in results)
    functions = {}
    assumed = set()
    backends = {}
    for r in results:
        functions.update(r['functions'])
        assumed.update(r['assumed'])
        for k, v in r['backends'].items():
            backends[k] = backends.get(k, 0) + v
    found = smoke['found'] if smoke else None
    deep = None
    if failures and not found and meta.get('falsifier'):
        hints = [f['inputs'] for f in failures if f.get('inputs')]
        left = 870 - (time.time() - t0)
        deep = run_falsifier(pid, True, max(30, min(meta.get('deep', 150), left - 70)), hints)
        found = deep['found']
    if smoke and smoke['error'] and not failures and not found:
        if smoke.get('hung'):
            print('note: the cross-check did not finish: %s' % smoke['error'][:200])
        else:
            # the code no longer offers what the executable contract calls or reads
            failures.append(dict(unit='crosscheck', obligation='%s/crosscheck/interface' % pid, kind='crosscheck-error',
                                 detail=smoke['error'], inputs={}, path=None))
    violations = 1 if (failures or found) else 0
    known = {}
    for r in (smoke, deep):
        if r:
            known.update(r['known'])
    evals = sum(r['evaluations'] for r in (smoke, deep) if r)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    trusted = sorted(assumed | set(meta.get('trusted', ()))) + [
        'pyvc (the verifier in /verif/pyvc: AST semantics of the Python subset, models of builtins and struct)',
        'z3 and cvc5']
    ev = dict(property=pid, tier='thorough' if TIER == 'thorough' else 'quick', seed=SEED, level=meta['level'],
              coverage=dict(obligations=tot, discharged=ok,
                            checker_cmd='python3-vt check.py %s' % pid,
                            trusted_base=trusted,
                            functions_under_contract=[dict(function=k, where=v) for k, v in sorted(functions.items())],
                            units=[dict(unit=r['unit'], obligations=r['obligations'], discharged=r['discharged'],
                                        named=r['named'], paths=r['paths'], solver_s=r['solver_s'], wall_s=r['wall_s'],
                                        backends=r['backends']) for r in results],
                            discharged_by=backends,
                            solver_s=round(sum(r['solver_s'] for r in results), 2),
                            vacuity_covers_reached=sum(1 for r in results for v in r['covers'].values() if v == 'True'),
                            bounded=meta.get('bounded', []),
                            crosscheck=dict(note='executable contract run on the real code; not counted as proof',
                                            runs=[dict(evaluations=r['evaluations'], distinct=r['distinct'], wall_s=r['wall'],
                                                       samples=r.get('samples', [])) for r in (smoke, deep) if r]),
                            evaluations=evals,
                            distinct_nontrivial=sum(r['distinct'] for r in (smoke, deep) if r),
                            rule=meta.get('rule', 'cases drawn by the falsifier of the property, compared with the executable contract'),
                            samples=[s for r in (smoke, deep) if r for s in r.get('samples', [])][:3]),
              assumptions=list(meta.get('assumptions', ())) + [
                  'the extraction drops docstrings, comments, print/fprintf/dump/logfile writes',
                  'Python integers are mathematical integers (exact in CPython)'],
              wall_s=round(time.time() - t0, 2), violations=violations)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for k in load_known(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, k['text']))
    for r in results:
        print('%-48s obligations %4d discharged %4d  paths %4d  %.1fs' % (r['unit'][:48], r['obligations'], r['discharged'], r['paths'], r['wall_s']))
    if smoke:
        print('cross-check: %d evaluations, %.1fs' % (smoke['evaluations'], smoke['wall']))
    if violations:
        path = os.path.join(HERE, 'replays', '%s.json' % pid)
        with open(path, 'w') as f:
            json.dump(dict(property=pid, failing_input=found, obligations=failures,
                           note='replay with: python3-vt replay.py %s' % path), f, indent=1, default=str)
        for fl in failures[:8]:
            print('undischarged: %s [%s] %s' % (fl['obligation'], fl['kind'], str(fl['detail'])[:300].replace('\n', ' ')))
        if found:
            print('failing input: %s' % json.dumps(found, default=str)[:800])
            print('VIOLATION property=%s replay=%s' % (pid, path))
        else:
            for r in (smoke, deep):
                if r and r['error']:
                    print('falsifier error: %s' % r['error'])
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
        sys.exit(1)
    print('OK property=%s obligations=%d discharged=%d' % (pid, tot, ok))
    sys.exit(0)


if __name__ == '__main__':
    main()
