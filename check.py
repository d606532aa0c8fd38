"""Decide one property: discharge its contracts on /repo's current source, search for failing inputs.

usage: check.py C04 [quick|thorough]      decide a property
       check.py --replay FILE             re-run a recorded failing input
"""
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
import logging  # noqa: E402
import warnings  # noqa: E402
warnings.simplefilter('ignore')
logging.disable(logging.NOTSET)
logging.getLogger().addHandler(logging.NullHandler())

EVID = os.path.join(HERE, 'evidence')
PROPS = [f"C{i:02d}" for i in range(1, 21)]
HANG_S = 120


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang("no result within %d s" % HANG_S)


# ------------------------------------------------------------------ concrete side
def load_harness(prop):
    return importlib.import_module(f"harness.{prop.lower()}")


def reset_state():
    """Module-level state of the library that a failing case may have left behind."""
    import gemd.entity.bounds_validation as bv
    bv.set_validation_level(bv.WarningLevel.WARNING)


def run_case(fn, seed):
    """One evaluation; returns None or a description of the violation."""
    rng = random.Random(seed)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(HANG_S)
    try:
        reset_state()
        fn(rng)
        return None
    except Hang as e:
        return f"did not terminate: {e}"
    except AssertionError as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-3:])
        return f"{e} [{where}]"
    except Exception as e:  # noqa: BLE001
        return f"unexpected {type(e).__name__}: {e}\n" + traceback.format_exc(limit=-6)
    finally:
        signal.alarm(0)
        try:
            reset_state()
        except Exception:  # noqa: BLE001
            pass


def case_worker(args):
    prop, name, seeds, stop_at = args
    try:
        h = load_harness(prop)
    except Exception:  # noqa: BLE001
        return dict(name=name, n=0, fail=None, error=traceback.format_exc(limit=-4), distinct=0,
                    samples=[])
    fn = h.CHECKS[name]
    n = 0
    fail = None
    seen = set()
    for s in seeds:
        if time.time() > stop_at:
            break
        n += 1
        seen.add(s)
        msg = run_case(fn, s)
        if msg is not None:
            fail = (s, msg)
            break
    return dict(name=name, n=n, fail=fail, error=None, distinct=len(seen), samples=seeds[:1])


def search(pool, prop, seed, iters, seconds, chunk=0):
    """Run the concrete contracts; returns (evaluations per check, failures, errors)."""
    try:
        h = load_harness(prop)
    except Exception:  # noqa: BLE001
        return None, [], [traceback.format_exc(limit=-6)]
    tasks = []
    stop = time.time() + seconds
    for name in sorted(h.CHECKS):
        scale = getattr(h, 'SCALE', {}).get(name, 1.0)
        k = max(1, int(iters * scale))
        seeds = [f"{seed}:{name}:{chunk}:{i}" for i in range(k)]
        parts = 1 if k < 8 else 4
        for p in range(parts):
            tasks.append((prop, name, seeds[p::parts], stop))
    return tasks


def known_findings(prop):
    """Print the recorded findings that are still there; a different deviation is a failure."""
    listed = {}
    with open(os.path.join(HERE, 'KNOWN_FINDINGS.txt')) as f:
        for line in f:
            if line.startswith(f'known: property={prop} '):
                name, text = line.split(' ', 3)[2:]
                listed[name] = text.strip()
    fails = []
    try:
        probes = getattr(load_harness(prop), 'KNOWN', {})
    except Exception:  # noqa: BLE001
        return []
    for name, fn in probes.items():
        hit = []
        msg = run_case(lambda rng: hit.append(fn()), 0)
        if msg is None and hit[0] and name in listed:
            print(f"KNOWN-FINDING: property={prop} {name} {listed[name]}")
        elif msg is not None or hit[0]:
            fails.append(('known:' + name, 0, msg or f"finding {name} is not recorded"))
    return fails


def collect(results):
    counts, fails, errors = {}, [], []
    for r in results:
        c = counts.setdefault(r['name'], 0)
        counts[r['name']] = c + r['n']
        if r['fail']:
            fails.append((r['name'],) + tuple(r['fail']))
        if r['error']:
            errors.append(r['error'])
    return counts, fails, errors


# ------------------------------------------------------------------ deductive side
def load_contracts(prop):
    import pyvc  # noqa: F401
    from pyvc import unit as U
    if not os.path.exists(os.path.join(HERE, 'contracts', f"{prop.lower()}.py")):
        return {}, {}, []
    importlib.import_module(f"contracts.{prop.lower()}")
    from contracts.shapes import SHAPES, drift
    return U.REGISTRY.get(prop, {}), SHAPES, drift()


STOP = None     # set when an input that breaks the property has been found


class Late(Exception):
    pass


def unit_worker(args):
    prop, name, timeout, stop = args
    try:
        left = stop - time.time()
        if STOP is not None and STOP.is_set():
            raise Late("a failing input was found first")
        if left < 5:
            raise Late("no time was left for it")
        units, shapes, _ = load_contracts(prop)
        from pyvc.unit import run_unit
        u = units[name]
        if timeout:
            u.budget *= 3
        u.budget = min(u.budget, left)
        return run_unit(u, shapes, prove_timeout=timeout).as_dict()
    except BaseException as e:  # noqa: BLE001
        why = str(e) if isinstance(e, Late) else "engine error: " + traceback.format_exc(limit=-5)
        return dict(unit=f"{prop}:{name}", name=name, status='unsupported',
                    reason=why, obligations=[],
                    functions=[], contracts=[], natives=[], assumed=[], paths=0, seconds=0.0,
                    solver_s=0.0)


def work(task):
    return (task[0], unit_worker(task[1])) if task[0] == 'unit' else \
        (task[0], case_worker(task[1]))


def main(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(EVID, exist_ok=True)
    spec = json.load(open(os.path.join(HERE, 'settings.json')))
    cfg = spec['props'].get(prop, {})
    notes = []
    units, drifted = {}, []
    try:
        units, _, drifted = load_contracts(prop)
    except Exception:  # noqa: BLE001
        notes.append("contracts could not be bound to the current source: "
                     + traceback.format_exc(limit=-3))
    if drifted:
        notes.append("private layout differs from the class invariants (" + "; ".join(drifted[:8])
                     + "): the contracts that need them fall back to the bounded stand-in")
    names = [n for n, u in units.items()
             if (tier == 'thorough' or u.tier == 'quick') and not (drifted and u.shapes)]
    skipped = [n for n, u in units.items() if drifted and u.shapes]
    iters = cfg.get('iters', 400) * (12 if tier == 'thorough' else 1)
    seconds = 600 if tier == 'thorough' else 120
    global STOP
    ctx = mp.get_context('fork')
    STOP = ctx.Event()
    workers = min(8, os.cpu_count() or 4)
    with ctx.Pool(workers, maxtasksperchild=12) as pool:
        until = t0 + (3600 if tier == 'thorough' else 420)
        case_tasks = search(pool, prop, seed, iters, seconds)
        if isinstance(case_tasks, tuple):
            harness_errors = case_tasks[2]
            case_tasks = []
        else:
            harness_errors = []
        # the bounded stand-ins first: they are quick and must not be starved
        tasks = [('case', c) for c in case_tasks] + [('unit', (prop, n, None, until))
                                                     for n in names]
        unit_results, case_results = [], []
        for kind, r in pool.imap_unordered(work, tasks, chunksize=1):
            (unit_results if kind == 'unit' else case_results).append(r)
            if kind == 'case' and r['fail']:
                STOP.set()
        counts, fails, errors = collect(case_results)
        errors += harness_errors
        # a second, longer attempt for obligations that ran out of time
        again = [r['name'] for r in unit_results if r['status'] == 'unknown']
        if again and not fails:
            redo = {r['name']: r for r in pool.map(
                unit_worker, [(prop, n, 60000, until + 150) for n in again], chunksize=1)}
            unit_results = [redo.get(r['name'], r) for r in unit_results]
        broken = [r for r in unit_results if r['status'] in ('failed', 'unknown')]
        if broken and not fails and case_tasks:
            # counterexample search with more and other inputs
            more = search(pool, prop, seed, iters * 6, 200, chunk=1)
            c2, fails, e2 = collect(pool.map(case_worker, more, chunksize=1))
            for k, v in c2.items():
                counts[k] = counts.get(k, 0) + v
    if errors and not case_results:
        print("harness could not be loaded:\n" + errors[0], file=sys.stderr)
    fails = fails + known_findings(prop)
    status = write(prop, tier, seed, t0, unit_results, skipped, counts, fails, errors, broken,
                   notes, cfg, len(units))
    return status


def write(prop, tier, seed, t0, unit_results, skipped, counts, fails, errors, broken, notes, cfg,
          total_units):
    obl = sum(len(r['obligations']) for r in unit_results)
    done = sum(1 for r in unit_results for o in r['obligations'] if o['status'] == 'discharged')
    backends = {}
    for r in unit_results:
        for o in r['obligations']:
            if o['status'] == 'discharged':
                backends[o['backend']] = backends.get(o['backend'], 0) + 1
    functions = sorted({f for r in unit_results for f in r['functions']})
    contracts_used = sorted({f for r in unit_results for f in r['contracts']})
    natives = sorted({f for r in unit_results for f in r['natives']})
    assumed = sorted({f for r in unit_results for f in r['assumed']})
    proved = [r['name'] for r in unit_results if r['status'] == 'proved']
    fallback = [dict(unit=r['name'], reason=r['reason'][:600]) for r in unit_results
                if r['status'] in ('unsupported', 'vacuous')]
    fallback += [dict(unit=n, reason="class invariants do not match the current layout")
                 for n in skipped]
    level = 'proof' if proved and obl else 'exploration'
    base = json.load(open(os.path.join(HERE, 'settings.json')))
    cov = dict(
        obligations=obl, discharged=done,
        checker_cmd=f"PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python check.py {prop} {tier}",
        trusted_base=base['trusted_base'] + cfg.get('trusted', []),
        units=total_units, units_proved=len(proved), proved=sorted(proved),
        units_on_bounded_stand_in=fallback,
        functions_under_contract=functions, callee_contracts_used=contracts_used,
        functions_run_natively_on_concrete_values=natives,
        discharged_by=backends,
        solver_seconds=round(sum(r['solver_s'] for r in unit_results), 2),
        paths=sum(r['paths'] for r in unit_results),
        evaluations=sum(counts.values()) if counts else 0,
        distinct_nontrivial=sum(counts.values()) if counts else 0,
        rule="randomised concrete contract checks (bounded, not counted as proved): every "
             "evaluation has its own seed and builds its own input",
        evaluations_per_check=counts or {},
        samples=[f"{n} ({len(r['obligations'])} obligations, {r['paths']} paths)"
                 for n, r in list(zip(proved, [r for r in unit_results
                                               if r['status'] == 'proved']))[:5]]
        or [f"{k}: {v} evaluations" for k, v in list((counts or {}).items())[:5]],
        bounded=cfg.get('bounded', ''))
    viol = 0
    line = None
    rp = os.path.join(EVID, f"{prop}.replay.json")
    if os.path.exists(rp):
        os.unlink(rp)
    if fails:
        name, s, msg = fails[0]
        viol = len(fails)
        json.dump(dict(property=prop, kind='failing-input', check=name, seed=s, message=msg,
                       obligations=[dict(unit=r['name'], reason=r['reason']) for r in broken],
                       how=f"/opt/venv/bin/python /verif/check.py --replay {rp}"),
                  open(rp, 'w'), indent=1)
        line = f"VIOLATION property={prop} replay={rp}"
        print(f"failing input: {name} seed {s}: {msg}"[:3000])
    elif broken:
        viol = len(broken)
        json.dump(dict(property=prop, kind='failed-obligation',
                       failed=[dict(unit=r['name'], status=r['status'], reason=r['reason'],
                                    obligations=[o for o in r['obligations']
                                                 if o['status'] != 'discharged'][:5],
                                    functions=r['functions']) for r in broken]),
                  open(rp, 'w'), indent=1)
        for r in broken[:5]:
            print(f"obligation of unit '{r['name']}': {r['reason']}"[:2000])
        line = f"VIOLATION property={prop} replay={rp} no-failing-input-found"
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=base['assumptions'] + cfg.get('assumptions', []) + assumed + notes
              + (["concrete checks could not be loaded: " + errors[0][-400:]] if errors else []),
              wall_s=round(time.time() - t0, 2), violations=viol)
    with open(os.path.join(EVID, f"{prop}.json"), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} [{tier}]: {len(proved)}/{total_units} contract units proved, {done}/{obl} "
          f"obligations discharged, {cov['evaluations']} concrete evaluations, "
          f"{ev['wall_s']} s")
    for f in fallback:
        print(f"  bounded stand-in for '{f['unit']}': {f['reason'].splitlines()[0][:200]}"
              if f['reason'] else f['unit'])
    for n in notes:
        print("  note: " + n.splitlines()[-1][:300])
    if line:
        print(line)
        return 1
    return 0


def replay(path):
    r = json.load(open(path))
    if r['kind'] != 'failing-input':
        print(json.dumps(r, indent=1))
        return 1
    h = load_harness(r['property'])
    if r['check'].startswith('known:'):
        fails = [f for f in known_findings(r['property']) if f[0] == r['check']]
        msg = fails[0][2] if fails else None
    else:
        msg = run_case(h.CHECKS[r['check']], r['seed'])
    print("violated: " + msg if msg else "holds on this input")
    return 1 if msg else 0


if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        sys.exit(replay(sys.argv[2]))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(main(sys.argv[1], tier))
