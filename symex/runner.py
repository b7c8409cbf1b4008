"""Runs the check of one property: symbolic exploration of its jobs in worker
processes, replay of counterexamples and of sampled paths on the plain code,
evidence, verdict."""
import importlib
import json
import multiprocessing
import os
import resource
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PLAIN_PYTHON = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
_now = time.perf_counter


class Job(object):
    """One exploration: harness(ctx, **config) over all inputs."""

    def __init__(self, harness, const_hash=True, max_paths=None, weight=1, path_timeout=40, **config):
        self.harness = harness
        self.config = config
        self.const_hash = const_hash
        self.max_paths = max_paths
        self.weight = weight
        self.path_timeout = path_timeout

    def spec(self):
        return dict(harness=self.harness, config=self.config)

    def __repr__(self):
        return "{}({})".format(self.harness, ", ".join("{}={!r}".format(*kv) for kv in self.config.items()))


def run_harness(module, job_spec, ctx):
    from . import loader
    fn = getattr(module, job_spec['harness'])
    loader.set_context(ctx)
    try:
        fn(ctx, **job_spec['config'])
    finally:
        loader.set_context(None)


_MODULE = None


def _work(args):
    index, spec, const_hash, max_paths, realize_all, deadline, path_timeout, fresh, share = args
    from . import engine, loader
    t = _now()
    # no job may use up the time of the others
    deadline = min(deadline, t + share)
    eng = engine.Engine(const_hash=const_hash, realize_all=realize_all,
                        max_paths=max_paths, deadline=deadline, path_timeout=path_timeout)
    res = dict(index=index, error=None, violation=None)
    try:
        def fn(ctx):
            if fresh:
                loader.refresh()
            run_harness(_MODULE, spec, ctx)

        ce = eng.explore(fn)
        if ce is not None:
            res['violation'] = dict(message=ce.message, inputs=ce.inputs,
                                    traceback=getattr(eng, 'last_traceback', None))
        res['complete'] = eng.complete
    except BaseException as exc:
        if isinstance(exc, (KeyboardInterrupt, SystemExit)):
            raise
        res['error'] = "{}: {}".format(type(exc).__name__, exc)
        res['traceback'] = traceback.format_exc()
        res['complete'] = False
    res['stats'] = eng.stats.as_dict()
    res['reached'] = dict(eng.reached)
    res['samples'] = eng.samples
    res['inconclusive'] = eng.inconclusive[:5]
    res['functions'] = sorted(loader.FUNCTIONS)
    res['wall_s'] = _now() - t
    return res


def replay(property_id, items, timeout, candidates=False):
    """Runs each item (job spec + inputs) on the plain code; returns outcomes."""
    if not items:
        return []
    proc = subprocess.run(
        [PLAIN_PYTHON, '-B', os.path.join(VERIF, 'replay.py'), '--batch', property_id],
        input=json.dumps(dict(items=items, candidates=candidates)), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
        universal_newlines=True, timeout=timeout,
        env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=VERIF,
                 PYTHONHASHSEED=os.environ.get('PYTHONHASHSEED', '0')))
    if proc.returncode != 0:
        raise RuntimeError("replay failed: " + proc.stderr[-2000:])
    for line in proc.stdout.splitlines():
        if line.startswith('@@'):
            return json.loads(line[2:])
    raise RuntimeError("replay gave no result: " + proc.stderr[-2000:])


def known_findings(property_id):
    """{message prefix/identification -> line} of the listed findings."""
    out = []
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('finding: property={} '.format(property_id)):
                out.append(line.split(' ', 2)[2].strip())
    return out


def main(property_id, tier=None, seed=None):
    global _MODULE
    t0 = _now()
    tier = tier or os.environ.get('VERIF_TIER', 'quick')
    seed = int(seed if seed is not None else os.environ.get('VERIF_SEED', '1') or 1)
    from . import loader
    sys.path.insert(0, VERIF)
    loader.install(instrumented=True)
    budget = float(os.environ.get('VERIF_BUDGET', 240 if tier == 'quick' else 3000))
    workers = int(os.environ.get('VERIF_WORKERS', os.cpu_count() or 2))
    module = importlib.import_module('checks.' + property_id)
    _MODULE = module
    if getattr(module, 'HASH_ORDER', False):
        from . import order
        order.install()
        loader.HASH_ORDER = True
    jobs = list(module.jobs(tier))
    out_dir = os.path.join(VERIF, 'out', property_id)
    os.makedirs(out_dir, exist_ok=True)
    for f in os.listdir(out_dir):
        os.unlink(os.path.join(out_dir, f))

    deadline = t0 + budget
    order = sorted(range(len(jobs)), key=lambda i: -jobs[i].weight)
    tasks = [(i, jobs[i].spec(), jobs[i].const_hash, jobs[i].max_paths, False, deadline, jobs[i].path_timeout, False, budget / 3) for i in order]
    results = {}
    mp = multiprocessing.get_context('fork')
    violations = []       # confirmed
    unconfirmed = []
    degraded = []
    errors = []
    stop = False
    with mp.Pool(workers, maxtasksperchild=None) as pool:
        for res in pool.imap_unordered(_work, tasks, chunksize=1):
            results[res['index']] = res
            if res['violation'] is not None or res['error'] is not None:
                if len(unconfirmed) < 40:
                    unconfirmed.append(res['index'])
                # enough candidates: the verdict cannot change any more
                if len(unconfirmed) >= 8:
                    got = _confirm(property_id, jobs, results, unconfirmed)
                    violations.extend(got[0])
                    unconfirmed = got[1]
                    if violations:
                        stop = True
                        break
        if stop:
            pool.terminate()
    if not violations and unconfirmed:
        got = _confirm(property_id, jobs, results, unconfirmed)
        violations.extend(got[0])
        unconfirmed = got[1]
    if not violations and unconfirmed:
        # the proxies could not follow the code there: repeat with the code imported
        # afresh for every path (state kept in its modules), then also with the
        # inputs concretised
        for realize_all in (False, True):
            retry = [(i, jobs[i].spec(), False if realize_all else jobs[i].const_hash, 20000, realize_all,
                      max(deadline, _now() + 100), 40, True, 100) for i in unconfirmed]
            with mp.Pool(workers) as pool:
                again = {r['index']: r for r in pool.imap_unordered(_work, retry)}
            for i, r in again.items():
                old = results[i]
                results[i] = r
                if r['violation'] is None and r['error'] is None:
                    degraded.append(dict(job=repr(jobs[i]), reason=str(old['error'] or old['violation']['message'])[:300],
                                         complete=r['complete']))
            still = [i for i in unconfirmed if results[i]['violation'] is not None or results[i]['error'] is not None]
            got = _confirm(property_id, jobs, results, still)
            violations.extend(got[0])
            unconfirmed = got[1]
            if violations or not unconfirmed:
                break
        for i in unconfirmed:
            errors.append((i, results[i]))

    # replay sampled paths on the plain code: validates the symbolic execution
    items = []
    if not violations:
        for i in sorted(results):
            for inputs in results[i]['samples']:
                items.append(dict(jobs[i].spec(), inputs=inputs, index=i))
        cap = getattr(module, 'SAMPLES', 600) * (1 if tier == 'quick' else 7)
        if len(items) > cap:
            step = len(items) / cap
            items = [items[int(k * step)] for k in range(cap)]
    validated = 0
    if items:
        outcomes = replay(property_id, items, 600)
        for item, oc in zip(items, outcomes):
            if oc['outcome'] == 'ok':
                validated += 1
            elif oc['outcome'] in ('discard', 'slow'):
                pass
            else:
                violations.append((item['index'], dict(message="replayed path: " + oc['message'],
                                                       inputs=item['inputs']), oc))

    known = known_findings(property_id)
    known_hit = {}
    reported = []
    for i, v, oc in violations:
        text = "{} {}".format(repr(jobs[i]), oc['message'])
        match = [k for k in known if k in text]
        if match:
            known_hit[match[0]] = True
        else:
            reported.append((i, v, oc))

    total = dict()
    for r in results.values():
        for k, val in r['stats'].items():
            total[k] = total.get(k, 0) + val
    reached = {}
    functions = set()
    for r in results.values():
        for k, val in r['reached'].items():
            reached[k] = reached.get(k, 0) + val
        functions.update(r['functions'])
    incomplete = [repr(jobs[i]) for i in sorted(results) if not results[i]['complete'] and results[i]['violation'] is None]
    missing = len(jobs) - len(results)
    witnesses = list(getattr(module, 'WITNESSES', []))
    unreached = [w for w in witnesses if not reached.get(w)]

    replay_files = []
    for n, (i, v, oc) in enumerate(reported[:5]):
        path = os.path.join(out_dir, 'violation_{}.json'.format(n))
        with open(path, 'w') as f:
            json.dump(dict(property=property_id, harness=jobs[i].harness, config=jobs[i].config,
                           inputs=v['inputs'], message=oc['message'], traceback=oc.get('traceback')), f, indent=1)
        replay_files.append(path)

    wall = _now() - t0
    samples = []
    for i in sorted(results)[:: max(1, len(results) // 5)][:5]:
        samples.append(dict(job=repr(jobs[i])[:400], paths=results[i]['stats']['paths'],
                            inputs=(results[i]['samples'] or [{}])[-1]))
    coverage = dict(
        states=total.get('branches', 0),
        transitions=total.get('forks', 0),
        traces_validated_against_impl=validated,
        samples=samples or [{}],
        explanation="bounded symbolic execution of the real code: states = symbolic branch points decided, "
                    "transitions = feasible alternatives queued by the solver, traces = path models re-executed "
                    "on the unmodified code by a plain interpreter",
        jobs=len(jobs), jobs_complete=sum(1 for r in results.values() if r['complete']),
        paths=total.get('paths', 0), assertions_discharged=total.get('assertions', 0),
        solver_queries=total.get('queries', 0), solver_unknown=total.get('unknown', 0),
        solver_s=round(total.get('solver_s', 0.0), 3),
        values_concretised=total.get('realized', 0),
        paths_without_assertion=total.get('vacuous', 0),
        paths_discarded_by_assumption=total.get('discarded', 0),
        reachability_witnesses=reached,
        functions_encoded=sorted(functions),
        bounds=list(getattr(module, 'BOUNDS', [])),
        outside=list(getattr(module, 'OUTSIDE', [])),
        incomplete_jobs=incomplete[:20] + (['{} jobs not run'.format(missing)] if missing and not stop else []),
        degraded_to_concretised_inputs=degraded[:10],
        exhaustive=not incomplete and not missing and not degraded,
    )
    evidence = dict(property=property_id, tier=tier, seed=seed, level='model_checking',
                    coverage=coverage, assumptions=list(getattr(module, 'ASSUMPTIONS', [])),
                    wall_s=round(wall, 3), violations=len(reported))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', property_id + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)

    print("{}: {} jobs, {} paths, {} branch points, {} queries ({:.1f}s solver), {} assertions, {} traces replayed, "
          "{:.1f}s".format(property_id, len(jobs), coverage['paths'], coverage['states'],
                           coverage['solver_queries'], coverage['solver_s'],
                           coverage['assertions_discharged'], validated, wall))
    if os.environ.get('VERIF_DEBUG'):
        for r in sorted(results.values(), key=lambda r: -r['wall_s'])[:12]:
            print("  {:.1f}s {} paths {}".format(r['wall_s'], r['stats']['paths'], repr(jobs[r['index']])[:200]))
    if incomplete or missing and not stop:
        print("INCOMPLETE: {} jobs not exhausted, {} not run".format(len(incomplete), missing))
    for d in degraded[:5]:
        print("DEGRADED (inputs concretised): {}".format(d))
    for k in known_hit:
        print("KNOWN-FINDING: property={} {}".format(property_id, k))
    if reported:
        for path, (i, v, oc) in zip(replay_files, reported):
            print("VIOLATION property={} replay={}".format(property_id, path))
            print("  {}: {}".format(repr(jobs[i])[:300], oc['message'][:500]))
            print("  inputs: {}".format(json.dumps(v['inputs'])[:500]))
        return 1
    if errors:
        for i, r in errors[:5]:
            print("ERROR in {}: {}".format(repr(jobs[i])[:300], str(r['error'] or r['violation'])[:1000]))
            print((r.get('traceback') or (r['violation'] or {}).get('traceback') or '')[-2500:])
        return 2
    if unreached and (incomplete or missing):
        print("INCOMPLETE: not reached: {}".format(unreached))
    elif unreached:
        print("ERROR: vacuous check, witnesses not reached: {}".format(unreached))
        return 2
    return 0


def _confirm(property_id, jobs, results, indices):
    """Replays counterexamples on the plain code."""
    items, owners = [], []
    rest = []
    for i in indices:
        v = results[i]['violation']
        if v is None:
            rest.append(i)
            continue
        items.append(dict(jobs[i].spec(), inputs=v['inputs'], index=i))
        owners.append(i)
    confirmed = []
    for i, oc in zip(owners, replay(property_id, items, 400, candidates=True)):
        if oc['outcome'] in ('violation', 'slow'):
            confirmed.append((i, results[i]['violation'], oc))
        elif results[i]['violation']['message'] == 'does not terminate' and oc['outcome'] == 'ok':
            # merely slow under symbolic execution: inconclusive
            results[i]['violation'] = None
            results[i]['complete'] = False
        elif oc['outcome'] == 'skipped':
            pass
        else:
            results[i]['replayed'] = oc
            rest.append(i)
    return confirmed, rest
