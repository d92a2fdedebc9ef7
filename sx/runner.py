"""Runs the tasks of a property in a process pool and writes the evidence."""
from __future__ import annotations

import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pathlib
import resource
import signal
import subprocess
import sys
import time
import traceback

from . import core, loader
from . import ctx as C
from . import values as V

VERIF = loader.VERIF
OUT = VERIF / 'out'


class Task:
    """One bounded exploration: harness function name, its parameters, limits."""

    def __init__(self, module, fn, params=None, **limits):
        self.module, self.fn, self.params, self.limits = module, fn, params or {}, limits

    @property
    def name(self):
        p = ','.join(f'{k}={v}' for k, v in self.params.items())
        return f'{self.module}.{self.fn}({p})'


# ------------------------------------------------------------ worker side
_seen = set()


def _start_monitor():
    """Record which functions of the package are executed."""
    mon = sys.monitoring
    tool = 4
    try:
        mon.use_tool_id(tool, 'sx')
    except ValueError:
        return
    root = str(loader.REPO / loader.PACKAGE)

    def on_start(code, offset):
        if code.co_filename.startswith(root) and not code.co_name.startswith('<'):
            _seen.add(f'{os.path.relpath(code.co_filename, root)}:{code.co_qualname}')
        return mon.DISABLE

    mon.register_callback(tool, mon.events.PY_START, on_start)
    mon.set_events(tool, mon.events.PY_START)


_mod = {}


def harness(module, symbolic):
    """The harness module, instrumented or plain."""
    key = (module, symbolic)
    if key not in _mod:
        saved = {n: m for n, m in sys.modules.items() if n.split('.')[0] in loader.ROOTS}
        loader.purge('props')
        loader.install(symbolic)
        _mod[key] = importlib.import_module(f'props.{module}')
        loader.purge('props')
        for n, m in saved.items():
            if n.split('.')[0] == 'props':
                sys.modules[n] = m
    return _mod[key]


class PathTimeout(core.PathEnd):
    pass


def _alarm(*_):
    p = core.CUR
    if p is not None and p.ended is None:
        p.ended = core.Inconclusive('path time limit')
    raise core.Inconclusive('path time limit')


HANG_S = 20


class Hang(BaseException):
    pass


def _hang(*_):
    raise Hang()


def concrete_run(module, fn, params, inputs):
    """('ok' | 'bad' | 'skip' | 'error' | 'hang', message, trace)."""
    mod = harness(module, False)
    loader.install(False)
    loader.purge()
    c = C.ConcreteCtx(inputs)
    old = signal.signal(signal.SIGALRM, _hang)
    signal.setitimer(signal.ITIMER_REAL, HANG_S)
    try:
        getattr(mod, fn)(c, **params)
    except Hang:
        return 'hang', f'does not end within {HANG_S} s', c.trace
    except C.Bad as e:
        return 'bad', str(e), c.trace
    except C.AssumptionFailed:
        return 'skip', 'assumption does not hold', c.trace
    except C.MissingInput as e:
        return 'skip', f'input {e} is not on this path', c.trace
    except Exception as e:
        return 'error', ''.join(traceback.format_exception(e))[-2000:], c.trace
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        loader.install(True)
        loader.purge()
    return 'ok', '', c.trace


def run_task(args):
    task, deadline, seed = args
    module = task.module
    t0 = time.time()
    res = {'task': task.name, 'fn': task.fn, 'violations': [], 'incomplete': [], 'errors': [],
           'validated': 0, 'mismatches': [], 'samples': [], 'unreproduced': [], 'hang_runs': 0}
    limits = core.Limits(deadline=min(deadline, t0 + task.limits.get('task_s', 1e9)),
                         **{k: v for k, v in task.limits.items() if k != 'task_s'})
    stats = core.Stats()
    V._memo.clear()
    try:
        mod = harness(module, True)
        fn = getattr(mod, task.fn)
        loader.install(True)
        loader.purge()
        signal.signal(signal.SIGALRM, _alarm)

        def body(c):
            signal.setitimer(signal.ITIMER_REAL, limits.path_s + 5)
            try:
                fn(c, **task.params)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)

        for kind, c, detail, _ in core.explore(C.SymCtx, body, limits, stats, seed):
            if kind == 'ok':
                if len(res['samples']) < limits.witnesses or stats.paths % 17 == 0:
                    validate(res, module, task, c, limits)
            elif kind == 'violation':
                inputs = c.input_values(c.path.small_model())
                r, msg, _ = concrete_run(module, task.fn, task.params, inputs)
                if r == 'bad' or r == 'hang' and not c.path.slow:
                    res['violations'].append({'message': msg, 'inputs': inputs})
                    break
                res['unreproduced'].append({'message': detail, 'inputs': inputs, 'got': (r, msg)})
                if len(res['unreproduced']) >= 5:
                    break
            elif kind == 'error':
                # Did the harness itself fail for real?  Replay decides.
                inputs, r, msg = None, None, None
                try:
                    inputs = c.input_values(c.path.small_model())
                    r, msg, _ = concrete_run(module, task.fn, task.params, inputs)
                except core.PathEnd:
                    pass
                if r == 'bad':
                    res['violations'].append({'message': msg, 'inputs': inputs})
                    break
                if r == 'error':
                    res['violations'].append({'message': 'unexpected exception: ' + msg.strip().splitlines()[-1],
                                              'inputs': inputs, 'traceback': msg})
                    break
                res['errors'].append(detail)
                if len(res['errors']) >= 3:
                    break
            elif kind in ('inconclusive', 'bound'):
                res['incomplete'].append(detail)
                if kind == 'bound' and res['hang_runs'] < 3:
                    # an endless loop also shows as an exceeded loop bound
                    res['hang_runs'] += 1
                    try:
                        inputs = c.input_values(c.path.small_model())
                        r, msg, _ = concrete_run(module, task.fn, task.params, inputs)
                    except core.PathEnd:
                        r = None
                    if r == 'bad' or r == 'hang' and not c.path.slow:
                        res['violations'].append({'message': msg, 'inputs': inputs})
                        break
    except core.PathEnd as e:
        res['incomplete'].append(str(e))
    except Exception as e:
        res['errors'].append(''.join(traceback.format_exception(e))[-3000:])
    res['stats'] = stats.as_dict()
    res['seconds'] = time.time() - t0
    res['functions'] = sorted(_seen)
    return res


def validate(res, module, task, c, limits):
    """Run the path's witness on the unmodified package; outcomes must agree."""
    try:
        model = c.path.small_model()
        inputs = c.input_values(model)
        core.CUR = core.EvalPath(model)
        want = c.trace_values(model)
    except core.PathEnd:
        return
    finally:
        core.CUR = None
    r, msg, trace = concrete_run(module, task.fn, task.params, inputs)
    got = [(k, plain(v)) for k, v in trace]
    if len(res['samples']) < limits.witnesses:
        res['samples'].append({'inputs': shorten(inputs), 'result': r})
    if r == 'hang' and c.path.slow:
        return
    if r in ('bad', 'hang'):
        # the real code fails where the symbolic run did not: a real violation
        res['violations'].append({'message': msg, 'inputs': inputs})
    elif r == 'ok' and agree(want, got):
        res['validated'] += 1
    else:
        res['mismatches'].append({'inputs': shorten(inputs), 'result': (r, msg), 'symbolic': str(want)[:800],
                                  'concrete': str(got)[:800]})


def plain(x):
    if isinstance(x, (bytearray, memoryview)):
        return bytes(x)
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def agree(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(agree(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    return type(a) is type(b) and a == b or (isinstance(a, int) and isinstance(b, int) and a == b)


def shorten(x, n=120):
    if isinstance(x, dict):
        return {k: shorten(v, n) for k, v in x.items()}
    if isinstance(x, list):
        return [shorten(v, n) for v in x[:32]]
    s = x if not isinstance(x, str) or len(x) <= n else x[:n] + f'...({len(x)})'
    return s


def _init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    _start_monitor()
    loader.install(True)


# ------------------------------------------------------------ parent side
def confirm(path):
    """Replay a counterexample file in a fresh process on the plain package."""
    try:
        p = subprocess.run(
            [sys.executable, str(VERIF / 'replay.py'), str(path)], capture_output=True, text=True, timeout=120,
        )
    except subprocess.TimeoutExpired:
        return True, 'the replay does not terminate within 120 s'
    return p.returncode == 1, p.stdout.strip()[-1500:]


def known_findings(prop):
    """Lines `KNOWN property=<id> key=<key> <what fails>` of the committed file."""
    out = {}
    f = VERIF / 'known-findings.txt'
    if f.exists():
        for line in f.read_text().splitlines():
            if line.startswith('KNOWN '):
                kv = dict(w.split('=', 1) for w in line.split()[1:3])
                if kv.get('property') == prop:
                    out[kv['key']] = line.split(None, 3)[3]
    return out


def run_property(prop, tasks, info, tier, budget, strict=False, jobs=None, only=None):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    OUT.mkdir(exist_ok=True)
    deadline = t0 + budget
    if only:
        tasks = [t for t in tasks if only in t.name]
    results, violations, unconfirmed = [], [], []
    ctxm = mp.get_context('fork')
    jobs = jobs or min(8, os.cpu_count() or 8)
    pool = ctxm.Pool(jobs, _init)
    stopped = None
    try:
        it = pool.imap_unordered(run_task, [(t, deadline, seed) for t in tasks])
        for _ in range(len(tasks)):
            left = deadline + 45 - time.time()
            try:
                r = it.next(timeout=max(left, 1))
            except mp.TimeoutError:
                stopped = 'workers did not stop in time'
                break
            results.append(r)
            for v in r['violations']:
                h = hashlib.sha256(json.dumps([r['task'], v['inputs']], sort_keys=True).encode()).hexdigest()[:10]
                path = OUT / f'{prop}-{h}.json'
                task = next(t for t in tasks if t.name == r['task'])
                path.write_text(json.dumps({
                    'property': prop, 'module': task.module, 'fn': task.fn, 'params': task.params,
                    'inputs': v['inputs'], 'message': v['message'],
                }, indent=1))
                ok, text = confirm(path)
                (violations if ok else unconfirmed).append((path, v['message'], text, r['task']))
            if violations and not os.environ.get('SX_ALL'):
                break
    finally:
        pool.terminate()
        pool.join()
    return finish(prop, info, tier, seed, tasks, results, violations, unconfirmed, stopped, t0, strict)


def finish(prop, info, tier, seed, tasks, results, violations, unconfirmed, stopped, t0, strict):
    agg = {k: sum(r['stats'][k] for r in results) for k in
           ('paths', 'infeasible', 'queries', 'sat', 'unsat', 'unknown', 'checks', 'checks_trivial', 'forks')}
    solver_s = sum(r['stats']['solver_s'] for r in results)
    notes, bounded, functions = {}, {}, set()
    for r in results:
        for k, v in r['stats']['notes'].items():
            notes[k] = notes.get(k, 0) + v
        for k, v in r['stats']['bounded'].items():
            bounded[k] = bounded.get(k, 0) + v
        functions.update(r['functions'])
    inc = [(r['task'], d) for r in results for d in r['incomplete']]
    errors = [(r['task'], e) for r in results for e in r['errors']]
    unrep = [(r['task'], u) for r in results for u in r['unreproduced']]
    mism = [(r['task'], m) for r in results for m in r['mismatches']]
    validated = sum(r['validated'] for r in results)
    samples = [{'task': r['task'], **s} for r in results for s in r['samples'][:1]][:12]
    missing = len(tasks) - len(results)
    vacuous = [r['task'] for r in results if not r['stats']['checks'] and not r['violations'] and not r['incomplete']]
    known = known_findings(prop)
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': agg['paths'], 'transitions': agg['forks'],
            'traces_validated_against_impl': validated, 'samples': samples or ['none'],
            'explanation': 'states = paths of the real code executed symbolically to the end; transitions = '
                           'two-sided branches decided by z3; every obligation is an SMT query (unsat = holds for '
                           'all values on the path).',
            'tasks': len(results), 'tasks_not_run': missing,
            'tasks_fully_explored': len(results) - len({t for t, _ in inc}),
            'obligations': agg['checks'], 'obligations_decided_structurally': agg['checks_trivial'],
            'solver_queries': agg['queries'], 'sat': agg['sat'], 'unsat': agg['unsat'], 'unknown': agg['unknown'],
            'solver_seconds': round(solver_s, 2), 'infeasible_paths': agg['infeasible'],
            'functions_encoded': sorted(functions), 'bounds': info.get('bounds', []),
            'bound_hits': bounded, 'reduced_coverage': notes,
            'incomplete': [f'{t}: {d}' for t, d in inc][:40], 'incomplete_total': len(inc),
            'vacuous_tasks': vacuous[:20],
            'model_mismatches': len(mism), 'unreproduced_counterexamples': len(unrep) + len(unconfirmed),
            'engine_errors': len(errors), 'source_sha256': loader.source_digest(),
        },
        'assumptions': info.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2), 'violations': len(violations),
    }
    path = pathlib.Path(os.environ.get('VERIF_EVIDENCE', VERIF / 'evidence'))
    path.mkdir(exist_ok=True)
    (path / f'{prop}.json').write_text(json.dumps(evidence, indent=1, default=str))
    debug = {'slowest': sorted(((round(r['seconds'], 2), r['stats']['paths'], r['stats']['queries'], r['task']) for r in results), reverse=True)[:25],
             'mismatches': mism, 'unreproduced': unrep, 'errors': errors,
             'unconfirmed': [(str(p), m, t) for p, m, t, _ in unconfirmed]}
    (OUT / f'{prop}-debug.json').write_text(json.dumps(debug, indent=1, default=str))
    print(f'{prop} [{tier}] {len(results)}/{len(tasks)} tasks, {agg["paths"]} paths, {agg["queries"]} queries '
          f'({agg["unsat"]} unsat / {agg["sat"]} sat / {agg["unknown"]} unknown), {agg["checks"]} obligations, '
          f'{validated} witnesses replayed, solver {solver_s:.1f}s, wall {time.time() - t0:.1f}s')
    if inc:
        print(f'  incomplete: {len(inc)} (first: {inc[0][0]}: {inc[0][1]})')
    if missing and not violations:
        done = {r['task'] for r in results}
        print(f'  not run within the budget: {missing} tasks {stopped or ""}', [t.name for t in tasks if t.name not in done][:5])
    if notes:
        print('  reduced coverage / summaries:', notes)
    for label, items in (('MODEL MISMATCH', mism), ('UNREPRODUCED', unrep), ('ENGINE ERROR', errors),
                         ('UNCONFIRMED', unconfirmed)):
        if items:
            print(f'  {label}: {len(items)}; first: {str(items[0])[:700]}' + f' ... in {sorted({str(i[0]) for i in items})[:12]}')
    if vacuous:
        print(f'  VACUOUS tasks: {vacuous[:5]} ({len(vacuous)})')
    for p, msg, text, task in violations:
        key = os.path.basename(p)
        print(f'  {task}: {msg}\n  {text}')
        print(f'VIOLATION property={prop} replay={p}')
    if violations:
        return 1
    if strict and (mism or unrep or errors or vacuous or unconfirmed or inc or missing):
        return 3
    return 0
