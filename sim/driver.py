"""Runs a property's scenarios over worker processes, minimises a violation, writes replay and evidence files."""

import copy
import gc
import hashlib
import json
import os
import pickle
import random
import selectors
import signal
import struct
import tempfile
import time
import traceback

from . import engine, scenario
from .focus import Fillings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))


class Context:
    """What a property's judge may consult."""

    def __init__(self, prop=None, seed=0):
        self.refs = scenario.References()
        self.profiles = scenario.EventProfiles()
        self.fillings = Fillings()
        self.focus = getattr(prop, 'focus', None)
        self.seed = seed


class Property:
    """Base class: one property decided by simulation."""

    id = None
    level = 'exploration'
    plotting = False
    library = True
    runs = {'quick': 3000, 'thorough': 60_000}
    budget = {'quick': 75, 'thorough': 1500}
    child_timeout = 120.0
    focus_families = ('query', 'new', 'py', 'plotter')
    focus = None
    guarded = False
    rule = ''
    real = 'skspatial (all modules), NumPy, SciPy, CPython'
    stubs = 'thread scheduling, clocks and locks seen by skspatial code'
    assumptions = ()

    def generate(self, ctx, rng, index, tier):
        raise NotImplementedError

    def execute(self, scn):
        """In a forked child: run the scenario, return a picklable result."""
        raise NotImplementedError

    def judge(self, ctx, scn, result):
        """Violations: list of (class, message)."""
        raise NotImplementedError

    def crashed(self, ctx, scn, error):
        """Verdict on a run in which the process died."""
        return [('crash', f'the process died: {error}')]

    def candidates(self, scn):
        """Smaller scenarios to try when minimising."""
        return iter(())

    def measures(self, scn, result):
        """Counters added to the evidence."""
        return {}

    def state_key(self, scn, result):
        return result.get('hash')

    def nontrivial(self, scn, result):
        return True

    def pin(self, scn, result):
        """The scenario with every scheduling decision written out."""
        if result.get('segments') is not None and 'threads' in scn:
            return dict(scn, segments=[list(s) for s in result['segments']])
        return scn

    def sample(self, scn, result):
        return scn


def derive(seed, prop, index):
    """The seed of one run."""
    digest = hashlib.sha256(f'{seed}/{prop}/{index}'.encode()).digest()
    return int.from_bytes(digest[:7], 'big')


def run_once(prop, ctx, scn):
    """One simulated run and its verdict: (result, violations)."""
    try:
        result = scenario.forked(lambda: prop.execute(scn), prop.child_timeout)
    except scenario.ChildCrash as error:
        return {'crash': str(error)}, prop.crashed(ctx, scn, error)
    return result, prop.judge(ctx, scn, result)


def _canon(scn):
    return json.loads(json.dumps(scn))


def worker(prop, seed, tier, start, stride, count, deadline, out):
    ctx = Context(prop, seed)
    for index in range(start, count, stride):
        if time.monotonic() > deadline:
            break
        run_seed = derive(seed, prop.id, index)
        rng = random.Random(run_seed)
        scn = prop.generate(ctx, rng, index, tier)
        if scn is None:
            continue
        scn = _canon(scn)
        scn.setdefault('seed', run_seed)
        started = time.monotonic()
        try:
            result, violations = run_once(prop, ctx, scn)
        except BaseException:
            folder = os.environ.get('VERIF_REPLAYS') or os.path.join(VERIF, 'replays')
            os.makedirs(folder, exist_ok=True)
            with open(os.path.join(folder, f'{prop.id}-harness-error.json'), 'w') as f:
                json.dump({'property': prop.id, 'scenario': scn}, f)
            raise
        record = {
            'index': index,
            'seed': run_seed,
            'violations': violations,
            'measures': prop.measures(scn, result) if 'crash' not in result else {'process_deaths': 1},
            'state': prop.state_key(scn, result) if 'crash' not in result else None,
            'nontrivial': bool('crash' not in result and prop.nontrivial(scn, result)),
            'key': hashlib.sha256(json.dumps(scn, sort_keys=True).encode()).digest()[:12],
            'refs': ctx.refs.made,
            'wall': time.monotonic() - started,
        }
        if violations or index < 2:
            record['scenario'] = scn
            record['pinned'] = _canon(prop.pin(scn, result)) if 'crash' not in result else scn
        out(record)
        if violations:
            break


def _spawn(fn):
    """Fork a worker that sends records through a pipe."""
    r, w = os.pipe()
    pid = os.fork()
    if pid:
        os.close(w)
        return pid, r
    code = 1
    try:
        os.close(r)
        signal.signal(signal.SIGINT, signal.SIG_DFL)

        def out(record):
            data = pickle.dumps(record, 5)
            view = memoryview(struct.pack('<Q', len(data)) + data)
            while view:
                view = view[os.write(w, view):]

        try:
            fn(out)
            out({'end': True})
            code = 0
        except BaseException as error:
            out({'harness': ''.join(traceback.format_exception(error))[-6000:]})
    finally:
        os._exit(code)


def gather(fns, deadline):
    """Run worker functions in parallel; yield their records."""
    sel = selectors.DefaultSelector()
    alive = {}
    for fn in fns:
        pid, r = _spawn(fn)
        sel.register(r, selectors.EVENT_READ)
        alive[r] = [pid, b'', False]
    stop = False
    try:
        while alive:
            if time.monotonic() > deadline:
                raise TimeoutError('the workers did not finish in time')
            for key, _ in sel.select(timeout=5):
                r = key.fd
                chunk = os.read(r, 1 << 20)
                entry = alive[r]
                if not chunk:
                    sel.unregister(r)
                    os.close(r)
                    os.waitpid(entry[0], 0)
                    ended = entry[2]
                    del alive[r]
                    if not ended and not stop:
                        raise RuntimeError('a worker process died')
                    continue
                entry[1] += chunk
                while len(entry[1]) >= 8:
                    n = struct.unpack('<Q', entry[1][:8])[0]
                    if len(entry[1]) < 8 + n:
                        break
                    record = pickle.loads(entry[1][8:8 + n])
                    entry[1] = entry[1][8 + n:]
                    if record.get('end'):
                        entry[2] = True
                        continue
                    if 'harness' in record:
                        entry[2] = True
                        raise RuntimeError('harness failure in a worker:\n' + record['harness'])
                    stop_now = yield record
                    if stop_now:
                        stop = True
    finally:
        for r, (pid, _, _) in list(alive.items()):
            try:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            except OSError:
                pass
            try:
                os.close(r)
            except OSError:
                pass


# --------------------------------------------------------------------------------------------------------------
# Minimisation.

def minimise(prop, ctx, scn, violations, budget=60.0):
    """Greedy reduction of a failing scenario, keeping a violation of the same class."""
    wanted = {v[0] for v in violations}
    deadline = time.monotonic() + budget
    best, best_violations = scn, violations
    tries = 0
    improved = True
    while improved and time.monotonic() < deadline:
        improved = False
        for candidate in prop.candidates(best):
            if time.monotonic() > deadline:
                break
            candidate = _canon(candidate)
            tries += 1
            try:
                result, found = run_once(prop, ctx, candidate)
            except (scenario.ChildTimeout, RuntimeError, KeyError, IndexError, TypeError, ValueError):
                continue
            kept = [v for v in found if v[0] in wanted]
            if kept:
                pinned = _canon(prop.pin(candidate, result)) if 'crash' not in result else candidate
                # The written-out schedule must reproduce it as well, or the reduction is refused.
                again_result, again = run_once(prop, ctx, pinned)
                kept = [v for v in again if v[0] in wanted]
                if kept:
                    best, best_violations = pinned, kept
                    improved = True
                    break
    return best, best_violations, tries


def thread_candidates(scn):
    """Reductions of a scenario made of threads of operations, faults, a pool and a schedule."""
    threads = scn['threads']
    faults = scn.get('faults', [])

    def rebuilt(new_threads, new_faults, mapping=None):
        out = copy.deepcopy(scn)
        out['threads'] = new_threads
        out['faults'] = new_faults
        return out

    # Drop a whole thread's operations (thread numbers are kept: the thread becomes empty).
    for t in range(len(threads)):
        if threads[t] and sum(1 for x in threads if x) > 1:
            new = copy.deepcopy(threads)
            new[t] = []
            yield rebuilt(new, [f for f in faults if f['t'] != t])
    # Drop trailing empty threads.
    if len(threads) > 1 and not threads[-1]:
        out = copy.deepcopy(scn)
        out['threads'].pop()
        if out.get('segments'):
            out['segments'] = [s for s in out['segments'] if s[0] != len(threads) - 1]
        yield out
    # Drop chunks of operations, then single ones (fault positions follow).
    for t in range(len(threads)):
        n = len(threads[t])
        size = n // 2
        while size >= 1:
            for i in range(0, n, size):
                j = min(n, i + size)
                new = copy.deepcopy(threads)
                del new[t][i:j]
                moved = []
                for f in faults:
                    if f['t'] == t and len(f['op']) and isinstance(f['op'][0], int):
                        k = f['op'][0]
                        if i <= k < j:
                            continue
                        if k >= j:
                            f = copy.deepcopy(f)
                            f['op'][0] = k - (j - i)
                    moved.append(f)
                yield rebuilt(new, moved)
            size //= 2
    # Drop faults; drop nested operations.
    for i in range(len(faults)):
        yield rebuilt(copy.deepcopy(threads), copy.deepcopy(faults[:i] + faults[i + 1:]))
        if faults[i]['kind'] == 'nest' and len(faults[i]['ops']) > 1:
            for j in range(len(faults[i]['ops'])):
                new = copy.deepcopy(faults)
                del new[i]['ops'][j]
                yield rebuilt(copy.deepcopy(threads), new)
    # Drop unused pool objects.
    from .values import names_in

    prelude = scn.get('prelude', [])
    size = len(prelude)
    while size >= 1:
        for i in range(0, len(prelude), size):
            yield dict(scn, prelude=prelude[:i] + prelude[i + size:])
        size //= 2
    used = names_in([threads, faults, scn.get('probe', []), prelude])
    if set(scn['pool']) - used:
        out = copy.deepcopy(scn)
        out['pool'] = {n: s for n, s in scn['pool'].items() if n in used}
        yield out
    # Simplify the configuration.
    if scn.get('config'):
        out = copy.deepcopy(scn)
        out['config'] = None
        yield out
    # Simplify the schedule: fewer switches.
    segments = scn.get('segments')
    if segments and len(segments) > 1:
        n = len(segments)
        for cut in (0, 1, n // 4, n // 2, 3 * n // 4):
            if cut < n:
                out = copy.deepcopy(scn)
                out['segments'] = segments[:cut]
                yield out
        size = max(1, n // 2)
        tried = 0
        while size >= 1 and tried < 200:
            for i in range(0, n, size):
                out = copy.deepcopy(scn)
                out['segments'] = merge(segments[:i] + segments[i + size:])
                tried += 1
                if out['segments'] != segments:
                    yield out
            size //= 2


def merge(segments):
    out = []
    for key, n in segments:
        if out and out[-1][0] == key:
            out[-1][1] += n
        else:
            out.append([key, n])
    return out


# --------------------------------------------------------------------------------------------------------------
# The check.

def prepare_process(prop, search=True):
    from . import boot

    boot.boot(plotting=prop.plotting, library=prop.library)
    if hasattr(prop, 'setup'):
        prop.setup()
    engine.collect_codes()
    if prop.library and prop.focus_families and search:
        from .focus import Focus

        prop.focus = Focus()
        if prop.focus or (prop.focus.guards and prop.guarded):
            prop.focus.rank(prop.focus_families)
    gc.collect()
    gc.freeze()


def write_replay(prop, seed, tier, scn, violations, extra):
    folder = os.environ.get('VERIF_REPLAYS') or os.path.join(VERIF, 'replays')
    os.makedirs(folder, exist_ok=True)
    body = {
        'property': prop.id,
        'verif_seed': seed,
        'tier': tier,
        'violation': violations[0][0],
        'message': violations[0][1],
        'all': [list(v) for v in violations[:10]],
        'scenario': scn,
        **extra,
    }
    name = hashlib.sha256(json.dumps(scn, sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(folder, f'{prop.id}-{name}.json')
    with open(path, 'w') as f:
        json.dump(body, f, indent=1)
        f.write('\n')
    return path


def known_findings():
    """Lines `known: property=<id> signature=<violation class> <text>` of the committed file."""
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: property='):
                fields = line[len('known: '):].split(' ', 2)
                out.append((fields[0].split('=', 1)[1], fields[1].split('=', 1)[1], fields[2]))
    return out


def check(prop, seed, tier):
    started = time.monotonic()
    known = [k for k in known_findings() if k[0] == prop.id]
    for _, _, text in known:
        print(f'KNOWN-FINDING: property={prop.id} {text}')
    suppressed = {k[1] for k in known}
    count = int(os.environ.get('VERIF_RUNS') or prop.runs[tier])
    budget = float(os.environ.get('VERIF_BUDGET') or prop.budget[tier])
    print(f'{prop.id}: seed {seed}, {tier}, up to {count} runs in {budget:.0f} s, {WORKERS} workers', flush=True)
    prepare_process(prop)
    begun = time.monotonic()
    deadline = begun + budget
    fns = [
        (lambda out, k=k: worker(prop, seed, tier, k, WORKERS, count, deadline, out)) for k in range(WORKERS)
    ]
    totals = {}
    records = 0
    nontrivial = set()
    states = set()
    samples = []
    failing = []
    refs = 0
    source = gather(fns, deadline + prop.child_timeout + 120)
    for record in source:
        records += 1
        record['violations'] = [v for v in record['violations'] if v[0] not in suppressed]
        for name, value in record['measures'].items():
            if isinstance(value, dict):
                into = totals.setdefault(name, {})
                for k, v in value.items():
                    into[k] = into.get(k, 0) + v
            else:
                totals[name] = totals.get(name, 0) + value
        if record['nontrivial']:
            nontrivial.add(record['key'])
        if record['state'] is not None:
            states.add(record['state'])
        if 'scenario' in record and len(samples) < 2 and not record['violations']:
            samples.append({'run': record['index'], 'seed': record['seed'], 'scenario': record['scenario']})
        if record['violations']:
            failing.append(record)
            if len(failing) >= 1 and time.monotonic() - begun > 5:
                break
            if len(failing) >= 3:
                break
    source.close()
    explored = time.monotonic() - begun
    code = 0
    if failing:
        failing.sort(key=lambda r: len(json.dumps(r['scenario'])))
        record = failing[0]
        print(f'run {record["index"]} (seed {record["seed"]}) violates {prop.id}: {record["violations"][0]}', flush=True)
        ctx = Context(prop, seed)
        start = record['pinned']
        if record['violations'][0][0] not in [v[0] for v in run_once(prop, ctx, start)[1]]:
            start = record['scenario']
        scn, violations, tries = minimise(prop, ctx, start, record['violations'])
        path = write_replay(prop, seed, tier, scn, violations, {
            'run': record['index'], 'run_seed': record['seed'], 'minimiser_tries': tries,
            'original': record['scenario'],
        })
        for v in violations[:3]:
            print(f'  {v[0]}: {v[1]}')
        # Replaying in this process image: the same verdict, twice.
        verdicts = [[v[0] for v in run_once(prop, ctx, scn)[1]] for _ in range(2)]
        if not all(violations[0][0] in v for v in verdicts):
            print(f'  warning: replay gave {verdicts}')
        print(f'VIOLATION property={prop.id} replay={path}', flush=True)
        code = 1
    hours = max(1e-9, explored / 3600)
    coverage = {
        'evaluations': records,
        'distinct_nontrivial': len(nontrivial),
        'rule': prop.rule,
        'samples': samples or [{'note': 'no run without a violation'}],
        'simulated_runs': records,
        'runs_per_hour': round(records / hours),
        'seeds_per_hour': round(records / hours),
        'distinct_event_histories': len(states),
        'components_real': prop.real,
        'components_stubbed': prop.stubs,
        'exploration_seconds': round(explored, 1),
        'workers': WORKERS,
        'verif_seed': seed,
        **totals,
    }
    if 'steps' in totals:
        coverage['simulated_seconds'] = round(totals['steps'] * 1e-6 + totals.get('clock_jumps_s', 0), 3)
    evidence = {
        'property': prop.id,
        'tier': tier,
        'seed': seed,
        'level': prop.level,
        'coverage': coverage,
        'assumptions': list(prop.assumptions),
        'wall_s': round(time.monotonic() - started, 1),
        'violations': 1 if failing else 0,
    }
    folder = os.path.join(VERIF, 'evidence')
    os.makedirs(folder, exist_ok=True)
    scratch = tempfile.NamedTemporaryFile('w', dir=folder, delete=False, suffix='.tmp')
    json.dump(evidence, scratch, indent=1)
    scratch.close()
    os.replace(scratch.name, os.path.join(folder, f'{prop.id}.json'))
    print(f'{prop.id}: {records} runs, {len(nontrivial)} distinct non-trivial, {explored:.0f} s, exit {code}', flush=True)
    return code


def replay(prop, path):
    body = json.load(open(path))
    prepare_process(prop, search=False)
    ctx = Context(prop)
    result, violations = run_once(prop, ctx, body['scenario'])
    for v in violations:
        print(f'  {v[0]}: {v[1]}')
    if violations:
        print(f'VIOLATION property={prop.id} replay={path}')
        return 1
    print('no violation')
    return 0

