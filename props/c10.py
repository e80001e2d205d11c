"""C10: saved, copied and restored objects are indistinguishable from originals."""

import copy
import gc
import io
import os
import pickle
import subprocess
import sys

from sim import boot, catalog, scenario
from sim.driver import Property
from sim.engine import Sim
from sim.values import Broken, build, enc, fingerprint, names_in, native, same, show, write, write_list

from . import c07
from .common import draw_dim, draw_hot, draw_ops, leading

ERRORS = {
    'ENOSPC': lambda: OSError(28, 'No space left on device'),
    'EIO': lambda: OSError(5, 'Input/output error'),
    'KeyboardInterrupt': lambda: KeyboardInterrupt('injected'),
    'MemoryError': lambda: MemoryError('injected'),
    'Cancelled': lambda: scenario_cancelled(),
}


def scenario_cancelled():
    from sim.engine import Cancelled

    return Cancelled('injected')


class PowerLoss(BaseException):
    """The simulated machine stops."""


class SimFile:
    """A file on the simulated disk. What was written before a failure stays, the failing write is short."""

    def __init__(self, fault):
        self.data = bytearray()
        self.writes = 0
        self.fault = fault
        self.fired = None

    def write(self, chunk):
        self.writes += 1
        chunk = bytes(chunk)
        if self.fault and self.writes == self.fault['at']:
            self.fired = self.fault['kind']
            self.data += chunk[: int(len(chunk) * self.fault['part'])]
            raise PowerLoss() if self.fired == 'crash' else ERRORS[self.fired]()
        self.data += chunk
        return len(chunk)


def dump(obj, file, step):
    """Save in one of several ways; all of them write piecemeal."""
    how = step.get('way', 'dump')
    if how == 'chunks':
        data = pickle.dumps(obj, step['proto'])
        for i in range(0, len(data), step.get('size', 64)):
            file.write(data[i:i + step.get('size', 64)])
    elif how == 'python':
        pickle._Pickler(file, step['proto']).dump(obj)
    else:
        pickle.Pickler(file, step['proto']).dump(obj)


def clone(obj, how, proto):
    """A copy made in one of the ways objects travel."""
    if how == 'deepcopy':
        return copy.deepcopy(obj)
    if how == 'pickle':
        return pickle.loads(pickle.dumps(obj, proto))
    if how == 'python':
        out = io.BytesIO()
        pickle._Pickler(out, proto).dump(obj)
        return pickle._loads(out.getvalue())
    if how == 'oob':
        buffers = []
        data = pickle.dumps(obj, 5, buffer_callback=buffers.append)
        return pickle.loads(data, buffers=[bytearray(b) for b in buffers])
    if how == 'twice':
        return copy.deepcopy(pickle.loads(pickle.dumps(obj, proto)))
    if how == 'process':
        data = pickle.dumps(obj, proto)
        # To another process, which looks at it and sends it back.
        back = scenario.forked(lambda: (lambda x: (repr(x), pickle.dumps(x, proto))[1])(pickle.loads(data)))
        return pickle.loads(back)
    raise ValueError(how)


HOWS = ('deepcopy', 'deepcopy', 'pickle', 'pickle', 'python', 'oob', 'twice', 'process')


def rename(spec, names):
    """The operation on other objects."""
    if isinstance(spec, dict):
        out = {k: rename(v, names) for k, v in spec.items()}
        if out.get('k') == 'ref':
            out['n'] = names.get(out['n'], out['n'])
        return out
    if isinstance(spec, list):
        return [rename(v, names) for v in spec]
    return spec


def self_op(name):
    return {'f': 'py', 'n': 'self', 'r': {'k': 'ref', 'n': name}, 'a': [], 'kw': {}}


def perform(op, pool):
    try:
        recv, args, kw = catalog.prepare(op, pool)
        return ('ret', enc(catalog.call(op, recv, args, kw)))
    except Exception as error:
        return ('raise', enc(error))


def fresh_main():
    """In a fresh interpreter: load a checkpoint, answer, say what happened."""
    data, ops = pickle.load(sys.stdin.buffer)
    out = sys.stdout.buffer
    sys.stderr = open(os.devnull, 'w')
    try:
        pool = pickle.loads(data)
    except BaseException as error:
        answer = ('failed', repr(error))
    else:
        answer = ('loaded', [perform(op, pool) for op in ops])
    out.write(pickle.dumps(answer))
    out.flush()


class Prop(Property):
    id = 'C10'
    runs = {'quick': 5200, 'thorough': 100_000}
    budget = {'quick': 160, 'thorough': 1800}
    stubs = 'the disk (write failures, short writes, power loss) and the machine (processes are forked incarnations)'
    real = 'skspatial, NumPy, pickle (C and Python implementations), copy, fresh interpreters for some restores'
    rule = (
        'A run is 1-4 incarnations of a process holding 1-4 spatial objects (of classes of the library and of derived ones): queries, in-place updates, clones '
        '(deepcopy, pickle protocols 0-5, the pure-Python pickler, out-of-band buffers, a trip through another process), '
        'checkpoints to a simulated disk that fills up, fails, or loses power in the middle of a write, saves aborted or looked at while library code takes part in them, '
        'and restarts from the latest complete checkpoint. Every answer of every original, clone and restored object is '
        'compared with a freshly built object holding the values the model says it has. Non-trivial: at least one clone '
        'or restore happened.'
    )

    def setup(self):
        boot.allocator.load()

    # -- generation ---------------------------------------------------------------------------------------------

    def generate(self, ctx, rng, index, tier):
        families = ('query', 'new')
        gen = catalog.Gen(rng, dim=draw_dim(ctx, rng, (2, 2, 3, 3, 3, 1), families), n_pool=rng.randint(1, 3), shared=1.0)
        chosen = sorted({id(t): t for t in catalog.usable(gen.dim, families) if t.form in ('m', 'get', 'multi')}.values(),
                        key=lambda t: t.label)
        hot = [leading(ctx, rng, gen, families, chosen[index % len(chosen)])] + draw_hot(gen, rng, families, 2)
        base = draw_ops(gen, rng, rng.choice((2, 4, 6)), hot, 0.8, 0.2, families)
        base = [op for op in base if names_in(op)] or [self_op(sorted(gen.pool)[0])]
        for spec in gen.pool.values():
            # A copy has its own layout in memory, on which the last digit of a dot product depends.
            c07._unlock(spec, ('ro', 's2', 'rev', 'F'))
            if spec.get('c', 'ndarray') != 'ndarray' and rng.random() < 0.2:
                spec['sub'] = 1
        mutator = c07.Prop()
        mutator.labels = True
        mutate = mutator.mutation
        specs = {n: s for n, s in gen.pool.items()}
        aliases = {n: [n] for n in specs}  # original name -> all names with the same history of classes
        saved = None
        lives = []
        made = 0
        n_lives = rng.choice((1, 2, 2, 3, 4))
        for life in range(n_lives):
            steps = []
            if life:
                # What survived: the names of the last complete save (the judge finds out which).
                specs = dict(saved) if saved is not None else {n: s for n, s in gen.pool.items()}
            for _ in range(rng.choice((3, 6, 10))):
                roll = rng.random()
                names = sorted(specs)
                if roll < 0.40:
                    op = rng.choice(base)
                    swap = {}
                    for n in sorted(names_in(op)):
                        same_kind = [m for m in aliases.get(n, [n]) if m in specs]
                        if same_kind:
                            swap[n] = rng.choice(same_kind)
                    steps.append({'do': 'op', 'op': rename(op, swap)})
                elif roll < 0.62:
                    some = [rename(op, {n: m}) for op in base for n in sorted(names_in(op)) for m in aliases.get(n, [n])
                            if m in specs]
                    step = mutate(rng, specs, some or [self_op(rng.choice(names))])
                    if step is None:
                        continue
                    after = c07.evolve(specs, step)
                    if c07.valid(after, step['n']):
                        specs = after
                        steps.append(step)
                elif roll < 0.85:
                    n = rng.choice(names)
                    to = f'c{made}'
                    made += 1
                    step = {'do': 'clone', 'n': n, 'to': to, 'how': rng.choice(HOWS), 'proto': rng.randrange(6)}
                    if rng.random() < 0.12:
                        step['nomem'] = rng.choice((1, 1, 2, 3, 5))
                        step['how'] = rng.choice(('deepcopy', 'pickle'))
                    elif rng.random() < 0.4 and step['how'] != 'process':
                        step['event'] = self.event(rng, base, n)
                    if rng.random() < 0.3:
                        step['shape'] = rng.choice(('list', 'part', 'dict'))
                    steps.append(step)
                    specs = dict(specs)
                    specs[to] = specs[n]
                    for family in aliases.values():
                        if n in family:
                            family.append(to)
                else:
                    steps.append(self.save_step(rng))
                    if rng.random() < 0.3:
                        steps[-1].pop('fault', None)
                        steps[-1]['event'] = self.event(rng, base, rng.choice(names))
                    if 'fault' not in steps[-1]:
                        saved = dict(specs)
            if life < n_lives - 1:
                steps.append(self.save_step(rng))
                if 'fault' not in steps[-1]:
                    saved = dict(specs)
            for n in sorted(specs):
                steps.append({'do': 'op', 'op': self_op(n)})
            if index % 40 == 0 and life == n_lives - 1:
                steps.append({'do': 'fresh', 'proto': rng.randrange(6), 'hashseed': rng.randrange(1 << 30),
                              'ops': [rename(op, {}) for op in base[:4]] + [self_op(n) for n in sorted(specs)]})
            lives.append(steps)
        return {'pool': gen.pool, 'lives': lives}

    def event(self, rng, base, n):
        """Something that happens while library code takes part in saving or loading: an abort, or another user's look."""
        event = {'at': rng.choice((1, 1, 2, 2, 3, 4, 5, 6, 8, 10, 14, 20, 30, 50))}
        if rng.random() < 0.5:
            event['kind'] = rng.choice(('KeyboardInterrupt', 'Cancelled', 'MemoryError', 'TimeoutError', 'Signalled'))
        else:
            event['kind'] = 'nest'
            event['look'] = rng.choice([rename(op, {m: n}) for op in base for m in sorted(names_in(op))] + [self_op(n)] * 2)
        return event

    def save_step(self, rng):
        step = {'do': 'save', 'proto': rng.randrange(6), 'way': rng.choice(('dump', 'dump', 'python', 'chunks')),
                'size': rng.choice((1, 7, 64, 512))}
        if rng.random() < 0.5:
            step['fault'] = {'at': rng.choice((1, 1, 2, 3, 5, 9, 20, 60)), 'part': rng.choice((0, 0.3, 0.7, 0.99)),
                             'kind': rng.choice(('ENOSPC', 'EIO', 'KeyboardInterrupt', 'MemoryError', 'Cancelled',
                                                 'crash', 'crash'))}
        return step

    # -- execution ----------------------------------------------------------------------------------------------

    def execute(self, scn):
        disk = []  # files, oldest first: (data, complete)
        out = []
        for steps in scn['lives']:
            result, files = scenario.forked(lambda: self.live(scn, steps, disk), 100)
            out.append(result)
            disk = disk + files
        return {'lives': out, 'hash': hash(repr(out))}

    def live(self, scn, steps, disk):
        """One incarnation: restore, run the steps, return what was observed and the files it left."""
        sys.stderr = open(os.devnull, 'w')
        result = {'outcomes': {}, 'loads': [], 'saves': {}, 'clones': {}, 'fired': {}, 'notes': [], 'looks': {}}
        pool = None
        for i in range(len(disk) - 1, -1, -1):
            data, complete = disk[i]
            try:
                pool = pickle.loads(data)
            except Exception as error:
                result['loads'].append((i, complete, False, repr(error)[:200]))
            else:
                result['loads'].append((i, complete, True, ''))
                break
        if pool is None:
            pool = {n: build(s) for n, s in scn['pool'].items()}
        result['broken'] = sorted(n for n, x in pool.items() if isinstance(x, Broken))
        files = []

        def note(kind):
            result['fired'][kind] = result['fired'].get(kind, 0) + 1

        for i, step in enumerate(steps):
            do = step['do']
            if do == 'op':
                if names_in(step['op']) <= set(pool):
                    result['outcomes'][i] = perform(step['op'], pool)
            elif do in ('write', 'scalar'):
                obj = pool.get(step['n'])
                if obj is None or isinstance(obj, Broken):
                    continue
                if do == 'scalar':
                    try:
                        setattr(obj, step['attr'], step['v'])
                    except (AttributeError, TypeError):
                        result['broken'].append(step['n'])
                    continue
                if 'attr' in step:
                    obj = getattr(obj, step['attr'])
                try:
                    if isinstance(obj, list):
                        write_list(obj, step)
                    else:
                        write(obj, step)
                except (TypeError, ValueError) as error:
                    original = self.origin(scn, step['n'])
                    result['broken'].append(step['n'])
                    if self.accepts(scn['pool'][original], step):
                        result['notes'].append(('copy-unusable', f'step {i}: {step["n"]}, copied or restored from {original}, cannot be updated '
                                                                 f'in place as the original can: {error}'))
            elif do == 'clone':
                if step['n'] in pool:
                    result['clones'][i] = self.clone_step(pool, step, result, note, i)
            elif do == 'save':
                file = SimFile(step.get('fault'))
                before = {n: fingerprint(x) for n, x in pool.items()}
                hit = []
                try:
                    self.eventful(pool, step, result, note, i, hit, lambda: dump(pool, file, step))
                    complete = True
                except PowerLoss:
                    note('power loss')
                    result['saves'][i] = 'crash'
                    files.append((bytes(file.data), False))
                    return result, files
                except BaseException as error:
                    complete = False
                    if hit:
                        pass
                    elif file.fired is None:
                        result['notes'].append(('cannot-save', f'step {i}: saving raised {type(error).__name__}({error})'))
                    else:
                        note(file.fired)
                result['saves'][i] = complete
                files.append((bytes(file.data), complete))
                after = {n: fingerprint(x) for n, x in pool.items()}
                for n in pool:
                    if before[n] != after[n]:
                        result['notes'].append(('save-disturbs', f'step {i}: saving changed {n} from '
                                                                 f'{before[n]!r:.200} to {after[n]!r:.200}'))
            elif do == 'fresh':
                data = pickle.dumps(pool, step['proto'])
                ops = [op for op in step['ops'] if names_in(op) <= set(pool)]
                env = dict(os.environ, **boot.ENV, PYTHONHASHSEED=str(step['hashseed']), PYTHONPATH=boot.SRC)
                here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
                run = subprocess.run(
                    [boot.VENV_PYTHON, '-B', '-c',
                     f'import sys; sys.path.insert(0, {here!r}); from props import c10; c10.fresh_main()'],
                    input=pickle.dumps((data, ops)), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, timeout=90,
                )
                if not run.stdout:
                    raise RuntimeError(f'the fresh interpreter ended with status {run.returncode}')
                result['fresh'] = (i, ops, pickle.loads(run.stdout))
        return result, files

    def eventful(self, pool, step, result, note, i, hit, fn):
        """fn() under the simulator, with the event of the step. hit: the abort that was raised, if any."""
        event = step.get('event')
        if not event:
            return fn()
        sim = Sim(faults=[dict(event, t=0, op=[i], id='look', ops=())], step_cap=4_000_000)

        def look(sim, t, act, fault):
            if names_in(event['look']) <= set(pool):
                t.busy = True
                note('look during save')
                result['looks'][i] = perform(event['look'], pool)
                t.busy = False

        sim.nest_runner = look
        made = []

        def body(t):
            sim.enter(t, (i,))
            try:
                made.append(fn())
            finally:
                sim.leave(t)

        try:
            sim.run_inline(0, body)
        finally:
            for fault, error, _, _ in sim.fired:
                if error is not None:
                    hit.append(fault['kind'])
                    note(fault['kind'])
        return made[0]

    def clone_step(self, pool, step, result, note, i):
        obj = pool[step['n']]
        before = fingerprint(obj)
        armed = None
        shape = step.get('shape')
        part = None
        whole = obj
        if shape == 'list':
            whole = [obj, obj]
        elif shape == 'dict':
            whole = {'a': obj, 'b': (obj,)}
        elif shape == 'part':
            attrs = c07.SLOTS.get(type(obj).__name__)
            if attrs:
                part = sorted(attrs)[step['proto'] % len(attrs)]
                whole = [obj, getattr(obj, part)]
        hit = []
        try:
            if step.get('nomem'):
                armed = boot.allocator.install()
                boot.allocator.arm(step['nomem'])
            try:
                made = self.eventful(pool, step, result, note, i, hit,
                                     lambda: clone(whole, step['how'], step['proto']))
            finally:
                if armed is not None:
                    fired = boot.allocator.fired
                    boot.allocator.disarm()
                    boot.allocator.restore(armed)
                    if fired:
                        note('allocation failure')
        except BaseException as error:
            if not hit and not (isinstance(error, MemoryError) and armed is not None and fired):
                if not isinstance(error, Exception):
                    raise
                return ('raised', enc(error))
            if fingerprint(obj) != before:
                result['notes'].append(('save-disturbs', f'a failed clone changed {step["n"]}'))
            return ('failed',)
        if shape == 'list':
            if made[0] is not made[1]:
                result['notes'].append(('sharing-lost', f'{step["how"]}: two references to one object became two objects'))
            made = made[0]
        elif shape == 'dict':
            if made['a'] is not made['b'][0]:
                result['notes'].append(('sharing-lost', f'{step["how"]}: two references to one object became two objects'))
            made = made['a']
        elif part:
            if made[1] is not getattr(made[0], part):
                result['notes'].append(('sharing-lost', f'{step["how"]}: the {part} of the copy is not the copied {part}'))
            made = made[0]
        pool[step['to']] = made
        if fingerprint(obj) != before:
            result['notes'].append(('save-disturbs', f'cloning ({step["how"]}) changed {step["n"]}'))
        return ('made',)

    # -- judgement ----------------------------------------------------------------------------------------------

    @staticmethod
    def origin(scn, name):
        """The object of the pool that a name is a copy of."""
        made = {s['to']: s['n'] for steps in scn['lives'] for s in steps if s['do'] == 'clone'}
        while name in made:
            name = made[name]
        return name

    @staticmethod
    def accepts(spec, step):
        obj = build(spec)
        try:
            obj = getattr(obj, step['attr']) if 'attr' in step else obj
            (write_list if isinstance(obj, list) else write)(obj, step)
        except (TypeError, ValueError):
            return False
        return True

    def judge(self, ctx, scn, result):
        out = []
        checkpoints = []  # model specifications per file on disk
        for k, (steps, seen) in enumerate(zip(scn['lives'], result['lives'])):
            specs = scn['pool']
            loaded = None
            for i, complete, ok, error in seen['loads']:
                if ok and not complete:
                    out.append(('torn-save-loads', f'life {k}: an incomplete save yielded an object'))
                if complete and not ok:
                    out.append(('cannot-restore', f'life {k}: a complete save does not load: {error}'))
                if ok:
                    loaded = i
            if loaded is not None:
                specs = checkpoints[loaded]
            broken = set(seen['broken'])
            touched = {n for n in specs if specs[n] is not scn['pool'].get(n)}
            for i, step in enumerate(steps):
                do = step['do']
                if i in seen['looks']:
                    self.compare(ctx, out, specs, touched, broken, step['event']['look'], seen['looks'][i],
                                 f'life {k} during step {i}')
                if do in ('write', 'scalar'):
                    if step['n'] in specs and step['n'] not in broken:
                        specs = c07.evolve(specs, step)
                        touched.add(step['n'])
                elif do == 'clone' and i in seen['clones']:
                    got = seen['clones'][i]
                    if got[0] == 'made':
                        specs = dict(specs)
                        specs[step['to']] = copy.deepcopy(specs[step['n']])
                        if step['n'] in broken:
                            broken.add(step['to'])
                        if step['n'] in touched:
                            touched.add(step['to'])
                    elif got[0] == 'raised':
                        out.append(('cannot-copy', f'life {k} step {i} {step["how"]} of {step["n"]}: {show(("raise", got[1]))}'))
                elif do == 'save' and i in seen['saves']:
                    checkpoints.append(dict(specs))
                    if seen['saves'][i] == 'crash':
                        break
                elif do == 'op' and i in seen['outcomes']:
                    self.compare(ctx, out, specs, touched, broken, step['op'], seen['outcomes'][i], f'life {k} step {i}')
                elif do == 'fresh' and 'fresh' in seen:
                    _, ops, answer = seen['fresh']
                    if answer[0] == 'failed':
                        out.append(('cannot-restore', f'a fresh interpreter cannot load the save: {answer[1][:300]}'))
                    else:
                        for op, got in zip(ops, answer[1]):
                            self.compare(ctx, out, specs, touched, broken, op, got, f'life {k}, fresh interpreter')
            out += [tuple(n) for n in seen['notes']]
        return out

    def compare(self, ctx, out, specs, touched, broken, op, got, where):
        names = names_in(op)
        if broken & names or not names <= set(specs):
            return
        if any(n in touched and not c07.valid(specs, n) for n in names):
            return
        expected = ctx.refs.get(op, specs)
        if got != expected and not same(native(got), native(expected)):
            out.append(('distinguishable', f'{where} {catalog.describe(op)}: {show(got)}; an object that never was saved or '
                                           f'copied: {show(expected)}'))

    def nontrivial(self, scn, result):
        return any(r['clones'] or any(x[2] for x in r['loads']) for r in result['lives'])

    def measures(self, scn, result):
        fired = {}
        hows = {}
        loads = {'restored': 0, 'refused': 0}
        for steps, r in zip(scn['lives'], result['lives']):
            for k, v in r['fired'].items():
                fired[k] = fired.get(k, 0) + v
            for i in r['clones']:
                hows[steps[i]['how']] = hows.get(steps[i]['how'], 0) + 1
            for _, _, ok, _ in r['loads']:
                loads['restored' if ok else 'refused'] += 1
        return {
            'incarnations': len(result['lives']),
            'answers_compared': sum(len(r['outcomes']) for r in result['lives']),
            'faults_injected': fired, 'clones': hows, 'checkpoint_loads': loads,
            'saves': sum(len(r['saves']) for r in result['lives']),
            'fresh_interpreters': sum('fresh' in r for r in result['lives']),
        }

    def candidates(self, scn):
        lives = scn['lives']
        for k in range(len(lives)):
            if len(lives) > 1:
                yield dict(scn, lives=lives[:k] + lives[k + 1:])
        for k, steps in enumerate(lives):
            size = max(1, len(steps) // 2)
            while size >= 1:
                for i in range(0, len(steps), size):
                    yield dict(scn, lives=lives[:k] + [steps[:i] + steps[i + size:]] + lives[k + 1:])
                size //= 2
        for k, steps in enumerate(lives):
            for i, step in enumerate(steps):
                for key in ('fault', 'nomem', 'shape', 'event'):
                    if key in step:
                        new = copy.deepcopy(scn)
                        del new['lives'][k][i][key]
                        yield new
        used = names_in(lives) | {s[key] for steps in lives for s in steps for key in ('n',) if key in s}
        if set(scn['pool']) - used and set(scn['pool']) & used:
            yield dict(scn, pool={n: s for n, s in scn['pool'].items() if n in used})
