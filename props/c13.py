"""C13: however long a process runs, calls leave nothing behind that grows."""

import _thread
import array
import atexit
import copy
import ctypes
import gc
import itertools
import os
import sys
import threading
import time
import warnings
import weakref

from sim import boot, catalog, focus, scenario
from sim.driver import Property
from sim.values import Broken, arrays_in, build

from .common import ABORT_KINDS, draw_abort, draw_dim, draw_policy, hot_templates, leading, total_cost

FAMILIES = ('query', 'new', 'py', 'np', 'plotter')
# Blocks of memory per round that count as growth.
RATE = 0.2
# NumPy itself keeps an output of a two-output ufunc whose __array_wrap__ or __array_finalize__ is aborted.
NUMPY_KEEPS = ('divmod', 'modf', 'frexp')


def scaled(spec, k):
    """The specification with all coordinates and radii multiplied, which leaves their geometry as it is."""
    if isinstance(spec, list):
        return [scaled(s, k) for s in spec]
    if not isinstance(spec, dict):
        return spec
    if spec.get('k') in ('arr', 'list', 'tuple', 'lazy', 'num') and 'v' in spec:
        return dict(spec, v=_times(spec['v'], k, str(spec.get('dt', ''))))
    return {name: scaled(v, k) for name, v in spec.items()}


def scaled_op(op, k):
    """The operation on scaled operands; numbers it takes as such (counts, tolerances) stay."""
    op = dict(op)
    op['kw'] = {name: dict(x, v=x['v'] * (1 + k / 1e9)) if isinstance(x.get('v'), float) else x for name, x in op.get('kw', {}).items()}
    op.update(a=[a if a.get('k') == 'num' else scaled(a, k) for a in op.get('a', ())])
    if 'r' in op:
        op['r'] = scaled(op['r'], k)
    return op


def _times(v, k, dt):
    if isinstance(v, (list, tuple)):
        return type(v)(_times(x, k, dt) for x in v)
    if isinstance(v, bool) or not isinstance(v, (int, float)):
        return v
    if isinstance(v, int) and dt[:1] != 'f':
        bits = {'i1': 7, 'u1': 8, 'i2': 15, 'u2': 16, 'i4': 31, 'u4': 32}.get(dt.lstrip('<>|='), 62)
        new = v * k
        return new if abs(new) < 1 << bits else v
    return v * (1 + k / 1024)


class Heap(ctypes.Structure):
    """struct mallinfo2 of the C library."""

    _fields_ = [(name, ctypes.c_size_t) for name in (
        'arena', 'ordblks', 'smblks', 'hblks', 'hblkhd', 'usmblks', 'fsmblks', 'uordblks', 'fordblks', 'keepcost')]


def heap():
    try:
        function = ctypes.CDLL(None).mallinfo2
    except (OSError, AttributeError):
        return lambda: 0
    function.restype = Heap

    def read():
        info = function()
        return info.uordblks + info.hblkhd

    return read


class Resources:
    """What may not grow."""

    def __init__(self):
        self.known = focus.containers()
        self.threads = _thread._count()
        self.heap = heap()

        self.sources = {
            'memory blocks': sys.getallocatedblocks,
            'bytes of memory': self.heap,
            'threads': lambda: len(threading.enumerate()),
            'open files': lambda: len(os.listdir('/proc/self/fd')),
            'exit functions': atexit._ncallbacks,
            'finalizers': lambda: len(weakref.finalize._registry),
            'collector callbacks': lambda: len(gc.callbacks),
            'warning filters': lambda: len(warnings.filters),
            'modules': lambda: len(sys.modules),
            'import hooks': lambda: len(sys.meta_path) + len(sys.path_hooks) + len(sys.path),
            'environment': lambda: len(os.environ),
            'library containers': lambda: sum(size() for _, size in self.known),
        }
        self.names = list(self.sources)
        self.least = [8 * RATE if name == 'bytes of memory' else RATE for name in self.names]

    def read(self, into):
        for i, source in enumerate(self.sources.values()):
            into[i] = source()

    def sizes(self):
        return {name: size() for name, size in self.known}


class Prop(Property):
    id = 'C13'
    focus_families = FAMILIES
    runs = {'quick': 6500, 'thorough': 80_000}
    budget = {'quick': 160, 'thorough': 1800}
    child_timeout = 400.0
    stubs = 'thread scheduling, clocks and locks seen by skspatial code; kernels while they are made to fail'
    rule = (
        'A run is a long life of a process: one to three public operations repeated in rounds, each round on new values '
        '(all operands made anew, or the receiver kept, or kept operands updated in place), plain, on two threads under a '
        'seeded schedule, aborted at a seeded event, or with a failing kernel. After 32, 48, 64 and 80 rounds the memory '
        'blocks in use, library containers, threads, open files, exit functions, finalizers, filters and modules are '
        'counted. Where something grew by at least one per five rounds every time, the life goes on for up to '
        '10,000 rounds; it is a violation if it still grows after that. Non-trivial: operations were performed.'
    )
    assumptions = (
        'A cache of up to 8,192 entries counts as bounded; lives around Cylinder.best_fit go on for 1,500 rounds.',
        'Memory is counted in allocator blocks: something that grows inside one block of memory is seen only if it is a '
        'container at module or class level.',
    )

    def generate(self, ctx, rng, index, tier):
        gen = catalog.Gen(rng, dim=draw_dim(ctx, rng, (2, 2, 3, 3, 3, 3, 3, 1, 4), FAMILIES), n_pool=rng.randint(1, 3),
                          shared=rng.choice((0.95, 0.6)))
        gen.oddity = 0.25
        chosen = focus.distinct(gen.dim, FAMILIES)
        lead = leading(ctx, rng, gen, FAMILIES, chosen[index % len(chosen)], p=0.6, guard=0.1)
        if lead.cost > 10 and rng.random() < 0.8:
            lead = chosen[index % len(chosen)]
        ops = [gen.op(lead)]
        for _ in range(rng.choice((0, 0, 1, 2))):
            hot = hot_templates(ctx, gen.dim, FAMILIES)
            roll = rng.random()
            op = gen.twin(ops[0]) if roll < 0.4 else gen.op(rng.choice(hot) if hot and roll < 0.7 else rng.choice(chosen))
            if total_cost([op]) == 1:
                ops.append(op)
        scn = {
            'pool': gen.pool,
            'ops': ops,
            'operands': rng.choice(('fresh', 'fresh', 'fresh', 'kept', 'kept', 'updated', 'same')),
            'life': rng.choice(('plain', 'plain', 'abort', 'abort', 'abort', 'pair', 'kernel')),
            'policy': draw_policy(rng, 2),
        }
        if scn['life'] == 'abort' and any(op['n'] in NUMPY_KEEPS for op in ops):
            scn['life'] = 'plain'
        if scn['life'] == 'abort':
            drawn = draw_abort(ctx, rng, gen.pool, ops[0], None, ABORT_KINDS)
            if drawn and not self.interpreter_keeps(ctx.profiles.get(ops[0], gen.pool)[0][drawn[0] - 1]):
                scn['at'], scn['kind'] = drawn
            else:
                scn['life'] = 'plain'
        elif scn['life'] == 'kernel':
            scn['at'] = rng.choice((1, 1, 1, 2, 3))
            scn['kind'] = rng.choice(('LinAlgError', 'MemoryError', 'ValueError'))
        scn['limit'] = 1500 if total_cost(ops) >= 60 else 10_000
        return scn

    @staticmethod
    def interpreter_keeps(event):
        """CPython 3.12 loses its operands where a call of super() is instrumented and the call does not take place."""
        return event[3] == 'super'

    # -- execution ----------------------------------------------------------------------------------------------

    def execute(self, scn):
        sys.stderr = open(os.devnull, 'w')
        self.pool = None
        self.calls = self.raised = self.fired = self.steps = 0
        gc.collect()
        gc.freeze()
        resources = Resources()
        heavy = total_cost(scn['ops']) >= 60
        # Readings go into arrays made beforehand, so that they are no growth themselves.
        length = 4 if heavy else 16
        steps = [length if heavy else 32] + [length] * 3 + [3 * length] * 6
        while sum(steps) < scn['limit']:
            steps.append(max(3 * length, scn['limit'] // 10))
        table = [array.array('q', bytes(8 * len(resources.names))) for _ in steps]
        growing = bytearray([1] * len(resources.names))
        n = 0
        for part, step in enumerate(steps):
            # The first rounds fill what interpreter and libraries keep for later use.
            for _ in range(step):
                self.round(scn, n)
                n += 1
            self.settle(resources)
            resources.read(table[part])
            if part:
                self.compare(table[part - 1], table[part], step, resources.least, growing)
            if part >= 3 and not any(growing):
                break
        growing = [i for i, flag in enumerate(growing) if flag]
        rates = {resources.names[i]: round((table[part][i] - table[part - 1][i]) / step, 1) for i in growing}
        grown = []
        if growing:
            before = resources.sizes()
            for _ in range(32):
                self.round(scn, n)
                n += 1
            after = resources.sizes()
            grown = sorted(name for name in after if after[name] >= before[name] + 8)
        return {'growing': rates, 'containers': grown, 'rounds': n, 'calls': self.calls, 'raised': self.raised,
                'fired': self.fired, 'steps': self.steps}

    def settle(self, resources):
        gc.collect()
        sys._clear_type_cache()
        # Simulated threads that have ended are still being taken down.
        for _ in range(100):
            if _thread._count() <= resources.threads:
                break
            time.sleep(0.0005)

    @staticmethod
    def compare(before, after, step, least, growing):
        for i in range(len(growing)):
            if after[i] - before[i] < max(1, least[i] * step):
                growing[i] = 0

    def round(self, scn, n):
        mode = scn['operands']
        k = n + 1 if mode in ('fresh', 'kept') else 1
        ops = [scaled_op(op, k) for op in scn['ops']] if k > 1 else scn['ops']
        if self.pool is None or mode == 'fresh':
            pool = {name: build(scaled(s, k)) for name, s in scn['pool'].items()}
        else:
            pool = self.pool
            if mode == 'kept':
                receivers = {op['r']['n'] for op in scn['ops'] if op.get('r', {}).get('k') == 'ref'}
                for name, s in scn['pool'].items():
                    if name not in receivers:
                        pool[name] = build(scaled(s, k))
            elif mode == 'updated':
                for name in sorted(pool):
                    for x in arrays_in(pool[name])[:1 + n % 3]:
                        if x.flags.writeable and x.dtype.kind in 'iuf' and x.size:
                            x.flat[n % x.size] += 1
        if mode != 'fresh':
            self.pool = pool
        if any(isinstance(x, Broken) for x in pool.values()):
            return
        if scn['life'] in ('abort', 'pair'):
            self.simulated(scn, n, pool, ops)
            return
        for op in ops:
            if scn['life'] == 'kernel':
                boot.kernels.arm(scn['at'], self.failure(scn['kind']))
            self.calls += 1
            try:
                recv, args, kw = catalog.prepare(op, pool)
                catalog.call(op, recv, args, kw)
            except BaseException:
                self.raised += 1
            finally:
                self.fired += len(boot.kernels.injected)
                boot.kernels.injected = []
                boot.kernels.disarm()
                recv = args = kw = None

    @staticmethod
    def failure(kind):
        import numpy.linalg

        make = {'LinAlgError': numpy.linalg.LinAlgError, 'MemoryError': MemoryError, 'ValueError': ValueError}[kind]
        return lambda name: make(f'injected failure of {name}')

    def simulated(self, scn, n, pool, ops):
        inner = {'pool': {}, 'seed': n, 'policy': scn['policy'], 'keep': False, 'faults': [], 'threads': [ops]}
        if scn['life'] == 'abort':
            inner['faults'] = [{'t': 0, 'op': [0], 'at': scn['at'], 'kind': scn['kind']}]
        else:
            inner['threads'] = [ops, ops[::-1]]
        world = scenario.World(inner)
        world.pool = pool
        world.prepare_ops()
        sim = world.run(step_cap=2_000_000)
        self.calls += len(world.results)
        self.raised += sum(1 for o in world.results.values() if o[0] == 'raise')
        self.fired += len(sim.fired)
        self.steps += sim.steps
        sim.fired.clear()

    # -- verdict ------------------------------------------------------------------------------------------------

    def judge(self, ctx, scn, result):
        out = []
        for name, rate in sorted(result['growing'].items()):
            what = [catalog.describe(op) for op in scn['ops']]
            if scn['life'] == 'abort':
                what[0] += f' aborted at event {scn["at"]} ({scn["kind"]})'
            how = {'pair': ' by two threads', 'kernel': f' with a failing kernel ({scn.get("kind")})'}.get(scn['life'], '')
            where = f', in {", ".join(result["containers"][:4])}' if result['containers'] else ''
            out.append((
                f'grows: {name}',
                f'{" then ".join(what)}{how}, on {scn["operands"]} operands: {name} still grow by about {max(1, round(rate))} per '
                f'round after '
                f'{result["rounds"]} rounds{where}',
            ))
        return out

    def nontrivial(self, scn, result):
        return result['calls'] > 0

    def measures(self, scn, result):
        faults = {}
        if result['fired']:
            faults[scn['kind'] if scn['life'] == 'abort' else f'kernel {scn["kind"]}'] = result['fired']
        return {
            'rounds': result['rounds'],
            'operations': result['calls'],
            'operations_raising': result['raised'],
            'steps': result['steps'],
            'faults_injected': faults,
            'lives': {f'{scn["life"]}, {scn["operands"]} operands': 1},
            'lives_prolonged': 1 if result['rounds'] > 80 else 0,
        }

    def state_key(self, scn, result):
        labels = tuple((op['f'], op['n'], op.get('c')) for op in scn['ops'])
        return hash((labels, scn['life'], scn['operands'], scn.get('at'), scn.get('kind'))) if 'rounds' in result else None

    def candidates(self, scn):
        if len(scn['ops']) > 1:
            for i in range(len(scn['ops'])):
                yield dict(scn, ops=scn['ops'][:i] + scn['ops'][i + 1:])
        if scn['life'] != 'plain':
            yield dict({k: v for k, v in scn.items() if k not in ('at', 'kind')}, life='plain')
        if scn['life'] == 'abort' and scn['at'] > 1:
            yield dict(scn, at=1)
        if scn['operands'] != 'fresh':
            yield dict(scn, operands='fresh')
        for name in sorted(scn['pool']):
            pool = {k: v for k, v in scn['pool'].items() if k != name}
            if name not in str([op for op in scn['ops']]):
                yield dict(copy.copy(scn), pool=pool)
