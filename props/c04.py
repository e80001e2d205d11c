"""C04: a failed allocation or kernel surfaces as an error, never as an answer."""

import json
import os
import sys

import numpy as np

from sim import boot, catalog, engine, scenario
from sim.driver import Property
from sim.engine import Sim
from sim.values import build, enc, names_in, same, show

from .common import CONFIGS, draw_ops, leading

KERNEL_ERRORS = {
    'LinAlgError': lambda name: np.linalg.LinAlgError(f'injected: {name} did not converge'),
    'MemoryError': lambda name: MemoryError(f'injected: {name} is out of workspace'),
    'FloatingPointError': lambda name: FloatingPointError(f'injected: {name}'),
    'RuntimeError': lambda name: RuntimeError(f'injected: {name} failed'),
}


def probe(op, pool_specs, config):
    """Resources a call uses: allocations, kernel calls, stack depth, events (measured in a child)."""
    def body():
        sys.stderr = open(os.devnull, 'w')
        scenario.Configured.process(config)
        scenario.Configured.thread(config)
        pool = {n: build(s) for n, s in pool_specs.items()}
        recv, args, kw = catalog.prepare(op, pool)
        old = boot.allocator.install()
        boot.allocator.arm(0)
        boot.kernels.arm(0, None)
        try:
            catalog.call(op, recv, args, kw)
        except BaseException:
            pass
        allocations = boot.allocator.requests
        calls = boot.kernels.calls
        boot.allocator.restore(old)
        return {'allocations': allocations, 'kernels': calls}

    return scenario.forked(body)


class Prop(Property):
    id = 'C04'
    level = 'fault_enumeration'
    focus_families = ('query', 'new', 'py', 'np', 'plotter')
    guarded = True
    runs = {'quick': 14400, 'thorough': 100_000}
    budget = {'quick': 160, 'thorough': 1800}
    real = 'skspatial, NumPy, SciPy, CPython; allocation failures and stack exhaustion are those of NumPy and CPython'
    stubs = 'NumPy data allocator (NEP 49, k-th request fails), entry points of numpy.linalg and scipy.optimize (k-th call fails)'
    rule = (
        'A run performs one public operation again and again on the same operands with one failure per call: the k-th '
        'NumPy data allocation (once, or from then on), the k-th kernel call, exhaustion of the stack d frames deeper, '
        'a MemoryError or RecursionError at a seeded call or function entry of library code. The outcome must be that '
        'error or the fault-free outcome, type included. Non-trivial: at least one failure was really injected.'
    )
    assumptions = ('Only failures of the mechanisms listed are injected; Python object allocations fail at library calls only.',)

    def setup(self):
        boot.allocator.load()

    def generate(self, ctx, rng, index, tier):
        gen = catalog.Gen(rng, dim=rng.choice((2, 2, 3, 3, 3, 3, 3, 1, 4)), n_pool=rng.randint(0, 2), shared=0.3)
        families = ('query', 'new', 'py', 'np', 'plotter')
        chosen = sorted({id(t): t for t in catalog.usable(gen.dim, families) if t.family in ('query', 'new', 'plotter')
                         or rng.random() < 0.2}.values(), key=lambda t: t.label)
        op = gen.op(leading(ctx, rng, gen, families, chosen[index % len(chosen)], 0.3, 0.15))
        config = rng.choice(CONFIGS) if rng.random() < 0.2 else None
        key = json.dumps([op, gen.pool, config], sort_keys=True)
        use = probe(op, {n: gen.pool[n] for n in names_in(op)}, config)
        events, total = ctx.profiles.get(op, gen.pool, config)
        trials = []
        n = use['allocations']
        if n and '">' not in key:  # NumPy's sort of foreign byte orders ignores a failed allocation
            ks = list(range(1, n + 1)) if n <= 12 else sorted({1, n, *(rng.randint(1, n) for _ in range(10))})
            for k in ks:
                trials.append({'mode': 'alloc', 'k': k, 'sticky': rng.random() < 0.3})
        n = use['kernels']
        for k in range(1, n + 1) if n <= 6 else sorted({1, n, *(rng.randint(1, n) for _ in range(4))}):
            for name in rng.sample(sorted(KERNEL_ERRORS), 2) if rng.random() < 0.5 else ['LinAlgError']:
                trials.append({'mode': 'kernel', 'k': k, 'error': name})
        for d in rng.sample(range(1, 26), 8):
            trials.append({'mode': 'stack', 'd': d})
        sites = {}
        for i, (k, number, x, callee) in enumerate(events, 1):
            if k in engine.SYNC_KINDS and callee not in engine.PROTECTED:
                sites.setdefault((k, number, x), []).append(i)
        picked = rng.sample(sorted(sites), min(len(sites), 14))
        if ctx.focus is not None and ctx.focus.guards:
            # Some more inside each statement that deals with errors.
            for numbers in ctx.focus.guarded(events).values():
                inside = sorted({(k, number, x) for k, number, x, _ in (events[i - 1] for i in numbers)} & set(sites))
                picked += rng.sample(inside, min(len(inside), 3))
        for site in picked:
            trials.append({'mode': 'event', 'at': rng.choice(sites[site][:40]),
                           'kind': rng.choice(('MemoryError', 'MemoryError', 'RecursionError'))})
        rng.shuffle(trials)
        del key
        return {'pool': {n: gen.pool[n] for n in sorted(names_in(op))}, 'op': op, 'config': config, 'trials': trials}

    def execute(self, scn):
        sys.stderr = open(os.devnull, 'w')
        scenario.Configured.process(scn.get('config'))
        scenario.Configured.thread(scn.get('config'))
        pool = {n: build(s) for n, s in scn['pool'].items()}
        op = scn['op']
        recv, args, kw = catalog.prepare(op, pool)
        out = []
        for trial in scn['trials']:
            mode = trial['mode']
            injected = None
            fired = 0
            error = value = None
            if mode == 'alloc':
                old = boot.allocator.install()
                boot.allocator.arm(trial['k'], trial['sticky'])
                try:
                    value = catalog.call(op, recv, args, kw)
                except BaseException as e:
                    error = e
                boot.allocator.disarm()
                fired = boot.allocator.fired
                boot.allocator.restore(old)
                expected = MemoryError
            elif mode == 'kernel':
                boot.kernels.arm(trial['k'], KERNEL_ERRORS[trial['error']])
                try:
                    value = catalog.call(op, recv, args, kw)
                except BaseException as e:
                    error = e
                boot.kernels.disarm()
                injected = boot.kernels.injected
                fired = len(injected)
                expected = type(injected[0]) if injected else None
            elif mode == 'stack':
                engine.stop_monitoring()
                limit = sys.getrecursionlimit()
                depth = len(_frames())
                try:
                    sys.setrecursionlimit(depth + 1 + trial['d'])
                    try:
                        value = catalog.call(op, recv, args, kw)
                    except BaseException as e:
                        error = e
                finally:
                    sys.setrecursionlimit(limit)
                expected = RecursionError
                fired = 1 if isinstance(error, RecursionError) else 0
            else:
                sim = Sim(faults=[{'t': 0, 'op': [0], 'at': trial['at'], 'kind': trial['kind']}], step_cap=6_000_000)
                box = {}

                def go(t):
                    sim.enter(t, (0,))
                    try:
                        box['value'] = catalog.call(op, recv, args, kw)
                    except BaseException as e:
                        box['error'] = e
                    sim.leave(t)

                sim.run_inline(0, go)
                value, error = box.get('value'), box.get('error')
                fired = len(sim.fired)
                injected = [x for _, x, _, _ in sim.fired]
                expected = type(injected[0]) if injected else None
            outcome = ('raise', enc(error)) if error is not None else ('ret', enc(value))
            out.append({
                'outcome': outcome,
                'fired': fired,
                'surfaced': bool(error is not None and expected is not None and _surfaced(error, expected)),
            })
            value = error = None
        return {'trials': out}

    def judge(self, ctx, scn, result):
        out = []
        expected = None
        for trial, got in zip(scn['trials'], result['trials']):
            if got['surfaced']:
                continue
            if expected is None:
                expected = ctx.refs.get(scn['op'], scn['pool'], scn.get('config'))
            if got['outcome'] == expected or same(got['outcome'], expected):
                continue
            out.append((
                f'{trial["mode"]}-failure-masked',
                f'{catalog.describe(scn["op"])} under {json.dumps(trial)} (fired {got["fired"]}): {show(got["outcome"])}; '
                f'fault-free: {show(expected)}',
            ))
        return out

    def crashed(self, ctx, scn, error):
        # NumPy itself dereferences the null pointer of some failed allocations (rounding integers to tens, sorting):
        # pure Python code cannot cause that. Deaths with any other failure count.
        trials = [t for t in scn['trials'] if t['mode'] != 'alloc']
        if len(trials) == len(scn['trials']):
            return super().crashed(ctx, scn, error)
        rest = dict(scn, trials=trials)
        try:
            return self.judge(ctx, rest, scenario.forked(lambda: self.execute(rest), self.child_timeout))
        except scenario.ChildCrash as again:
            return super().crashed(ctx, scn, again)

    def nontrivial(self, scn, result):
        return any(t['fired'] for t in result['trials'])

    def measures(self, scn, result):
        fired = {}
        surfaced = 0
        absorbed = 0
        for trial, got in zip(scn['trials'], result['trials']):
            if got['fired']:
                kind = trial['mode'] + (':' + (trial.get('error') or trial.get('kind') or '') if trial['mode'] in ('kernel', 'event') else '')
                fired[kind] = fired.get(kind, 0) + 1
                if got['surfaced']:
                    surfaced += 1
                else:
                    absorbed += 1
        return {
            'steps': len(scn['trials']),
            'trials': len(scn['trials']),
            'faults_injected': fired,
            'failures_surfaced': surfaced,
            'failures_absorbed_with_the_right_answer': absorbed,
        }

    def state_key(self, scn, result):
        return repr([(t['fired'], t['outcome'][0], t['outcome'][1][:2]) for t in result['trials']]) + scn['op']['n']

    def candidates(self, scn):
        trials = scn['trials']
        n = len(trials)
        size = max(1, n // 2)
        while size >= 1:
            for i in range(0, n, size):
                if n > size:
                    yield dict(scn, trials=trials[:i] + trials[i + size:])
            size //= 2
        if scn.get('config'):
            yield dict(scn, config=None)


def _surfaced(error, expected):
    """The error itself; or an error that code outside the library raised because of it."""
    if isinstance(error, expected):
        return True
    last = error.__traceback__
    while last is not None and last.tb_next is not None:
        last = last.tb_next
    if last is None or f'{os.sep}skspatial{os.sep}' in last.tb_frame.f_code.co_filename:
        return False
    seen = 0
    cause = error
    while cause is not None and seen < 10:
        cause = cause.__cause__ or cause.__context__
        seen += 1
        if isinstance(cause, expected):
            return True
    return False


def _frames():
    out = []
    frame = sys._getframe(1)
    while frame is not None:
        out.append(frame)
        frame = frame.f_back
    return out
