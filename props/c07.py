"""C07: answers depend only on current operand values, never on history."""

import copy
import gc
import os

import sys

import numpy as np

from sim import boot, catalog, scenario
from sim.driver import Property
from sim.values import Broken, arrays_in, build, enc, names_in, same, show, write, write_list

from .common import CONFIGS, draw_dim, draw_hot, draw_ops, hot_templates, leading

# Which constructor argument an attribute holds.
SLOTS = {
    'Line': {'point': 0, 'direction': 1, 'vector': 1},
    'Plane': {'point': 0, 'normal': 1, 'vector': 1},
    'LineSegment': {'point_a': 0, 'point_b': 1},
    'Circle': {'point': 0},
    'Sphere': {'point': 0},
    'Cylinder': {'point': 0, 'vector': 1},
    'Triangle': {'point_a': 0, 'point_b': 1, 'point_c': 2},
}
SCALARS = {'Circle': {'radius': 1}, 'Sphere': {'radius': 1}, 'Cylinder': {'radius': 2}}
# Calls that hand out arrays of their operands: writing to those is writing to the operand.
HANDING_OUT = {
    ('get', 'vector'), ('new', None), ('cm', 'from_points'), ('m', 'altitude'), ('multi', 'altitude'), ('m', 'line'),
    ('m', 'point'), ('py', None), ('np', None), ('get', 'dimension'),
}


def hands_out(op):
    return (op['f'], op['n']) in HANDING_OUT or (op['f'], None) in HANDING_OUT


def target(specs, step):
    """The array specification a mutation writes to."""
    spec = specs[step['n']]
    if spec['k'] == 'obj':
        spec = spec['a'][SLOTS[spec['c']][step['attr']]]
    return spec


def evolve(specs, step):
    """The specifications after a step (a new mapping if it changes them)."""
    if step['do'] == 'write':
        specs = dict(specs)
        specs[step['n']] = copy.deepcopy(specs[step['n']])
        spec = target(specs, step)
        if specs[step['n']]['k'] == 'list':
            write_list(spec['v'], step)
            return specs
        array = np.array(spec['v'], dtype=spec.get('dt'))
        write(array, step)
        spec['v'] = array.tolist()
        if spec['k'] != 'arr':
            spec.update(k='arr', c='ndarray', dt=array.dtype.str.lstrip('<|'))
        return specs
    if step['do'] == 'scalar':
        specs = dict(specs)
        specs[step['n']] = copy.deepcopy(specs[step['n']])
        spec = specs[step['n']]
        if step['attr'] == 'label':
            spec['x'] = {'label': step['v']}
        else:
            spec['a'][SCALARS[spec['c']][step['attr']]] = {'k': 'num', 'v': step['v']}
        return specs
    return specs


def valid(specs, name):
    """Whether the object could be built with these values."""
    spec = specs[name]

    def values(s):
        return np.array(s['v'], dtype=float)

    if spec['k'] == 'obj':
        arrays = [values(a) for a in spec['a'] if 'v' in a and a['k'] != 'num']
        if not all(np.isfinite(a).all() for a in arrays):
            return False
        c = spec['c']
        if c in ('Line', 'Plane', 'Cylinder'):
            return np.abs(arrays[1]).max() > 1e-3
        if c == 'LineSegment':
            return np.abs(arrays[1] - arrays[0]).max() > 1e-3
        if c == 'Triangle':
            d = np.array([arrays[1] - arrays[0], arrays[2] - arrays[0]])
            s = np.linalg.svd(d, compute_uv=False)
            return s[-1] > 1e-3 * max(1.0, s[0])
        return True
    if 'v' not in spec:
        return True
    a = values(spec)
    return bool(np.isfinite(a).all() and np.abs(a).max() < 1e9)


class Prop(Property):
    id = 'C07'
    labels = False  # attributes of the caller's own
    focus_families = ('query', 'new', 'py', 'plotter', 'np')
    runs = {'quick': 9600, 'thorough': 80_000}
    budget = {'quick': 160, 'thorough': 1800}
    stubs = 'clocks seen by skspatial code (the simulated clock jumps between calls)'
    rule = (
        'A run is a history of 10-120 steps on one thread: public operations (concentrated on few of them, with equal, '
        'nearly equal and equal-but-differently-typed operands, repeated and interleaved), in-place changes of operands, '
        'changes of arrays returned earlier, temporary objects created and dropped, clock jumps of up to days. Every '
        'outcome is compared with the same operation alone in a pristine process on operands built from the current '
        'values. Non-trivial: at least one operation after an in-place change or a repetition.'
    )

    def generate(self, ctx, rng, index, tier):
        families = ('query', 'new', 'py', 'plotter', 'np') if rng.random() < 0.3 else ('query', 'new')
        gen = catalog.Gen(rng, dim=draw_dim(ctx, rng, (2, 2, 3, 3, 3, 3, 3, 1, 4), families), n_pool=rng.randint(1, 4),
                          shared=rng.choice((0.95, 0.8, 0.5)))
        chosen = sorted({id(t): t for t in catalog.usable(gen.dim, families)}.values(), key=lambda t: t.label)
        hot = [leading(ctx, rng, gen, families, chosen[index % len(chosen)])]
        if hot_templates(ctx, gen.dim, families) and rng.random() < 0.5:
            hot.append(rng.choice(hot_templates(ctx, gen.dim, families)))
        hot += draw_hot(gen, rng, families, rng.choice((0, 1, 3)))
        base = draw_ops(gen, rng, rng.choice((2, 3, 4, 6)), hot, 0.85, 0.35, families)
        config = rng.choice(CONFIGS) if rng.random() < 0.2 else None
        for spec in gen.pool.values():
            _unlock(spec)
        steps = []
        specs = {n: s for n, s in gen.pool.items()}
        n_versions = rng.choice((1, 2, 3, 4))
        flood = rng.random() < (0.3 if ctx.focus else 0.15)
        for version in range(n_versions):
            for _ in range(rng.choice((2, 4, 8))):
                op = rng.choice(base)
                if rng.random() < 0.25:
                    op = gen.twin(op)
                    for spec in [op.get('r')] + op['a']:
                        if isinstance(spec, dict):
                            _unlock(spec)
                    if rng.random() < 0.5:
                        base.append(op)
                steps.append({'do': 'op', 'op': copy.deepcopy(op)})
                roll = rng.random()
                if roll < 0.25:
                    steps.append({'do': 'scribble', 'v': rng.choice((0, 1, 7, -3)), 'of': len(steps) - 1})
                elif roll < 0.3:
                    steps.append({'do': 'jump', 's': rng.choice((0.01, 1.5, 61, 3700, 90_000))})
                elif roll < 0.34:
                    steps.append({'do': 'gc'})
                elif roll < 0.38:
                    steps.append({'do': 'drop'})
            if flood:
                # Many calls of the same operation on ever new values: fills and overflows whatever remembers.
                op = rng.choice(base)
                for _ in range(rng.choice((20, 70, 140) if op['n'] == 'best_fit' or not ctx.focus else (9, 20, 40, 70, 140, 300))):
                    twin = gen.twin(op)
                    steps.append({'do': 'noise', 'op': gen.twin(twin) if rng.random() < 0.5 else twin})
            if version < n_versions - 1:
                for _ in range(rng.choice((1, 1, 2, 3))):
                    step = self.mutation(rng, specs, base)
                    if step is None:
                        continue
                    after = evolve(specs, step)
                    if valid(after, step['n']):
                        specs = after
                        steps.append(step)
                        # Straight after the change, the queries made before it.
                        users = [op for op in base if step['n'] in names_in(op)]
                        for op in rng.sample(users, min(len(users), 3)):
                            steps.append({'do': 'op', 'op': copy.deepcopy(op)})
        return {'pool': gen.pool, 'steps': steps, 'config': config}

    def mutation(self, rng, specs, base):
        used = sorted(n for n in {n for op in base for n in names_in(op)} if n in specs)
        names = used if used and rng.random() < 0.9 else sorted(specs)
        if not names:
            return None
        name = rng.choice(names)
        spec = specs[name]
        step = {'do': 'write', 'n': name}
        if spec['k'] == 'obj':
            if self.labels and rng.random() < 0.15:
                return {'do': 'scalar', 'n': name, 'attr': 'label', 'v': rng.randint(1, 9)}
            if spec['c'] in SCALARS and rng.random() < 0.3:
                return {'do': 'scalar', 'n': name, 'attr': 'radius', 'v': rng.choice((1, 2, 0.5, 4, 1.5, 3))}
            step['attr'] = rng.choice(sorted(SLOTS[spec['c']]))
            spec = spec['a'][SLOTS[spec['c']][step['attr']]]
        elif spec['k'] not in ('arr', 'list'):
            return None
        array = np.array(spec['v'], dtype=spec.get('dt'))
        how = rng.choice(('set', 'set', 'set', 'iadd', 'imul', 'out', 'flip', 'copyto', 'fill_row', 'put'))
        if spec['k'] == 'list' and specs[name]['k'] == 'list':
            how = 'set'
        step['how'] = how
        new = rng.choice((0, 1, -1, 2, 5, -4, 3))
        if how == 'set':
            i = [rng.randrange(s) for s in array.shape]
            step['i'] = i
            step['v'] = new
        elif how == 'put':
            step['flat'] = rng.randrange(array.size)
            step['v'] = new
        elif how in ('iadd', 'out', 'imul'):
            step['v'] = rng.choice((1, 2, -1, 3))
        elif how in ('copyto', 'fill_row'):
            step['v'] = (np.array([rng.randint(-4, 4) for _ in range(array.size)]).reshape(array.shape)).tolist()
        return step

    # -- execution ----------------------------------------------------------------------------------------------

    def execute(self, scn):
        sys.stderr = open(os.devnull, 'w')
        scenario.Configured.process(scn.get('config'))
        scenario.Configured.thread(scn.get('config'))
        pool = {n: build(s) for n, s in scn['pool'].items()}
        broken = sorted(n for n, x in pool.items() if isinstance(x, Broken))
        outcomes = {}
        kept = {}
        written = scribbled = 0
        for i, step in enumerate(scn['steps']):
            do = step['do']
            if do in ('op', 'noise'):
                op = step['op']
                try:
                    recv, args, kw = catalog.prepare(op, pool)
                    value = catalog.call(op, recv, args, kw)
                except BaseException as error:
                    outcome = ('raise', enc(error))
                    value = None
                else:
                    outcome = ('ret', enc(value))
                if do == 'op':
                    outcomes[i] = outcome
                    kept[i] = (value, arrays_in([recv, args, kw, list(pool.values())]) if hands_out(op) else [])
                recv = args = kw = value = None
            elif do == 'write':
                obj = pool[step['n']]
                if isinstance(obj, Broken):
                    continue
                if 'attr' in step:
                    obj = getattr(obj, step['attr'])
                if isinstance(obj, list):
                    write_list(obj, step)
                else:
                    write(obj, step)
                written += 1
            elif do == 'scalar':
                try:
                    setattr(pool[step['n']], step['attr'], step['v'])
                except (AttributeError, TypeError):
                    return {'outcomes': outcomes, 'stopped': i, 'written': written, 'scribbled': scribbled, 'broken': broken}
            elif do == 'scribble':
                value, operands = kept.get(step['of'], (None, []))
                for array in arrays_in(value):
                    if array.flags.writeable and array.dtype.kind in 'iuf' and not any(
                        np.shares_memory(array, other) for other in operands
                    ):
                        array[...] = step['v']
                        scribbled += 1
            elif do == 'jump':
                boot.advance(step['s'])
            elif do == 'drop':
                kept.clear()
            elif do == 'gc':
                gc.collect()
        return {'outcomes': outcomes, 'written': written, 'scribbled': scribbled, 'broken': broken}

    def judge(self, ctx, scn, result):
        out = []
        specs = scn['pool']
        for i, step in enumerate(scn['steps']):
            if result.get('stopped') == i:
                break
            specs = evolve(specs, step) if step['do'] in ('write', 'scalar') else specs
            if step['do'] != 'op' or i not in result['outcomes']:
                continue
            op = step['op']
            if set(result['broken']) & names_in(op):
                continue
            if any(not valid(specs, n) and scn['pool'][n] is not specs[n] for n in names_in(op)):
                continue
            expected = ctx.refs.get(op, specs, scn.get('config'))
            got = result['outcomes'][i]
            if got != expected and not same(got, expected):
                out.append((
                    'history-dependent',
                    f'step {i} {catalog.describe(op)}: {show(got)}; on fresh operands with the same values: {show(expected)}',
                ))
        return out

    def nontrivial(self, scn, result):
        return result['written'] > 0 or len(result['outcomes']) > 1

    def measures(self, scn, result):
        kinds = {}
        for s in scn['steps']:
            kinds[s['do']] = kinds.get(s['do'], 0) + 1
        return {
            'steps': len(scn['steps']),
            'operations': len(result['outcomes']),
            'history_steps': kinds,
            'arrays_scribbled': result['scribbled'],
            'clock_jumps_s': sum(s['s'] for s in scn['steps'] if s['do'] == 'jump'),
        }

    def state_key(self, scn, result):
        return hash(tuple(sorted((k, repr(v)) for k, v in result['outcomes'].items()))) if 'outcomes' in result else None

    def candidates(self, scn):
        steps = scn['steps']
        n = len(steps)
        size = max(1, n // 2)
        while size >= 1:
            for i in range(0, n, size):
                j = min(n, i + size)
                new = []
                for k, s in enumerate(steps):
                    if i <= k < j:
                        continue
                    if s['do'] == 'scribble':
                        if i <= s['of'] < j:
                            continue
                        if s['of'] >= j:
                            s = dict(s, of=s['of'] - (j - i))
                    new.append(s)
                yield dict(scn, steps=new)
            size //= 2
        used = names_in([s.get('op') for s in steps]) | {s['n'] for s in steps if 'n' in s and s['do'] in ('write', 'scalar')}
        if set(scn['pool']) - used:
            yield dict(scn, pool={k: v for k, v in scn['pool'].items() if k in used})
        if scn.get('config'):
            yield dict(scn, config=None)


def _unlock(spec, layouts=('ro',)):
    if isinstance(spec, dict):
        if spec.get('lay') in layouts:
            del spec['lay']
        for v in spec.values():
            if isinstance(v, (dict, list)):
                _unlock(v, layouts)
    elif isinstance(spec, list):
        for v in spec:
            if isinstance(v, (dict, list)):
                _unlock(v, layouts)
