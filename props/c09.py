"""C09: an array object's dimension always matches its current shape."""

import copy
import gc
import os
import pickle
import sys

import numpy as np

from sim import boot
from sim.driver import Property, thread_candidates
from sim.engine import Sim
from sim.values import enc, same, show

from .common import ABORT_KINDS, draw_policy

SUB = {}


def make_subclasses():
    import skspatial.objects as objects

    for base in ('Point', 'Vector', 'Points'):
        name = 'My' + base
        cls = type(name, (getattr(objects, base),), {'__module__': __name__})
        SUB[name] = cls
        globals()[name] = cls


def class_of(name):
    import skspatial.objects as objects

    return SUB[name] if name in SUB else getattr(objects, name)


def _set(x, name, value):
    setattr(x, name, value)
    return x


def _out(f, x, *args):
    f(x, *args, out=x)
    return x


def _do(f, x):
    f()
    return x


def _on_copy(x, f):
    """Changes that free the memory under other views happen to an object that has no views."""
    c = x.copy()
    f(c)
    return c


def _dtype(x, d):
    x.dtype = d
    return x


def _odd(n):
    return [i % n for i in (0, 2, 1, 3)] if n else []


# Operations: name -> f(x, y, p) with operands x, y and a small integer p.
OPS = {
    # Views and slices.
    'head': lambda x, y, p: x[: p % 4],
    'tail': lambda x, y, p: x[p % 3:],
    'step': lambda x, y, p: x[:: (p % 3) + 1],
    'back': lambda x, y, p: x[::-1],
    'item': lambda x, y, p: x[p % max(1, len(x))],
    'column': lambda x, y, p: x[..., p % x.shape[-1]],
    'columns': lambda x, y, p: x[..., : p % 4],
    'columns_from': lambda x, y, p: x[..., p % 3:],
    'block': lambda x, y, p: x[p % 2:, : p % 4],
    'none': lambda x, y, p: x[None],
    'none_last': lambda x, y, p: x[..., None],
    'ellipsis': lambda x, y, p: x[...],
    'fancy': lambda x, y, p: x[_odd(len(x))],
    'mask': lambda x, y, p: x[np.asarray(x) > p - 3],
    'rows': lambda x, y, p: x[[p % len(x)]],
    'view': lambda x, y, p: x.view(),
    'view_point': lambda x, y, p: x.view(class_of('Point')),
    'view_vector': lambda x, y, p: x.view(class_of('Vector')),
    'view_points': lambda x, y, p: x.view(class_of('Points')),
    'view_sub': lambda x, y, p: x.view(SUB[sorted(SUB)[p % 3]]),
    'view_half': lambda x, y, p: x.view('i4'),
    'view_double': lambda x, y, p: np.ascontiguousarray(x).view(type(x)).view('c16'),
    'as_subclass': lambda x, y, p: np.asarray(x).view(type(y)),
    'ravel': lambda x, y, p: x.ravel(),
    'flatten': lambda x, y, p: x.flatten(),
    'reshape_row': lambda x, y, p: x.reshape(1, -1),
    'reshape_col': lambda x, y, p: x.reshape(-1, 1),
    'reshape_2': lambda x, y, p: x.reshape(-1, 2),
    'reshape_3': lambda x, y, p: x.reshape(3, -1),
    'reshape_flat': lambda x, y, p: x.reshape(-1),
    'reshape_3d': lambda x, y, p: x.reshape(1, -1, 1),
    'T': lambda x, y, p: x.T,
    'transpose': lambda x, y, p: np.transpose(x),
    'swapaxes': lambda x, y, p: x.swapaxes(0, -1),
    'squeeze': lambda x, y, p: x.squeeze(),
    'expand': lambda x, y, p: np.expand_dims(x, p % 2),
    'atleast_2d': lambda x, y, p: np.atleast_2d(x),
    'atleast_3d': lambda x, y, p: np.atleast_3d(x),
    'moveaxis': lambda x, y, p: np.moveaxis(x, 0, -1),
    'real': lambda x, y, p: x.real,
    'imag': lambda x, y, p: x.imag,
    'diagonal': lambda x, y, p: x.diagonal(),
    'broadcast': lambda x, y, p: np.broadcast_to(x, (2, *x.shape), subok=True),
    'broadcast_arrays': lambda x, y, p: list(np.broadcast_arrays(x, y, subok=True)),
    'window': lambda x, y, p: np.lib.stride_tricks.sliding_window_view(x, 1 + p % 2, axis=0, subok=True),
    'strided': lambda x, y, p: np.lib.stride_tricks.as_strided(x, (1 + p % x.shape[0],) + x.shape[1:], x.strides, subok=True),
    'split': lambda x, y, p: np.array_split(x, 2),
    'split_last': lambda x, y, p: np.array_split(x, 2, axis=-1),
    'flat': lambda x, y, p: x.flat[: p + 1],
    # In place.
    'shape_flat': lambda x, y, p: _set(x, 'shape', (x.size,)),
    'shape_row': lambda x, y, p: _set(x, 'shape', (1, x.size)),
    'shape_col': lambda x, y, p: _set(x, 'shape', (x.size, 1)),
    'shape_2': lambda x, y, p: _set(x, 'shape', (x.size // 2, 2)),
    'shape_3': lambda x, y, p: _set(x, 'shape', (3, -1)),
    'shape_same': lambda x, y, p: _set(x, 'shape', y.shape),
    'resize': lambda x, y, p: _on_copy(x, lambda c: c.resize((1 + p,), refcheck=False)),
    'resize_2d': lambda x, y, p: _on_copy(x, lambda c: c.resize((1 + p % 3, 2 + p % 2), refcheck=False)),
    'resize_grow': lambda x, y, p: _on_copy(x, lambda c: c.resize((x.shape[0] + 1, *x.shape[1:]), refcheck=False)),
    'dtype_half': lambda x, y, p: _dtype(x, 'i4'),
    'dtype_byte': lambda x, y, p: _dtype(x, 'u2'),
    'dtype_whole': lambda x, y, p: _dtype(x, 'f8'),
    'strides': lambda x, y, p: _set(x, 'strides', x.strides[::-1]),
    'setstate': lambda x, y, p: _on_copy(x, lambda c: c.__setstate__(y.__reduce__()[2])),
    'setstate_plain': lambda x, y, p: _on_copy(x, lambda c: c.__setstate__(np.array(y).__reduce__()[2])),
    'iadd': lambda x, y, p: x.__iadd__(np.array(p).astype(x.dtype)),
    'imul_out': lambda x, y, p: _out(np.multiply, x, np.array(p).astype(x.dtype)),
    'negative_out': lambda x, y, p: _out(np.negative, x),
    'add_out': lambda x, y, p: np.add(x, x, out=y),
    'add_out_new': lambda x, y, p: np.add(x, x, out=np.empty(x.shape, x.dtype).view(type(y))),
    'sum_out': lambda x, y, p: np.sum(x, axis=0, out=np.empty(x.shape[1:], x.dtype).view(type(x))),
    'fill': lambda x, y, p: _do(lambda: x.fill(p), x),
    'sort': lambda x, y, p: _do(lambda: x.sort(), x),
    'setitem': lambda x, y, p: _do(lambda: x.__setitem__(0, p), x),
    'swap_bytes': lambda x, y, p: x.byteswap(False),
    'flags': lambda x, y, p: _do(lambda: x.setflags(write=bool(p % 2)), x),
    # New arrays.
    'copy': lambda x, y, p: x.copy(),
    'np_copy': lambda x, y, p: np.copy(x, subok=True),
    'np_array': lambda x, y, p: np.array(x, subok=True),
    'np_array_ndmin': lambda x, y, p: np.array(x, subok=True, ndmin=2),
    'asanyarray': lambda x, y, p: np.asanyarray(x),
    'asfortran': lambda x, y, p: np.require(x, requirements='F'),
    'copy_copy': lambda x, y, p: copy.copy(x),
    'deepcopy': lambda x, y, p: copy.deepcopy(x),
    'deepcopy_list': lambda x, y, p: copy.deepcopy([x, y, x]),
    'pickle': lambda x, y, p: pickle.loads(pickle.dumps(x, p % 6)),
    'pickle_list': lambda x, y, p: pickle.loads(pickle.dumps([x, y, x.T], p % 6)),
    'astype': lambda x, y, p: x.astype(('f4', 'i8', 'f8', 'i4')[p % 4]),
    'empty_like': lambda x, y, p: np.zeros_like(x),
    'ones_like_shape': lambda x, y, p: np.ones_like(x, shape=(2, 1 + p % 3)),
    'full_like_1d': lambda x, y, p: np.full_like(x, 2, shape=(1 + p,)),
    'new': lambda x, y, p: type(x)(np.array(x)),
    'new_from': lambda x, y, p: type(x)(y),
    'new_list': lambda x, y, p: type(x)(x.tolist()),
    'ndarray_new': lambda x, y, p: np.ndarray.__new__(type(x), (1 + p % 3, 2)) * 0,
    'vstack': lambda x, y, p: np.vstack([x, y]).view(type(x)),
    'stack': lambda x, y, p: type(x)(np.stack([x, x])) if x.ndim == 1 else np.stack([x, x]).view(type(x)),
    'take': lambda x, y, p: x.take([0, 0]),
    'take_axis': lambda x, y, p: x.take([0, 0, 0], axis=-1),
    'compress': lambda x, y, p: x.compress([True, False, True][: len(x)], axis=0),
    'repeat': lambda x, y, p: x.repeat(2),
    'repeat_axis': lambda x, y, p: x.repeat(2, axis=-1),
    'tile': lambda x, y, p: np.tile(x, 2),
    'pad': lambda x, y, p: np.pad(x, 1),
    'append': lambda x, y, p: np.append(x, x).view(type(x)),
    'insert': lambda x, y, p: np.insert(x, 0, p),
    'delete': lambda x, y, p: np.delete(x, 0),
    'delete_col': lambda x, y, p: np.delete(x, 0, axis=-1),
    'np_resize': lambda x, y, p: np.resize(x, (2, 2)).view(type(x)),
    'roll': lambda x, y, p: np.roll(x, 1),
    'diff': lambda x, y, p: np.diff(x),
    'cumsum': lambda x, y, p: np.cumsum(x),
    'sum_axis': lambda x, y, p: x.sum(axis=p % x.ndim),
    'sum_keep': lambda x, y, p: x.sum(axis=-1, keepdims=True),
    'mean_axis': lambda x, y, p: x.mean(axis=0),
    'max_keep': lambda x, y, p: x.max(axis=0, keepdims=True),
    'np_sum': lambda x, y, p: np.sum(x),
    'reduce': lambda x, y, p: np.add.reduce(x, axis=0),
    'accumulate': lambda x, y, p: np.add.accumulate(x),
    'outer': lambda x, y, p: np.multiply.outer(x, y),
    'add': lambda x, y, p: x + y,
    'sub_scalar': lambda x, y, p: x - p,
    'add_row': lambda x, y, p: x + np.ones((3, 1), x.dtype),
    'mul_col': lambda x, y, p: x * np.ones((2, *x.shape), x.dtype),
    'divide_zero': lambda x, y, p: x / 0,
    'compare': lambda x, y, p: x == y,
    'divmod': lambda x, y, p: list(divmod(x, p + 1)),
    'modf': lambda x, y, p: list(np.modf(x)),
    'matmul': lambda x, y, p: x @ y.T,
    'dot': lambda x, y, p: np.dot(x, y),
    'abs': lambda x, y, p: abs(x),
    'rint': lambda x, y, p: np.rint(x),
    'where': lambda x, y, p: np.where(x > 0, x, y),
    'clip': lambda x, y, p: np.clip(x, -2, 2),
    'choose': lambda x, y, p: x.searchsorted(1),
    'unique': lambda x, y, p: np.unique(x),
    'unique_axis': lambda x, y, p: np.unique(x, axis=0),
    'gradient': lambda x, y, p: np.gradient(x),
    'linspace': lambda x, y, p: np.linspace(x, x + 1, 3),
    'einsum': lambda x, y, p: np.einsum('i,j->ij', x, y),
    'svd': lambda x, y, p: list(np.linalg.svd(x)),
    'svd_u': lambda x, y, p: np.linalg.svd(x)[0].view(type(x)),
    'solve': lambda x, y, p: np.linalg.pinv(x),
    'vectorize': lambda x, y, p: np.apply_along_axis(lambda v: v[:1], -1, x),
    'iterate': lambda x, y, p: list(x),
    'nditer': lambda x, y, p: [np.array(v, subok=True) for v in np.nditer(x)][:2],
    'flip': lambda x, y, p: np.flip(x),
    'rot90': lambda x, y, p: np.rot90(x),
    # Library methods.
    'set_dimension': lambda x, y, p: x.set_dimension(x.dimension + p % 3),
    'round': lambda x, y, p: x.round(p % 3),
    'to_array': lambda x, y, p: x.to_array().view(type(x)),
    'unit': lambda x, y, p: x.unit(),
    'project': lambda x, y, p: x.project_vector(y),
    'cross': lambda x, y, p: x.cross(y),
    'centroid': lambda x, y, p: x.centroid(),
    'mean_center': lambda x, y, p: x.mean_center(),
    'mean_center_both': lambda x, y, p: list(x.mean_center(return_centroid=True)),
    'normalize': lambda x, y, p: list(x.normalize_distance()) if isinstance(x.normalize_distance(), tuple)
    else x.normalize_distance(),
    'lib_unique': lambda x, y, p: x.unique(),
    'different_direction': lambda x, y, p: x.different_direction(),
    'from_points': lambda x, y, p: class_of('Vector').from_points(x, y),
    'plotter': lambda x, y, p: x.plotter() and None,
}
NAMES = sorted(OPS)
IN_PLACE = [n for n in NAMES if n.startswith(('shape', 'resize', 'dtype', 'strides', 'setstate'))]
# Where an allocation may fail: NumPy itself crashes on some failures (sorting a reversed view, for one).
NOMEM = {'new', 'new_from', 'new_list', 'copy', 'copy_copy', 'deepcopy', 'add', 'sub_scalar', 'abs', 'astype', 'set_dimension',
         'round', 'to_array', 'unit', 'project', 'cross', 'centroid', 'mean_center', 'mean_center_both', 'normalize',
         'from_points', 'sum_axis', 'mean_axis', 'vstack', 'take', 'pickle', 'resize_grow', 'resize'}

QUERIES = {
    'Vector': {
        'norm': lambda v: v.norm(), 'unit': lambda v: v.unit(), 'is_zero': lambda v: v.is_zero(),
        'dot': lambda v: v.dot(v), 'add': lambda v: v + v, 'set_dimension': lambda v: v.set_dimension(v.size + 1),
        'dimension': lambda v: v.dimension, 'round': lambda v: v.round(1), 'repr': lambda v: repr(v),
        'project': lambda v: v.project_vector(np.ones(v.size)), 'scalar': lambda v: v.scalar_projection(np.ones(v.size)),
        'angle': lambda v: v.angle_between(np.arange(1, v.size + 1)), 'parallel': lambda v: v.is_parallel(v),
        'perpendicular': lambda v: v.is_perpendicular(v), 'cross': lambda v: v.cross(np.ones(v.size)),
        'signed': lambda v: v.angle_signed(np.ones(v.size)), 'side': lambda v: v.side_vector(np.ones(v.size)),
        'cosine': lambda v: v.cosine_similarity(np.ones(v.size)),
        'plotter': lambda v: callable(v.plotter()), 'equal': lambda v: v.is_equal(v), 'close': lambda v: v.is_close(v),
        'to_array': lambda v: v.to_array(), 'line': lambda v: class_of('Line')(np.zeros(v.size), v),
    },
    'Point': {
        'norm': lambda p: p.norm(), 'distance': lambda p: p.distance_point(np.ones(p.size)), 'dimension': lambda p: p.dimension,
        'set_dimension': lambda p: p.set_dimension(p.size + 2), 'round': lambda p: p.round(1), 'repr': lambda p: repr(p),
        'add': lambda p: p + p, 'plotter': lambda p: callable(p.plotter()), 'equal': lambda p: p.is_equal(p),
        'close': lambda p: p.is_close(p), 'to_array': lambda p: p.to_array(),
        'segment': lambda p: class_of('LineSegment')(p, np.asarray(p) + 1),
        'sphere': lambda p: class_of('Sphere')(p, 1), 'circle': lambda p: class_of('Circle')(p, 1),
    },
    'Points': {
        'centroid': lambda q: q.centroid(), 'mean_center': lambda q: q.mean_center(True), 'dimension': lambda q: q.dimension,
        'set_dimension': lambda q: q.set_dimension(q.shape[1] + 1), 'round': lambda q: q.round(1), 'repr': lambda q: repr(q),
        'normalize': lambda q: q.normalize_distance(), 'unique': lambda q: q.unique(), 'add': lambda q: q + 1,
        'plotter': lambda q: callable(q.plotter()), 'equal': lambda q: q.is_equal(q), 'to_array': lambda q: q.to_array(),
        'first': lambda q: q[:1].centroid(), 'columns': lambda q: q[:, :1].dimension,
    },
}


def base_class(x):
    import skspatial.objects as objects

    for name in ('Vector', 'Point', 'Points'):
        if isinstance(x, getattr(objects, name)):
            return name
    return None


def wrong_dimension(x):
    """A description of what the dimension should have been, or None."""
    kind = base_class(x)
    if kind is None:
        return None
    if kind == 'Points':
        if x.ndim < 2:
            return None
        want = x.shape[1]
    else:
        want = x.size
    try:
        got = x.dimension
    except Exception as error:
        return f'{type(x).__name__} of shape {x.shape}: reading dimension raised {type(error).__name__}({error})'
    if isinstance(got, bool) or got != want:
        return f'{type(x).__name__} of shape {x.shape} reports dimension {got!r}'
    return None


class Prop(Property):
    id = 'C09'
    focus_families = ()
    runs = {'quick': 21600, 'thorough': 400_000}
    budget = {'quick': 160, 'thorough': 1800}
    stubs = 'thread scheduling; allocation failures'
    rule = (
        f'A run is a history of 4-40 steps drawn from {len(OPS)} NumPy and library operations (views, slices, in-place '
        'reshapes, resizes, dtype and state changes, reductions, stacking, pickling, ufuncs with out=, library methods) '
        'on up to 14 live Point, Vector, Points objects and subclasses, on 1-3 threads sharing them, with aborts and '
        'failing allocations. The dimension of every live object is compared with its shape at every library event and '
        'after every step; survivors must answer 14-23 queries exactly like a freshly built twin. Non-trivial: at least '
        'one operation produced or reshaped an object.'
    )

    def setup(self):
        make_subclasses()
        boot.allocator.load()

    def generate(self, ctx, rng, index, tier):
        pool = {}
        classes = ('Point', 'Vector', 'Points', 'Points', 'MyPoint', 'MyVector', 'MyPoints')
        for k in range(rng.choice((1, 2, 3, 4))):
            cls = rng.choice(classes)
            dt = rng.choice(('f8', 'f8', 'i8', 'f4', 'i4'))
            if cls.endswith('Points'):
                rows, width = rng.choice((1, 2, 3, 4, 6)), rng.choice((1, 2, 3, 3, 4, 6))
                v = [[rng.randint(-4, 4) for _ in range(width)] for _ in range(rows)]
            else:
                v = [rng.randint(-4, 4) for _ in range(rng.choice((1, 2, 3, 4, 6, 6, 8)))]
            pool[f'a{k}'] = {'k': 'arr', 'c': cls, 'dt': dt, 'v': v}
        hot = [NAMES[index % len(NAMES)]] + rng.sample(IN_PLACE, 2) + rng.sample(NAMES, rng.choice((1, 4, 10)))
        names = sorted(pool)
        threads = []
        for t in range(rng.choice((1, 1, 1, 2, 3))):
            steps = []
            for k in range(rng.choice((4, 8, 14, 26))):
                recent = names[-6:]
                first = rng.choice(recent if rng.random() < 0.7 else names)
                steps.append({
                    'do': rng.choice(hot) if rng.random() < 0.6 else rng.choice(NAMES),
                    'x': [first, rng.choice(names), rng.choice(sorted(pool))],
                    'y': [first if rng.random() < 0.3 else rng.choice(names), rng.choice(sorted(pool))],
                    'p': rng.randrange(6),
                    'to': f'{t}.{k}',
                })
                if steps[-1]['do'] in NOMEM and rng.random() < 0.15:
                    steps[-1]['nomem'] = rng.choice((1, 1, 2, 3))
                if rng.random() < 0.03:
                    steps[-1]['drop'] = rng.choice(names)
                names.append(f'{t}.{k}')
            threads.append(steps)
        faults = []
        for _ in range(rng.choice((0, 0, 1, 2, 4))):
            t = rng.randrange(len(threads))
            faults.append({'t': t, 'op': [rng.randrange(len(threads[t]))], 'at': rng.choice((1, 1, 2, 3, 4, 6, 9, 15)),
                           'kind': rng.choice(ABORT_KINDS)})
        return {'pool': pool, 'threads': threads, 'policy': draw_policy(rng, len(threads)), 'faults': faults}

    def execute(self, scn):
        sys.stderr = open(os.devnull, 'w')
        np.seterr(all='ignore')
        live = {}
        for n, s in scn['pool'].items():
            live[n] = class_of(s['c'])(np.array(s['v'], dtype=s['dt']))
        counts = {'done': 0, 'failed': 0, 'produced': 0, 'checked': 0, 'nomem': 0}
        found = []
        log = []
        seen = set()

        def examine(where):
            for name in list(live):
                x = live.get(name)
                if x is None:
                    continue
                counts['checked'] += 1
                problem = wrong_dimension(x)
                if problem and (name, problem) not in seen:
                    seen.add((name, problem))
                    found.append(('stale-dimension', f'{where}: {name} is a {problem}'))

        def observe(sim, t, act, kind, code, x):
            examine(f'thread {t.key} step {act.path[0]} in {code.co_qualname}')

        sim = Sim(seed=scn['seed'], segments=scn.get('segments'), policy=scn.get('policy'), faults=scn.get('faults', ()),
                  step_cap=300_000, observers=[observe])

        def find(options):
            for name in options:
                if name in live:
                    return live[name]
            return live[next(iter(live))]

        def main(key, steps):
            def fn(t):
                for k, step in enumerate(steps):
                    sim.tick(k)
                    t.busy = True
                    x, y = find(step['x']), find(step['y'])
                    t.busy = False
                    sim.enter(t, (k,))
                    armed = None
                    try:
                        if step.get('nomem'):
                            armed = boot.allocator.install()
                            boot.allocator.arm(step['nomem'])
                        value = OPS[step['do']](x, y, step['p'])
                    except BaseException as error:
                        t.busy = True
                        counts['failed'] += 1
                        log.append((key, k, type(error).__name__))
                        value = None
                    finally:
                        t.busy = True
                        if armed is not None:
                            counts['nomem'] += boot.allocator.fired
                            boot.allocator.disarm()
                            boot.allocator.restore(armed)
                    sim.leave(t)
                    counts['done'] += 1
                    produced = value if isinstance(value, (list, tuple)) else [value]
                    for i, v in enumerate(produced):
                        if base_class(v) is not None and v.size <= 150 and not any(v is w for w in live.values()):
                            counts['produced'] += 1
                            live[step['to'] if i == 0 else f'{step["to"]}.{i}'] = v
                            log.append((key, k, type(v).__name__, v.shape, v.dtype.str))
                    value = produced = x = y = v = None
                    if step.get('drop') in live and len(live) > 1:
                        del live[step['drop']]
                    while len(live) > 14:
                        del live[next(iter(live))]
                    examine(f'after thread {t.key} step {k} {step["do"]}')
                    t.busy = False
            return fn

        if len(scn['threads']) == 1:
            sim.run_inline(0, main(0, scn['threads'][0]))
        else:
            for t, steps in enumerate(scn['threads']):
                sim.spawn(t, main(t, steps))
            sim.run()
        if sim.deadlock:
            found.append(('deadlock', 'a thread waits for a lock that nobody will release'))
        if sim.overrun:
            found.append(('livelock', f'not finished after {sim.steps} steps'))
        gc.collect()
        examine('at the end')
        asked = 0
        for name, x in live.items():
            asked += self.compare(name, x, found)
        fired = {}
        for f, *_ in sim.fired:
            fired[f['kind']] = fired.get(f['kind'], 0) + 1
        if counts['nomem']:
            fired['allocation failure'] = counts['nomem']
        return {'found': found, 'counts': counts, 'segments': sim.segments, 'steps': sim.steps, 'switches': sim.switches,
                'hash': hash((sim.h, tuple(log))), 'log': log, 'fired': fired, 'asked': asked}

    def compare(self, name, x, found):
        """The object against a twin freshly built from its values."""
        kind = base_class(x)
        usable = x.ndim == (2 if kind == 'Points' else 1) and x.size and x.dtype.kind in 'if' and x.dtype.isnative
        if not usable or not np.isfinite(np.asarray(x)).all():
            return 0
        cls = class_of(kind)
        if type(x) is not cls:
            cls = type(x)
        n = 0
        for label, query in QUERIES[kind].items():
            twin = cls(np.array(x))
            outcomes = []
            for operand in (x, twin):
                try:
                    outcomes.append(('ret', enc(query(operand))))
                except Exception as error:
                    outcomes.append(('raise', enc(error)))
            n += 1
            if outcomes[0] != outcomes[1] and not same(*outcomes):
                found.append(('unlike-twin', f'{name} {type(x).__name__}{x.shape} {label}: {show(outcomes[0])}; a fresh '
                                             f'object with the same values: {show(outcomes[1])}'))
        return n

    def judge(self, ctx, scn, result):
        return result['found']

    def nontrivial(self, scn, result):
        return result['counts']['produced'] > 0

    def measures(self, scn, result):
        names = {}
        for steps in scn['threads']:
            for s in steps:
                names[s['do']] = names.get(s['do'], 0) + 1
        c = result['counts']
        return {'steps': result['steps'], 'context_switches': result['switches'], 'history_steps': c['done'],
                'steps_raising': c['failed'], 'objects_produced': c['produced'], 'dimension_checks': c['checked'],
                'twin_queries': result['asked'], 'faults_injected': result['fired'], 'operations': names}

    def candidates(self, scn):
        # Results are named, not numbered, so steps can be dropped freely; pool objects are found by name.
        for c in thread_candidates(dict(scn, probe=[{'k': 'ref', 'n': n} for n in scn['pool']])):
            c.pop('probe', None)
            yield c
        used = {n for steps in scn['threads'] for s in steps for n in s['x'] + s['y']}
        for n in list(scn['pool']):
            if len(scn['pool']) > 1 and n not in used:
                yield dict(scn, pool={k: v for k, v in scn['pool'].items() if k != n})
        for t, steps in enumerate(scn['threads']):
            for k, s in enumerate(steps):
                for key in ('nomem', 'drop'):
                    if key in s:
                        new = copy.deepcopy(scn)
                        del new['threads'][t][k][key]
                        yield new
