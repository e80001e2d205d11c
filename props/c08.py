"""C08: arrays under construction are valid whatever happens to their source."""

from copy import deepcopy
import itertools
import os
import sys
import threading

import numpy as np

from sim import boot
from sim.driver import Property, thread_candidates
from sim.engine import Sim
from sim.values import arrays_in, attributes, enc, show

from .common import draw_policy

FAILURES = {
    'OSError': lambda: OSError(5, 'Input/output error'),
    'MemoryError': lambda: MemoryError('injected'),
    'IndexError': lambda: IndexError('shorter than announced'),
    'ValueError': lambda: ValueError('cannot read'),
    'TypeError': lambda: TypeError('cannot read'),
    'AttributeError': lambda: AttributeError('gone'),
    'StopIteration': lambda: StopIteration(),
    'RecursionError': lambda: RecursionError('injected'),
    'RuntimeError': lambda: RuntimeError('closed'),
    'KeyboardInterrupt': lambda: KeyboardInterrupt('injected'),
}
SPECIAL = {'nan': float('nan'), 'inf': float('inf'), '-inf': float('-inf'), 'none': None, 'text': 'x'}


def number(v):
    return SPECIAL[v] if isinstance(v, str) else v


def tick(tag):
    if boot.sim is not None:
        boot.sim.tick(tag)


# --------------------------------------------------------------------------------------------------------------
# Sources: every element access is a scheduling point and may fail.

class Reads:
    """Counts the accesses to one source, makes the chosen ones fail, and lets the owner change it just before others."""

    def __init__(self, source, faults, writes):
        self.n = 0
        self.source = source
        self.faults = {f['at']: f['kind'] for f in faults}
        self.writes = {w['at']: w for w in writes}
        self.fired = []
        self.written = 0

    def access(self, tag):
        tick(tag)
        self.n += 1
        step = self.writes.pop(self.n, None)
        if step is not None:
            self.source.write(step)
            self.written += 1
        kind = self.faults.pop(self.n, None)
        if kind is not None:
            self.fired.append(kind)
            raise FAILURES[kind]()


class SimSeq:
    """A sequence read element by element."""

    def __init__(self, items, reads):
        self.items = items
        self.reads = reads

    def __len__(self):
        self.reads.access(-1)
        return len(self.items)

    def __getitem__(self, i):
        self.reads.access(i if isinstance(i, int) else -2)
        return self.items[i]


class SimLazy:
    """An array_like that computes its array when asked, element by element."""

    def __init__(self, items, reads):
        self.items = items
        self.reads = reads
        self.passes = {}  # what each thread was given, conversion by conversion

    def __array__(self, dtype=None, copy=None):
        self.reads.access(-3)
        out = []
        i = 0
        while i < len(self.items):
            self.reads.access(i)
            if i < len(self.items):
                x = self.items[i]
                out.append(list(x) if isinstance(x, list) else x)
            i += 1
        self.passes.setdefault(threading.get_ident(), []).append(deepcopy(out))
        return np.array(out, dtype=dtype)


def _points():
    from skspatial.objects import Points

    return Points


class Source:
    """One source: storage shared with the writers, and everything it ever held."""

    def __init__(self, name, spec):
        self.name = name
        self.spec = spec
        self.two = spec['two']
        self.reads = Reads(self, spec.get('faults', ()), spec.get('writes', ()))
        values = [[number(x) for x in row] for row in spec['v']] if self.two else [number(x) for x in spec['v']]
        kind = spec['kind']
        self.kind = kind
        if kind == 'ndarray':
            dt = spec.get('dt', 'f8')
            if dt[0] == 'i' and any(not np.isfinite(x) for row in values for x in row):
                dt = 'f8'
            self.store = np.array(values, dtype=dt, order=spec.get('order', 'C'))
            self.view = self.store
            if spec.get('view'):
                # Points of a program that made them without the constructor, or a part of a larger array.
                self.view = self.store.view(_points()) if spec['view'] == 'Points' else self.store[::1, ...]
        elif self.two and kind in ('rows-array', 'rows-seq', 'rows-lazy'):
            wrap = {'rows-array': lambda r: np.array(r, dtype=float), 'rows-seq': list, 'rows-lazy': list}[kind]
            self.store = [wrap(r) for r in values]
            if kind == 'rows-array':
                self.view = self.store
            elif kind == 'rows-seq':
                self.view = SimSeq([SimSeq(r, self.reads) for r in self.store], self.reads)
            else:
                self.view = tuple(SimLazy(r, self.reads) for r in self.store)
        else:
            self.store = values
            self.view = {'list': lambda: self.store, 'seq': lambda: SimSeq(self.store, self.reads),
                         'lazy': lambda: SimLazy(self.store, self.reads)}[kind]()
        self.held = {}
        self.note()

    def note(self):
        if self.two:
            for i, row in enumerate(self.store):
                for j, x in enumerate(row if not isinstance(row, (int, float)) else ()):
                    self._hold((i, j), x)
        else:
            for i, x in enumerate(self.store):
                self._hold((i,), x)

    def _hold(self, path, x):
        if isinstance(x, (int, float, np.number)) and np.isfinite(x):
            self.held.setdefault(path, set()).add(float(x))

    def rows(self):
        return self.store

    def write(self, step):
        """One atomic change by a writer."""
        how = step['how']
        store = self.store
        try:
            if how == 'set':
                if self.two:
                    store[step['p'][0]][step['p'][1]] = number(step['v'])
                else:
                    store[step['p'][0]] = number(step['v'])
            elif how == 'all':
                if self.two:
                    for row in store:
                        for j in range(len(row)):
                            row[j] = number(step['v'])
                else:
                    for i in range(len(store)):
                        store[i] = number(step['v'])
            elif how == 'pop':
                (store[step['p'][0]] if self.two and len(step['p']) > 1 else store).pop()
            elif how == 'append':
                (store[step['p'][0]] if self.two and len(step['p']) > 1 else store).append(step['v'])
            elif how == 'clear':
                store.clear()
            elif how == 'become':
                new = deepcopy(step['v'])
                if isinstance(store, np.ndarray):
                    store[...] = new
                elif self.kind in ('rows-array', 'rows-seq', 'rows-lazy'):
                    for row, values in zip(store, new):
                        row[:] = values
                else:
                    store[:] = new
            elif how == 'ragged':
                store[step['p'][0]] = [1.0, 2.0]
        except (IndexError, AttributeError, TypeError, ValueError, OverflowError):
            pass
        self.note()


KINDS1 = ('list', 'seq', 'seq', 'lazy', 'lazy')
KINDS2 = ('list', 'seq', 'lazy', 'rows-array', 'rows-seq', 'rows-lazy', 'ndarray')

# label: (class, classmethod or None, argument codes, dimensions). Codes: 1 = 1D source, 2 = 2D source, r = radius.
MAKERS = {
    'Point': ('Point', None, '1', (1, 2, 3)),
    'Vector': ('Vector', None, '1', (1, 2, 3)),
    'Points': ('Points', None, '2', (2, 3)),
    'Points3': ('Points', None, 'm', (2, 3)),
    'Vector.from_points': ('Vector', 'from_points', '11', (1, 2, 3)),
    'Line': ('Line', None, '11', (1, 2, 3)),
    'Line.from_points': ('Line', 'from_points', '11', (2, 3)),
    'Line.best_fit': ('Line', 'best_fit', '2', (2, 3)),
    'LineSegment': ('LineSegment', None, '11', (2, 3)),
    'Plane': ('Plane', None, '11', (3,)),
    'Plane.from_points': ('Plane', 'from_points', '111', (3,)),
    'Plane.from_vectors': ('Plane', 'from_vectors', '111', (3,)),
    'Plane.best_fit': ('Plane', 'best_fit', '2', (3,)),
    'Circle': ('Circle', None, '1r', (2,)),
    'Circle.from_points': ('Circle', 'from_points', '111', (2,)),
    'Circle.best_fit': ('Circle', 'best_fit', '2', (2,)),
    'Sphere': ('Sphere', None, '1r', (3,)),
    'Sphere.best_fit': ('Sphere', 'best_fit', '2', (3,)),
    'Cylinder': ('Cylinder', None, '11r', (3,)),
    'Cylinder.from_points': ('Cylinder', 'from_points', '11r', (3,)),
    'Cylinder.best_fit': ('Cylinder', 'best_fit', '2', (3,)),
    'Triangle': ('Triangle', None, '111', (2, 3)),
}
FIELDS = {
    'Line': ('point', 'direction'), 'Plane': ('point', 'normal'), 'LineSegment': ('point_a', 'point_b'),
    'Circle': ('point',), 'Sphere': ('point',), 'Cylinder': ('point', 'vector'),
    'Triangle': ('point_a', 'point_b', 'point_c'),
}
CLASSES = {'point': 'Point', 'direction': 'Vector', 'normal': 'Vector', 'vector': 'Vector', 'point_a': 'Point',
           'point_b': 'Point', 'point_c': 'Point'}
# Where a coordinate of the result comes from: 'i' = source i, 'j-i' = difference of sources; None = computed.
ORIGINS = {
    'Point': {'': '0'}, 'Vector': {'': '0'}, 'Points': {'': '0'}, 'Points3': {'': 'm'},
    'Vector.from_points': {'': '1-0'},
    'Line': {'point': '0', 'direction': '1'}, 'Plane': {'point': '0', 'normal': '1'},
    'LineSegment': {'point_a': '0', 'point_b': '1'}, 'Circle': {'point': '0'}, 'Sphere': {'point': '0'},
    'Cylinder': {'point': '0', 'vector': '1'}, 'Triangle': {'point_a': '0', 'point_b': '1', 'point_c': '2'},
    'Line.from_points': {'point': '0', 'direction': '1-0'}, 'Cylinder.from_points': {'point': '0', 'vector': '1-0'},
    'Plane.from_points': {'point': '0'}, 'Plane.from_vectors': {'point': '0'},
}


class Prop(Property):
    id = 'C08'
    focus_families = ()
    runs = {'quick': 30400, 'thorough': 400_000}
    budget = {'quick': 160, 'thorough': 1800}
    real = 'skspatial constructors, NumPy conversion, CPython'
    stubs = 'thread scheduling; the sources (sequences and lazy array_likes) whose every element access is a step'
    rule = (
        'A run is 1-3 threads constructing spatial objects (22 constructors) from shared sources - lists, sequences, '
        'lazy array_likes, nested and mixed, arrays for Points - while 0-3 writer threads change the sources (new unique '
        'values, NaN, infinities, None, text, shrinking, growing, ragged rows, clearing) and chosen accesses fail. A '
        'seeded scheduler interleaves at every library event and every element access. Non-trivial: a write or a fault '
        'happened between the first and last access of some construction, or an access failed.'
    )

    # -- generation ---------------------------------------------------------------------------------------------

    def generate(self, ctx, rng, index, tier):
        labels = sorted(MAKERS)
        label = labels[index % len(labels)]
        if label == 'Cylinder.best_fit' and rng.random() < 0.7:
            label = rng.choice(labels)
        dim = rng.choice(MAKERS[label][3])
        fresh = [0]
        # All integers or all not: NumPy settles the type before it reads the values.
        part = rng.choice((0, 0, 0.25))

        def unique():
            fresh[0] += 1
            return fresh[0] * rng.choice((1, 1, -1)) + part

        n_bad = rng.choice((0, 0, 0, 1))
        pool = {}

        def values(n):
            out = [unique() for _ in range(n)]
            if rng.random() < 0.06:
                out = out[:-1]
            return out

        for k in range(rng.choice((1, 2, 3, 3))):
            pool[f's{k}'] = {'k': 'source', 'two': False, 'kind': rng.choice(KINDS1), 'v': values(dim)}
        for k in range(rng.choice((1, 1, 2))):
            n = rng.choice((1, 2, 3, 4, 5, 6)) if 'best_fit' not in label or rng.random() < 0.3 else rng.choice((3, 4, 5, 6, 7))
            rows = [values(dim) if rng.random() < 0.03 else [unique() for _ in range(dim)] for _ in range(n)]
            if len({len(r) for r in rows}) > 1:
                kind = rng.choice(('list', 'seq', 'lazy', 'rows-array', 'rows-seq', 'rows-lazy'))
            else:
                kind = rng.choice(KINDS2) if rng.random() < 0.6 else 'lazy'
            pool[f't{k}'] = {'k': 'source', 'two': True, 'kind': kind, 'v': rows}
            if kind == 'ndarray' and rng.random() < 0.6:
                whole = part == 0
                pool[f't{k}'].update(dt=rng.choice(('f8', 'f4', 'f4', '>f8') + (('i8', 'i4', 'i2') if whole else ())),
                                     order=rng.choice('CCF'), view=rng.choice((None, None, 'Points', 'part')))
        if n_bad:
            name = rng.choice(sorted(pool))
            spec = pool[name]
            if spec['two'] and spec['v'][0]:
                spec['v'][0][0] = rng.choice(('nan', 'inf'))
            elif not spec['two'] and spec['v']:
                spec['v'][0] = rng.choice(('nan', 'inf', '-inf'))
        def become(spec):
            """New content for a source: often content that some constructor rejects."""
            if not spec['two']:
                others = [s['v'] for s in pool.values() if not s['two'] and s is not spec and len(s['v']) == dim]
                others = [v for v in others if not any(isinstance(x, str) for x in v)]
                roll = rng.random()
                if roll < 0.3 or not others:
                    v = [part - part] * dim if roll < 0.2 else [unique() for _ in range(dim)]
                elif roll < 0.65:
                    v = list(rng.choice(others))
                elif len(others) > 1:
                    a, b = rng.sample(others, 2)
                    k = rng.choice((2, -1, 3))
                    v = [x + k * (y - x) for x, y in zip(a, b)]
                else:
                    k = rng.choice((2, -1))
                    v = [k * x for x in others[0]]
                return v if rng.random() < 0.9 else v[:-1] or v + v
            n = len(spec['v']) if spec['kind'] in ('ndarray', 'rows-array', 'rows-seq', 'rows-lazy') else rng.choice(
                (len(spec['v']), len(spec['v']), 1, 2, 3, 5))
            if spec['kind'] in ('list', 'seq', 'lazy') and rng.random() < 0.15:
                # Another number of axes.
                if rng.random() < 0.5:
                    return [unique() for _ in range(n)]
                return [[[unique()], [unique()]] for _ in range(n)]
            base, step, other = ([unique() for _ in range(dim)] for _ in range(3))
            roll = rng.random()
            if roll < 0.2:
                return [list(base) for _ in range(n)]
            if roll < 0.5:
                return [[b + i * d for b, d in zip(base, step)] for i in range(n)]
            if roll < 0.75:
                return [[b + (i % 3) * d + (i * i % 5) * e for b, d, e in zip(base, step, other)] for i in range(n)]
            return [[unique() * rng.choice((1, 2, 5)) for _ in range(dim)] for _ in range(n)]

        for spec in pool.values():
            if rng.random() < 0.25 and not any(isinstance(x, str) for x in spec['v'][:1] + (spec['v'][0] if spec['two'] else [])):
                v = become(spec)
                if not spec['two'] or isinstance(v[0], list) and not isinstance(v[0][0], list):
                    spec['v'] = v
            if spec['kind'] in ('seq', 'lazy', 'rows-seq', 'rows-lazy') and rng.random() < 0.5:
                # Anywhere, or between two conversions of the whole.
                whole = len(spec['v']) + 1
                spec['writes'] = [
                    {'at': rng.randint(1, rng.choice((4, 8, 16, 30))) if rng.random() < 0.6 else 1 + whole * rng.randint(1, 4),
                     'how': 'become', 'v': become(spec)}
                    for _ in range(rng.choice((1, 1, 2, 3)))
                ]
        for spec in pool.values():
            if spec['kind'] in ('seq', 'lazy', 'rows-seq', 'rows-lazy') and rng.random() < 0.2:
                spec['faults'] = [{'at': rng.randint(1, 14), 'kind': rng.choice(sorted(FAILURES))}
                                  for _ in range(rng.choice((1, 1, 2)))]

        usable = [x for x in labels if dim in MAKERS[x][3] and x != 'Cylinder.best_fit']
        ones = [n for n in sorted(pool) if not pool[n]['two']]
        twos = [n for n in sorted(pool) if pool[n]['two']]

        def make(which):
            cls, method, codes, _ = MAKERS[which]
            args = []
            for c in codes:
                if c == '1':
                    args.append({'k': 'ref', 'n': rng.choice(ones)})
                elif c == '2':
                    args.append({'k': 'ref', 'n': rng.choice(twos)})
                elif c == 'm':
                    args.append({'k': 'many', 'as': rng.choice(('list', 'tuple')),
                                 'v': [{'k': 'ref', 'n': rng.choice(ones)} for _ in range(rng.choice((1, 2, 3)))]})
                else:
                    args.append({'k': 'num', 'v': rng.choice((1, 2.5, 4))})
            if codes.count('1') > 1 and len(ones) >= len(codes) and rng.random() < 0.7:
                chosen = rng.sample(ones, codes.count('1'))
                for i, c in enumerate(codes):
                    if c == '1':
                        args[i] = {'k': 'ref', 'n': chosen.pop()}
            return {'do': 'make', 'label': which, 'a': args}

        hows = ('set',) * 5 + rng.choice(((), ('all',), ('all', 'pop', 'append', 'clear', 'ragged', 'restore')))
        specials = rng.choice((('nan',), ('nan', 'inf', '-inf'), ('nan', 'inf', '-inf', 'none', 'text')))
        p_bad = rng.choice((0, 0.2, 0.4))
        p_become = rng.choice((0, 0.2, 0.5))
        threads = []
        for t in range(rng.choice((1, 1, 2, 3))):
            first = [make(label)] if t == 0 or rng.random() < 0.5 else []
            threads.append(first + [make(rng.choice(usable)) for _ in range(rng.choice((0, 1, 2)))])
        for t in range(rng.choice((0, 1, 1, 1, 2, 3))):
            steps = []
            for _ in range(rng.choice((2, 4, 8, 14))):
                name = rng.choice(sorted(pool))
                spec = pool[name]
                # An array that Point or Vector shares is not written to; Points copies.
                how = rng.choice(hows)
                value = unique() if rng.random() >= p_bad else rng.choice(specials)
                if how in ('pop', 'append', 'clear', 'ragged') and spec['kind'] in ('ndarray', 'rows-array'):
                    how = 'set'
                if spec['kind'] in ('ndarray', 'rows-array') and value in ('none', 'text'):
                    value = 'nan'
                if how == 'append':
                    value = unique()
                p = [rng.randrange(max(1, len(spec['v'])))]
                if spec['two'] and (how == 'set' or rng.random() < 0.5):
                    p.append(rng.randrange(dim))
                if how == 'restore':
                    how, value = 'all', unique()
                if how == 'set' and rng.random() < p_become:
                    how, value = 'become', become(spec)
                steps.append({'do': 'write', 's': {'k': 'ref', 'n': name}, 'how': how, 'p': p, 'v': value})
                if isinstance(value, str) and how == 'set' and rng.random() < 0.9:
                    # A glitch: soon repaired.
                    steps.append({'do': 'write', 's': {'k': 'ref', 'n': name}, 'how': how, 'p': p, 'v': unique()})
            threads.append(steps)
        policy = draw_policy(rng, len(threads))
        if rng.random() < 0.5:
            policy = {'kind': 'geo', 'mean': rng.choice((1.2, 2, 4, 8))}
        return {'pool': pool, 'threads': threads, 'policy': policy, 'faults': []}

    # -- execution ----------------------------------------------------------------------------------------------

    def execute(self, scn):
        import skspatial.objects as objects

        sys.stderr = open(os.devnull, 'w')
        sources = {n: Source(n, s) for n, s in scn['pool'].items()}
        made = []
        read = {}
        counts = {'built': 0, 'rejected': 0, 'writes': 0, 'during': 0}
        active = [0]

        def operand(spec):
            if spec['k'] == 'ref':
                return sources[spec['n']].view
            if spec['k'] == 'many':
                items = [operand(s) for s in spec['v']]
                return tuple(items) if spec['as'] == 'tuple' else items
            return spec['v']

        sim = Sim(seed=scn['seed'], segments=scn.get('segments'), policy=scn.get('policy'), step_cap=8_000_000)

        def main(steps):
            def fn(t):
                for k, step in enumerate(steps):
                    if step['do'] == 'write':
                        tick(-9)
                        sources[step['s']['n']].write(step)
                        counts['writes'] += 1
                        counts['during'] += active[0] > 0
                        continue
                    cls, method, _, _ = MAKERS[step['label']]
                    args = [operand(a) for a in step['a']]
                    maker = getattr(objects, cls)
                    active[0] += 1
                    for source in sources.values():
                        if source.kind == 'lazy':
                            source.view.passes.pop(t.ident, None)
                    sim.enter(t, (k,))
                    try:
                        value = (getattr(maker, method) if method else maker)(*args)
                    except BaseException as error:
                        t.busy = True
                        made.append((t.key, k, step, None, ('raise', enc(error))))
                        counts['rejected'] += 1
                        t.busy = False
                    else:
                        t.busy = True
                        given = [sources[a['n']].view.passes.get(t.ident, []) if a['k'] == 'ref' and
                                 sources[a['n']].kind == 'lazy' else None for a in step['a']]
                        made.append((t.key, k, step, value, ('ret', enc(value))))
                        read[len(made) - 1] = given
                        counts['built'] += 1
                        t.busy = False
                    finally:
                        sim.leave(t)
                        active[0] -= 1
            return fn

        for t, steps in enumerate(scn['threads']):
            sim.spawn(t, main(steps))
        sim.run()
        found = []
        if sim.deadlock:
            found.append(('deadlock', 'a thread waits for a lock that nobody will release'))
        if sim.overrun:
            found.append(('livelock', f'not finished after {sim.steps} steps'))
        for n, (t, k, step, value, snap) in enumerate(made):
            if value is not None:
                for problem in inspect(objects, sources, step, value) + rejected(objects, step, value, snap, read[n]):
                    found.append(('invalid-object', f'thread {t} step {k} {step["label"]}: {problem}; got {show(snap)}'))
        # Once built, nothing the sources do shows.
        for source in sources.values():
            source.write({'how': 'all', 'v': -987654.0})
        for t, k, step, value, snap in made:
            if value is not None:
                now = ('ret', enc(value))
                if now != snap:
                    found.append(('follows-source', f'thread {t} step {k} {step["label"]}: {show(snap)} became {show(now)} '
                                                    'after its source was overwritten'))
        fired = {}
        for source in sources.values():
            for kind in source.reads.fired:
                fired[kind] = fired.get(kind, 0) + 1
            if source.reads.written:
                fired['rewritten between two accesses'] = fired.get('rewritten between two accesses', 0) + source.reads.written
        return {
            'found': found, 'counts': counts, 'fired': fired, 'segments': sim.segments, 'steps': sim.steps,
            'switches': sim.switches, 'hash': hash((sim.h, tuple(repr(m[4]) for m in made))),
            'log': [repr(m[4]) for m in made],
            'accesses': sum(s.reads.n for s in sources.values()),
        }

    def judge(self, ctx, scn, result):
        return result['found']

    def nontrivial(self, scn, result):
        return result['counts']['during'] > 0 or bool(result['fired'])

    def measures(self, scn, result):
        labels = {}
        for steps in scn['threads']:
            for s in steps:
                if s['do'] == 'make':
                    labels[s['label']] = labels.get(s['label'], 0) + 1
        return {
            'steps': result['steps'], 'context_switches': result['switches'], 'objects_built': result['counts']['built'],
            'constructions_rejected': result['counts']['rejected'], 'writes': result['counts']['writes'],
            'writes_during_construction': result['counts']['during'], 'element_accesses': result['accesses'],
            'faults_injected': result['fired'], 'constructors': labels,
        }

    def candidates(self, scn):
        yield from thread_candidates(scn)
        for name, spec in scn['pool'].items():
            for what in ('faults', 'writes'):
                if spec.get(what):
                    yield dict(scn, pool={**scn['pool'], name: {k: v for k, v in spec.items() if k != what}})
                    for i in range(len(spec[what]) if len(spec[what]) > 1 else 0):
                        yield dict(scn, pool={**scn['pool'], name: {**spec, what: spec[what][:i] + spec[what][i + 1:]}})


def inspect(objects, sources, step, value):
    """What is wrong with a constructed object: a list of descriptions."""
    out = []
    label = step['label']
    cls, method, _, _ = MAKERS[label]
    if type(value).__name__ != cls:
        return [f'not a {cls}']
    if cls in FIELDS:
        parts = {name: getattr(value, name) for name in FIELDS[cls]}
        dims = {name: getattr(p, 'size', None) for name, p in parts.items()}
        if len(set(dims.values())) != 1:
            out.append(f'inconsistent dimensions {dims}')
        if value.dimension != parts[FIELDS[cls][0]].size:
            out.append(f'dimension {value.dimension} with {dims}')
        if cls in ('Line', 'Plane') and not np.array_equal(value.vector, parts[FIELDS[cls][1]]):
            out.append('vector differs from direction or normal')
    else:
        parts = {'': value}
    for name, array in parts.items():
        two = cls == 'Points'
        want = CLASSES.get(name, cls)
        if type(array).__name__ != want:
            out.append(f'{name or cls} is a {type(array).__name__}')
            continue
        if array.ndim != (2 if two else 1):
            out.append(f'{name or cls} has {array.ndim} axes')
            continue
        if array.size == 0:
            out.append(f'{name or cls} is empty')
            continue
        if array.dtype.kind not in 'iufb' or not np.isfinite(array).all():
            out.append(f'{name or cls} is not finite')
            continue
        if array.dimension != array.shape[-1]:
            out.append(f'{name or cls} reports dimension {array.dimension} with shape {array.shape}')
        out += strangers(sources, step, name, array)
    if not out:
        # The constructor would accept the object's own values.
        again = [np.array(p) for p in parts.values()]
        if hasattr(value, 'radius'):
            again.append(value.radius)
        try:
            getattr(objects, cls)(*again)
        except ValueError as error:
            out.append(f'its own constructor rejects its values: {error}')
    return out


def rejected(objects, step, value, snap, given):
    """A fit given values that the same fit rejects: it must be explained by the others."""
    cls, method, codes, _ = MAKERS[step['label']]
    names = [a.get('n') for a in step['a']]
    if step['label'] == 'Plane.from_vectors':
        return not_spanned(objects, value, given, names)
    if (method != 'best_fit' and step['label'] != 'Circle.from_points') or not all(given) or len(set(names)) < len(names):
        return []
    maker = getattr(getattr(objects, cls), method)

    def outcome(which):
        try:
            return 'ret', enc(maker(*[np.array(g[which] if which < len(g) else g[-1]) for g in given]))
        except Exception as error:
            return 'raise', enc(error)

    passes = [outcome(n) for n in range(max(len(g) for g in given))]
    if snap not in passes and any(o[0] == 'raise' and 'ValueError' in repr(o[1]) for o in passes):
        return [f'made of values that it rejects when it is given nothing else: {given}']
    return []


def not_spanned(objects, value, given, names):
    """A plane through two vectors: its normal must be that of values read, which the constructor accepts."""
    if not given[1] or not given[2] or names[1] == names[2] or len(given[1]) * len(given[2]) > 40:
        return []
    for a, b in itertools.product(given[1], given[2]):
        try:
            if np.array_equal(np.cross(*(x + [0] * (3 - len(x)) for x in (a, b))), value.normal):
                return []
        except (TypeError, ValueError):
            return []
    return [f'its normal is not that of any vectors read: {given[1:]}']


def strangers(sources, step, name, array):
    """Coordinates that the source never held."""
    origin = ORIGINS.get(step['label'], {}).get(name)
    if origin is None:
        return []

    def held(i, path):
        return sources[step['a'][i]['n']].held.get(path, set())

    out = []
    for path in np.ndindex(array.shape):
        x = float(array[path])
        if origin == 'm':
            allowed = sources[step['a'][0]['v'][path[0]]['n']].held.get(path[1:], set())
        elif '-' in origin:
            j, i = (int(p) for p in origin.split('-'))
            # A one-element source is broadcast.
            a, b = held(i, path), held(j, path)
            a = a | (held(i, (0,)) if array.size > 1 else set())
            b = b | (held(j, (0,)) if array.size > 1 else set())
            allowed = {q - p for p in a for q in b}
        else:
            allowed = held(int(origin), path)
            if step['label'] in ('Plane.from_points', 'Plane.from_vectors'):
                allowed = allowed | {0.0}  # padded to 3D
        if x not in allowed:
            out.append(f'{name or "the array"}{list(path)} = {x!r} was never held by the source')
    return out
