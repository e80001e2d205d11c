"""Generation of operations on the public API, and their execution.

An operation is plain data: {"f": form, "n": name, "r": receiver, "a": arguments, "kw": keywords}, whose operands
are value specifications (values.py), many of them references into the scenario's pool of shared objects.
"""

import copy
import pickle

import numpy as np

from .values import build, change

DTYPES = ('f8', 'f8', 'f8', 'i8', 'i8', 'f4', 'i4')


def fits(dt, flat):
    """Can the type hold these numbers?"""
    dt = dt.lstrip('<>')
    if dt[0] == 'i':
        return bool((flat == np.round(flat)).all() and (np.abs(flat) < 2.0 ** (8 * int(dt[1]) - 2)).all())
    return dt != 'f4' or bool((np.abs(flat) < 1e37).all())


class Gen:
    """Draws pools and operations. Related operands (parallel, concurrent, coplanar, equal...) are frequent."""

    def __init__(self, rng, dim=None, n_pool=6, shared=0.7, containers=True):
        self.rng = rng
        self.dim = dim or rng.choice((2, 2, 3, 3, 3, 3))
        self.shared = shared
        self.oddity = 0.06
        self.containers = containers
        self.style = rng.choice(('int', 'int', 'int', 'half', 'half', 'dec', 'dec', 'mix', 'mix', 'big', 'small', 'huge'))
        self.origin = self.coords()
        self.dirs = []
        while len(self.dirs) < 3:
            d = self.coords(nonzero=True)
            self.dirs.append(d)
        self.pool = {}
        self.by_class = {}
        for _ in range(n_pool):
            self.add(rng.choice(self.kinds()))

    # -- numbers ------------------------------------------------------------------------------------------------

    def num(self):
        r = self.rng
        style = self.style if self.style != 'mix' else r.choice(('int', 'half', 'dec', 'big', 'small'))
        if style == 'int':
            return r.randint(-4, 4)
        if style == 'half':
            return r.randint(-8, 8) / 2
        if style == 'dec':
            return round(r.uniform(-5, 5), 3)
        if style == 'big':
            return r.randint(-9, 9) * 10 ** r.randint(3, 6) + r.choice((0, 0.5, 1))
        if style == 'huge':
            return r.randint(-9, 9) * 10.0 ** r.choice((15, 16, 80, 160, 200))
        return r.randint(-9, 9) * 10.0 ** -r.randint(3, 8)

    def coords(self, dim=None, nonzero=False):
        dim = dim or self.dim
        while True:
            v = [self.num() for _ in range(dim)]
            if self.rng.random() < 0.15:
                v[self.rng.randrange(dim)] = 0
            if not nonzero or any(v):
                return v

    def small(self):
        return self.rng.choice((-2, -1, -1, 0, 1, 1, 2, 3, 0.5, 1.5))

    def combo(self, base=None, k=None, near=True):
        """origin + small combination of the scenario's directions."""
        r = self.rng
        out = list(self.origin if base is None else base)
        for d in self.dirs[: k or r.randint(1, min(3, self.dim))]:
            c = self.small()
            out = [a + c * b for a, b in zip(out, d)]
        if near and r.random() < 0.08:
            out[r.randrange(len(out))] += r.choice((1e-9, -1e-9, 1e-6, 1e-12, 1e-3))
        return out

    def vec(self, nonzero=True):
        r = self.rng
        roll = r.random()
        if roll < 0.45:
            d = r.choice(self.dirs)
            c = r.choice((1, 1, -1, 2, -2, 0.5, 3))
            v = [c * x for x in d]
        elif roll < 0.65:
            v = self.combo(base=[0] * self.dim)
        elif roll < 0.75 and self.dim == 3:
            a, b = r.sample(self.dirs, 2)
            v = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
        else:
            v = self.coords(nonzero=True)
        if nonzero and not any(v):
            v = [0] * self.dim
            v[r.randrange(self.dim)] = 1
        if r.random() < 0.05:
            v[r.randrange(self.dim)] += r.choice((1e-10, 1e-9, -1e-7, 1e-4))
        return v

    def pt(self):
        r = self.rng
        return self.combo() if r.random() < 0.7 else self.coords()

    def pts(self, n=None):
        """Points; now and then a closed outline, with repeated rows, or in order."""
        r = self.rng
        fixed = n is not None
        n = n or r.choice((1, 2, 3, 3, 4, 4, 5, 6, 8, 12, 30) if r.random() < 0.94 else (40, 70, 130))
        out = self.cloud(n)
        n = len(out)
        roll = r.random()
        if roll < 0.1 and not fixed:
            out.append(list(out[0]))
        elif roll < 0.14 and n > 1:
            i = r.randrange(n)
            out[(i + 1) % n] = list(out[i])
        elif roll < 0.18:
            out.sort(reverse=roll < 0.15)
        return out

    def cloud(self, n):
        r = self.rng
        roll = r.random()
        if roll < 0.05:
            # Mirrored pairs: the centroid is the origin.
            half = [self.combo(k=r.choice((1, 2, None))) for _ in range(max(1, n // 2))]
            return [[s * x + 0 for x in p] for p in half for s in (1, -1)]
        if roll < 0.2:
            return [self.combo(k=1) for _ in range(n)]  # collinear
        if roll < 0.4:
            return [self.combo(k=2) for _ in range(n)]  # coplanar
        if roll < 0.8:
            return [self.combo() for _ in range(n)]
        return [self.coords() for _ in range(n)]

    def round_pts(self, n=None):
        """Points near a circle or sphere, or the lateral surface of a cylinder."""
        r = self.rng
        n = n or r.choice((4, 5, 8, 12, 20))
        c = [r.randint(-3, 3) for _ in range(self.dim)]
        out = []
        if self.dim == 3 and r.random() < 0.4:
            axis = r.randrange(3)
            for _ in range(n):
                d = r.uniform(-np.pi, np.pi)
                v = [2 * np.cos(d), 2 * np.sin(d)]
                v.insert(axis, r.choice((-3, -1, 0, 2, 4)))
                out.append([round(float(a + b), 9) for a, b in zip(c, v)])
            return out
        for _ in range(n):
            d = np.array([r.gauss(0, 1) for _ in range(self.dim)])
            d = d / np.linalg.norm(d) * 2
            out.append([round(float(a + b), 9) for a, b in zip(c, d)])
        return out

    # -- specifications -----------------------------------------------------------------------------------------

    def dtype(self, values):
        dt = self.rng.choice(DTYPES)
        if dt[1] == '8' and self.rng.random() < 0.04:
            dt = '>' + dt
        flat = np.array(values, dtype=float).ravel()
        return dt if fits(dt, flat) else 'f8'

    def arr(self, cls, values):
        spec = {'k': 'arr', 'c': cls, 'dt': self.dtype(values), 'v': values}
        if self.rng.random() < 0.15:
            spec['lay'] = self.rng.choice(('s2', 'rev', 'F', 'ro'))
        return spec

    def boxed(self, cls, values):
        """An array_like: spatial array, ndarray, list or tuple."""
        r = self.rng
        roll = r.random()
        if not self.containers or roll < 0.45:
            return self.arr(cls, values)
        if roll < 0.62:
            return {'k': 'list', 'v': values}
        if roll < 0.7:
            return {'k': 'tuple', 'v': values}
        if roll < 0.76:
            return {'k': 'lazy', 'v': values}
        if roll < 0.9:
            return self.arr('ndarray', values)
        return self.arr(r.choice(('Vector', 'Point')) if cls != 'Points' else 'Points', values)

    def kinds(self):
        kinds = ['Vector', 'Vector', 'Point', 'Points', 'Line', 'Line', 'LineSegment', 'Triangle', 'list', 'ndarray']
        if self.dim == 2:
            kinds += ['Circle', 'Circle']
        if self.dim == 3:
            kinds += ['Plane', 'Plane', 'Sphere', 'Cylinder']
        return kinds

    def inner(self, cls, values):
        """An argument of a constructor of a composite."""
        roll = self.rng.random()
        if roll < 0.6:
            return {'k': 'list', 'v': values}
        return self.arr(cls if roll < 0.85 else 'ndarray', values)

    def spec(self, kind):
        r = self.rng
        if kind == 'Vector':
            return self.arr('Vector', self.vec(nonzero=r.random() < 0.95))
        if kind == 'Point':
            return self.arr('Point', self.pt())
        if kind == 'Points':
            return self.arr('Points', self.round_pts() if r.random() < 0.2 else self.pts())
        if kind == 'Line':
            return {'k': 'obj', 'c': 'Line', 'a': [self.inner('Point', self.pt()), self.inner('Vector', self.vec())]}
        if kind == 'Plane':
            return {'k': 'obj', 'c': 'Plane', 'a': [self.inner('Point', self.pt()), self.inner('Vector', self.vec())]}
        if kind == 'LineSegment':
            a = self.pt()
            b = self.pt()
            while a == b:
                b = self.coords()
            return {'k': 'obj', 'c': 'LineSegment', 'a': [self.inner('Point', a), self.inner('Point', b)]}
        if kind == 'Triangle':
            for _ in range(20):
                a, b, c = self.corners()
                d = np.array([np.subtract(b, a), np.subtract(c, a)], dtype=float)
                s = np.linalg.svd(d, compute_uv=False)
                if s[-1] > 1e-6 * max(1e-300, s[0]):
                    break
            else:
                a, b, c = ([0] * self.dim for _ in range(3))
                b = [1] + b[1:]
                c = [c[0], 1] + c[2:]
            return {'k': 'obj', 'c': 'Triangle', 'a': [self.inner('Point', v) for v in (a, b, c)]}
        if kind in ('Circle', 'Sphere'):
            return {'k': 'obj', 'c': kind, 'a': [self.inner('Point', self.pt()), self.scalar(self.radius())]}
        if kind == 'Cylinder':
            return {
                'k': 'obj',
                'c': 'Cylinder',
                'a': [
                    self.inner('Point', self.pt()),
                    self.inner('Vector', self.vec()),
                    self.scalar(self.radius()),
                ],
            }
        if kind == 'list':
            if r.random() < 0.4:
                return {'k': 'list', 'v': self.pts()}
            return {'k': 'list', 'v': self.pt()}
        if kind == 'ndarray':
            if r.random() < 0.4:
                return self.arr('ndarray', self.pts())
            return self.arr('ndarray', self.pt())
        raise ValueError(kind)

    def corners(self):
        """The corners of a triangle; now and then an equilateral, right or isosceles one."""
        r = self.rng
        roll = r.random()
        a, b, c = self.pt(), self.pt(), self.pt()
        k = r.choice((1, 2, 3, 0.5))
        if roll < 0.08 and self.dim == 3:
            turns = r.choice(([0, 1, 2], [2, 0, 1]))
            a, b, c = ([x + k * (i == turn) for i, x in enumerate(a)] for turn in turns)
        elif roll < 0.14 and self.dim > 1:
            b, c = ([x + m * (i == axis) for i, x in enumerate(a)] for axis, m in ((0, 3 * k), (1, 4 * k)))
        elif roll < 0.2 and self.dim > 1:
            b = [a[0] + k, a[1] + 2 * k, *a[2:]]
            c = [a[0] + 2 * k, *a[1:]]
        return a, b, c

    # -- operands a constructor or query must refuse, or answer in its own way ------------------------------------------

    def odd(self, code):
        r = self.rng
        if code in 'VP':
            kind = {'V': 'Vector', 'P': 'Point'}[code]
            v = r.choice((
                self.coords()[:-1], self.coords() + [self.num()], [0] * self.dim, [0.0] * (self.dim + 1), [], [self.coords()],
                self.coords()[:-1] + [float('inf')], self.coords()[:-1] + [10 ** 20], ['1'] * self.dim,
                self.coords() + [1, 2], [self.num()], [self.num(), self.coords()],
            ))
            plain = v and all(type(x) in (int, float) and abs(x) < 1e18 for x in v)
            return {'k': 'arr', 'c': kind, 'dt': 'f8', 'v': v} if plain and r.random() < 0.5 else {'k': 'list', 'v': v}
        if code in 'QR':
            p = self.pt()
            step = [self.small() or 1 for _ in range(self.dim)]
            v = r.choice((
                [p[:-1] or [1], p[:-1] or [2]], [p + [1], p + [2], p + [0]], [p], [p] * 3, [p, self.pt()], [], [[]],
                [p, p + [1]], [p, p[:-1] + [float('inf')]],  [[a + k * b for a, b in zip(p, step)] for k in range(6)],
                [self.combo(base=p, k=2, near=False) for _ in range(6)], p,
            ))
            flat = [x for row in v if isinstance(row, list) for x in row]
            plain = flat and all(len(row) == len(v[0]) for row in v if isinstance(row, list)) and all(map(np.isfinite, flat))
            return {'k': 'arr', 'c': 'Points', 'dt': 'f8', 'v': v} if plain and r.random() < 0.5 else {'k': 'list', 'v': v}
        if code == 'r':
            return {'k': 'lit', 'v': r.choice((0, -1, -0.0, float('inf'), '1', None))}
        if code == 'd':
            return {'k': 'lit', 'v': r.choice((0, -1, 2.5, 9, None))}
        if code == 'n':
            return {'k': 'lit', 'v': r.choice((0, -0.0, float('inf'), 1e300))}
        if code in OBJECTS and OBJECTS[code] in ('Line', 'LineSegment', 'Triangle', 'Plane'):
            if code == 'N':
                return self.spec(r.choice(('Line', 'Point')))
            if code == 'L' and r.random() < 0.3:
                return self.spec(r.choice(('LineSegment', 'Vector')))
            return Gen(r, dim=r.choice([d for d in (2, 3, 4, 5) if d != self.dim]), n_pool=0).spec(OBJECTS[code])
        return None

    def odd_receiver(self, cls):
        if cls in ('Circle', 'Sphere', 'Cylinder'):
            return None
        if cls in ('Vector', 'Point') and self.rng.random() < 0.4:
            return {'k': 'arr', 'c': cls, 'dt': 'f8', 'v': [0] * self.dim}
        return Gen(self.rng, dim=self.rng.choice([d for d in (2, 3, 4, 5) if d != self.dim]), n_pool=0).spec(cls)

    def scalar(self, v):
        """A number; now and then of a NumPy type."""
        spec = {'k': 'num', 'v': v}
        if self.rng.random() < 0.2:
            spec['dt'] = self.dtype([v])
        return spec

    def radius(self):
        r = self.rng
        return r.choice((1, 2, 3, 5, 0.5, 2.5, 1, abs(self.num()) or 1))

    def add(self, kind, spec=None):
        name = f'o{len(self.pool)}'
        self.pool[name] = spec or self.spec(kind)
        if self.rng.random() < 0.04 and kind not in ('list', 'ndarray'):
            self.pool[name]['sub'] = 1  # of a derived class
        label = kind
        if kind in ('list', 'ndarray'):
            label = 'raw2' if isinstance(self.pool[name]['v'][0], (list, tuple)) else 'raw1'
        self.by_class.setdefault(label, []).append(name)
        return name

    def equal(self, labels):
        """The values of an object of the pool in another container."""
        r = self.rng
        found = self.ref(*labels, *(('Line', 'Plane', 'Circle', 'Sphere', 'Cylinder') if len(labels) > 1 else ()))
        if found is None:
            return None
        spec = self.pool[found['n']]
        if spec['k'] == 'obj':
            spec = spec['a'][0 if labels[0] == 'Point' or len(spec['a']) < 2 or spec['c'] in ('Circle', 'Sphere') else 1]
        values = spec['v']
        roll = r.random()
        if roll < 0.6:
            return {'k': 'list' if roll < 0.45 else 'lazy', 'v': values}
        return {'k': 'tuple', 'v': values} if roll < 0.6 else self.arr(r.choice(('ndarray', labels[0])), values)

    def ref(self, *labels):
        names = [n for label in labels for n in self.by_class.get(label, ())]
        return {'k': 'ref', 'n': self.rng.choice(names)} if names else None

    # -- typed operands -----------------------------------------------------------------------------------------

    def receiver(self, cls):
        if self.rng.random() < self.shared:
            found = self.ref(cls)
            if found is None and self.rng.random() < 0.8 and len(self.pool) < 14:
                found = {'k': 'ref', 'n': self.add(cls)}
            if found is not None:
                return found
        if cls == 'Vector' and self.rng.random() < 0.2:
            found = self.ref('Line', 'Plane', 'Cylinder')
            if found is not None:
                return {**found, 'path': ['vector']}
        return self.spec(cls)

    def operand(self, code):
        r = self.rng
        share = r.random() < self.shared
        if code in 'VPQ' and r.random() < 0.08:
            found = self.equal({'V': ('Vector', 'Point'), 'P': ('Point', 'Vector'), 'Q': ('Points',)}[code])
            if found is not None:
                return found
        if code == 'V':
            if share:
                found = self.ref('Vector', 'Vector', 'raw1', 'Point')
                if found is not None:
                    return found
            if r.random() < 0.15:
                found = self.ref('Line', 'Plane', 'Cylinder')
                if found is not None:
                    return {**found, 'path': ['vector']}
            return self.boxed('Vector', self.vec(nonzero=r.random() < 0.95))
        if code == 'P':
            if share:
                found = self.ref('Point', 'Point', 'raw1', 'Vector')
                if found is not None:
                    return found
            if r.random() < 0.15:
                found = self.ref('Line', 'Plane', 'Sphere', 'Circle', 'Cylinder')
                if found is not None:
                    return {**found, 'path': ['point']}
            return self.boxed('Point', self.pt())
        if code == 'Q':
            if share:
                found = self.ref('Points', 'Points', 'raw2')
                if found is not None:
                    return found
            return self.boxed('Points', self.pts())
        if code == 'R':  # points near something round
            if share and r.random() < 0.5:
                found = self.ref('Points', 'raw2')
                if found is not None:
                    return found
            return self.boxed('Points', self.round_pts())
        if code == 'B':  # a basis
            return {'k': 'many', 'v': [self.operand('V') for _ in range(r.choice((1, 2, self.dim)))]}
        if code == 'n':
            return self.scalar(r.choice((self.num(), self.small())))
        if code == 'r':
            return self.scalar(self.radius())
        if code == 'd':
            return {'k': 'num', 'v': self.dim + r.choice((0, 0, 1, 2, -1))}
        if code == 'A':
            return {'k': 'lit', 'v': r.choice(('A', 'B', 'C', 'A', 'B', 'C', 'D'))}
        if code == 'a':
            return {'k': 'lit', 'v': r.choice(('a', 'b', 'c', 'a', 'b', 'c', 'd'))}
        if code == 'X':
            return {'k': 'axes', 'd': 2 if self.dim == 2 else 3}
        if code in OBJECTS:
            return self.receiver(OBJECTS[code])
        raise ValueError(code)

    # -- operations ---------------------------------------------------------------------------------------------

    def op(self, template=None, families=None):
        r = self.rng
        while True:
            t = template or r.choice(usable(self.dim, families))
            if self.dim in t.dims:
                break
            template = None
        return self.fill(t)

    def fill(self, t):
        r = self.rng
        op = {'f': t.form, 'n': t.name}
        if t.form in ('m', 'get', 'py', 'np', 'plotter'):
            op['r'] = self.receiver(t.cls)
        if t.form == 'cm':
            op['c'] = t.cls
        op['a'] = [self.operand(c) for c in t.args]
        if t.label in MEETING and r.random() < 0.6:
            self.meet(t, op)
        if t.family in ('query', 'new') and t.cost < 10 and r.random() < self.oddity:
            if t.args and (r.random() < 0.8 or t.form != 'm'):
                i = r.randrange(len(t.args))
                spec = self.odd(t.args[i])
                if spec:
                    op['a'][i] = dict(spec, odd=True)
            elif t.form == 'm':
                spec = self.odd_receiver(t.cls)
                if spec:
                    op['r'] = dict(spec, odd=True)
        kw = {}
        for name, choices in t.kw.items():
            if r.random() < 0.45:
                choice = r.choice(choices)
                kw[name] = choice if isinstance(choice, dict) else {'k': 'lit', 'v': choice}
        if t.fixed:
            kw.update({k: {'k': 'lit', 'v': v} for k, v in t.fixed.items()})
        op['kw'] = kw
        if (t.args and op['f'] == 'm' and t.cls in ('Vector', 'Point', 'Points') and t.args[0] in 'VPQ'
                and op['r']['k'] == 'ref' and r.random() < 0.05):
            op['a'][0] = dict(op['r'])  # the receiver as its own argument
        return op

    def numbers(self, spec):
        """The numbers an operand was specified with: (point, vector or other end, radius); None if there are none."""
        if spec['k'] == 'ref':
            if spec.get('path'):
                return None
            spec = self.pool[spec['n']]
        parts = spec['a'] if spec['k'] == 'obj' else [spec]
        try:
            return [np.array(p['v'], dtype=float) for p in parts]
        except (KeyError, TypeError, ValueError, OverflowError):
            return None

    def away(self, n=None):
        """A vector of moderate length in any direction."""
        r = self.rng
        while True:
            v = np.array([r.choice((r.randint(-3, 3), round(r.uniform(-3, 3), 3))) for _ in range(n or self.dim)], dtype=float)
            if v.any():
                return v

    def meet(self, t, op):
        """Gives the operation operands that intersect, or are otherwise fit for an answer."""
        r = self.rng

        def plain(values):
            return [int(x) if x == round(x) and abs(x) < 1e9 and r.random() < 0.7 else float(x) for x in np.asarray(values).tolist()]

        def obj(cls, *parts):
            inside = [self.scalar(p) if isinstance(p, (int, float)) else self.inner('Vector' if i else 'Point', plain(p))
                      for i, p in enumerate(parts)]
            spec = {'k': 'obj', 'c': cls, 'a': inside}
            if r.random() < self.shared and len(self.pool) < 14:
                return {'k': 'ref', 'n': self.add(cls, spec)}
            return spec

        if t.form in ('new', 'cm'):
            if t.args == 'PPP':
                op['a'] = [self.boxed('Point', self.coords()) for _ in t.args]
            elif t.args == 'PVV':
                op['a'][1:] = [self.boxed('Vector', self.coords(nonzero=True)) for _ in 'VV']
            elif t.label == 'cm:Cylinder.best_fit':
                op['a'] = [self.boxed('Points', self.round_pts(r.choice((8, 12, 20))))]
            else:
                op['a'] = [self.boxed('Points', [self.coords() for _ in range(r.choice((4, 5, 8)))])]
            return
        found = self.numbers(op['r'])
        if found is None or len(found[0].shape) != 1 + (t.cls == 'Points') or found[0].shape[-1] != self.dim:
            return
        if not all(np.isfinite(x).all() and np.abs(x).max() < 1e100 for x in found):
            return
        a = found[0]
        scale = float(np.abs(found[-1]).max()) or 1.0
        if t.cls in ('Circle', 'Sphere'):
            radius = float(found[1])
            if t.name == 'intersect_circle':
                other = radius * r.choice((0.5, 1, 1, 2, 3))
                low, high = abs(radius - other), radius + other
                # Crossing, touching from outside, touching from inside, one within the other.
                d = r.choice((low + (high - low) * r.uniform(0.05, 0.95),) * 5 + (high, low or high, low / 2 or high))
                u = r.choice((np.array([1.0, 0]), np.array([0, -1.0]), self.away(2)))
                op['a'] = [obj('Circle', a + d * u / np.linalg.norm(u), other)]
            else:
                u = self.away()
                inside = a + radius * r.choice((0, 0.5, 0.9, 1)) * u / np.linalg.norm(u)
                v = self.away()
                op['a'] = [obj('Line', inside + r.choice((0, 1, -2, 0.5)) * v, v)]
        elif t.cls == 'Cylinder':
            u = self.away()
            u = u / np.linalg.norm(u) * float(found[2]) * r.choice((0, 0.3, 0.7))
            v = r.choice((self.away(), self.away(), found[1] / (scale or 1)))
            op['a'] = [obj('Line', a + r.choice((0.5, 0.25, 0.9, 0, 1)) * found[1] + u + r.choice((0, 1, -2)) * v, v)]
        elif t.cls == 'LineSegment':
            m = a + r.choice((0.5, 0.25, 0.75, 0, 1)) * (found[1] - a)
            v = self.away() * scale
            op['a'] = [obj('LineSegment', m - r.choice((0, 1, 0.5)) * v, m + r.choice((1, 2)) * v)]
        elif t.cls == 'Line':
            v = self.away() * scale
            m = a + r.choice((0, 1, -1, 2, 0.5)) * found[1]
            op['a'] = [obj('Line', m + r.choice((0, 1, -2)) * v, v)]
        elif t.cls == 'Plane':
            op['a'] = [obj('Plane', a + self.away() * r.choice((0, 1)), self.away())]
        elif t.name == 'angle_signed_3d':
            other = self.away()
            normal = np.cross(a / scale, other) * r.choice((1, -1, 2))
            op['a'] = [self.boxed('Vector', plain(x)) for x in (other, normal)]
        elif t.name == 'is_close' and t.cls == 'Points':
            op['a'] = [self.perturb(self.boxed('Points', self.pool[op['r']['n']]['v'] if op['r']['k'] == 'ref' else op['r']['v']))]

    def twin(self, op):
        """A variation of an operation: equal or nearly equal operands in other objects or types."""
        op = copy.deepcopy(op)

        def vary(spec):
            if spec['k'] == 'ref' and not spec.get('path') and self.rng.random() < 0.7:
                spec = copy.deepcopy(self.pool[spec['n']])
            if spec['k'] in ('list', 'tuple', 'arr', 'lazy'):
                return self.perturb(spec)
            if spec['k'] == 'obj':
                i = self.rng.randrange(len(spec['a']))
                spec['a'][i] = vary(spec['a'][i])
            if spec['k'] == 'num' and self.rng.random() < 0.5:
                spec['v'] = self.rng.choice((spec['v'] + 1, spec['v'] * 2, -spec['v'], float(spec['v'])))
            return spec

        places = (['r'] if 'r' in op else []) + list(range(len(op['a'])))
        words = sorted(k for k, v in op.get('kw', {}).items() if v['k'] == 'lit' and type(v['v']) in (int, float, bool))
        if words and self.rng.random() < 0.25:
            places = ['kw']
        if places:
            place = self.rng.choice(places)
            if place == 'kw':
                word = self.rng.choice(words)
                v = op['kw'][word]['v']
                # Equal values of other types, and other values.
                whole = int(v) if abs(v) < 1e15 else v
                op['kw'][word] = {'k': 'lit', 'v': self.rng.choice((float(v), whole, bool(v), v + 1, v))}
            elif place == 'r':
                op['r'] = vary(op['r'])
            else:
                op['a'][place] = vary(op['a'][place])
        return op

    def share(self, op):
        """The operation on objects of the pool only, so that other operations can use the very same ones."""
        op = copy.deepcopy(op)

        def pooled(spec):
            if spec['k'] not in ('obj', 'arr', 'list') or spec.get('odd') or len(self.pool) >= 16:
                return spec
            kind = spec.get('c', 'list')
            return {'k': 'ref', 'n': self.add(kind, spec)}

        if 'r' in op:
            op['r'] = pooled(op['r'])
        op['a'] = [pooled(a) for a in op['a']]
        return op

    def kind_of(self, spec):
        if spec['k'] == 'ref':
            return 'array' if spec.get('path') else self.kind_of(self.pool[spec['n']])
        return spec.get('c') if spec['k'] == 'obj' else 'array' if spec['k'] in ('arr', 'list', 'tuple', 'lazy') else spec['k']

    def mirror(self, op):
        """The operation with two operands of one kind exchanged; None if there are none."""
        specs = ([('r', op['r'])] if 'r' in op else []) + list(enumerate(op['a']))
        pairs = [
            (i, j) for n, (i, x) in enumerate(specs) for j, y in specs[n + 1:]
            if self.kind_of(x) == self.kind_of(y) and x != y and (x['k'] in ('ref', 'obj', 'arr') and y['k'] in ('ref', 'obj', 'arr'))
        ]
        if not pairs:
            return None
        op = copy.deepcopy(op)
        i, j = self.rng.choice(pairs)
        x = op['r'] if i == 'r' else op['a'][i]
        y = op['a'][j]
        op['a'][j] = x
        if i == 'r':
            op['r'] = y
        else:
            op['a'][i] = y
        return op

    def perturb(self, spec):
        r = self.rng
        spec = copy.deepcopy(spec)
        if spec.get('odd'):
            return spec
        how = r.choice(('none', 'dtype', 'last', 'tiny', 'negzero', 'swap', 'scale', 'sum', 'shape', 'bits'))
        values = np.array(spec['v'], dtype=object)
        flat = values.ravel()
        if how == 'shape':
            # The same numbers in rows of another width, or one coordinate more or less.
            if values.ndim == 2:
                widths = [w for w in (2, 3, 4, 1) if values.size % w == 0 and w != values.shape[1]]
                if widths:
                    values = values.reshape(-1, r.choice(widths))
            elif r.random() < 0.5 and len(flat) > 1:
                values = flat[:-1]
            else:
                values = np.append(flat, 0)
            spec['v'] = values.tolist()
            return spec
        if how == 'bits':
            # The same bytes read as another type.
            if spec['k'] == 'arr' and spec.get('dt') in ('f8', 'i8'):
                other = {'f8': 'i8', 'i8': 'f8'}[spec['dt']]
                try:
                    seen = np.array(spec['v'], dtype=spec['dt']).view(other)
                except (OverflowError, ValueError):  # integers beyond 64 bits, rows of unequal length
                    return spec
                if np.isfinite(seen).all():
                    spec['v'], spec['dt'] = seen.tolist(), other
            return spec
        if how == 'dtype':
            if spec['k'] == 'arr':
                # Only where the values are representable: the twin holds equal numbers in another type.
                spec['dt'] = self.dtype(spec['v'])
                return spec
            flat[:] = [float(x) for x in flat]
        elif how == 'last':
            flat[-1] = flat[-1] + r.choice((1, -1, 0.5))
        elif how == 'tiny':
            i = r.randrange(len(flat))
            flat[i] = flat[i] + r.choice((1e-9, 1e-7, -1e-6, 1e-4, 1e-3, 1e-12))
        elif how == 'negzero':
            i = r.randrange(len(flat))
            flat[i] = -0.0
        elif how == 'swap' and len(flat) > 1:
            i, j = r.sample(range(len(flat)), 2)
            flat[i], flat[j] = flat[j], flat[i]
        elif how == 'scale':
            flat[:] = [2 * x for x in flat]
        elif how == 'sum' and len(flat) > 1:  # same sum, other values
            i, j = r.sample(range(len(flat)), 2)
            flat[i], flat[j] = flat[i] + 1, flat[j] - 1
        spec['v'] = values.tolist()
        if spec['k'] == 'arr' and not fits(spec.get('dt', 'f8'), np.array(flat, dtype=float)):
            spec['dt'] = 'f8'
        return spec


# Operations that mostly raise an error unless their operands are chosen to suit each other.
MEETING = {
    'm:LineSegment.intersect_line_segment', 'm:Circle.intersect_circle', 'm:Cylinder.intersect_line', 'm:Line.intersect_line',
    "m:Cylinder.intersect_line[{'infinite': False}]", 'm:Sphere.intersect_line', 'm:Circle.intersect_line', 'm:Points.is_close',
    'm:Plane.intersect_plane', 'cm:Circle.from_points', 'new:Triangle.Triangle', 'm:Vector.angle_signed_3d', 'cm:Plane.from_vectors',
    'cm:Cylinder.best_fit', 'cm:Plane.from_points', 'cm:Plane.best_fit', 'm:Line.distance_line', 'm:Line.is_coplanar',
}
OBJECTS = {'L': 'Line', 'S': 'LineSegment', 'N': 'Plane', 'C': 'Circle', 'H': 'Sphere', 'Y': 'Cylinder', 'T': 'Triangle',
           'v': 'Vector', 'p': 'Point', 'q': 'Points'}


class T:
    """A template of operations."""

    __slots__ = ('cls', 'form', 'name', 'args', 'kw', 'dims', 'fixed', 'family', 'cost')

    def __init__(self, cls, form, name, args='', kw=None, dims=(2, 3), fixed=None, family='query', cost=1):
        self.cls, self.form, self.name, self.args = cls, form, name, args
        self.kw, self.dims, self.fixed, self.family, self.cost = kw or {}, dims, fixed, family, cost

    @property
    def label(self):
        return f'{self.form}:{self.cls}.{self.name}' + (f'[{self.fixed}]' if self.fixed else '')


TOL = {'abs_tol': (1e-9, 1e-6, 1e-3, 0.5), 'rel_tol': (1e-9, 1e-6, 0.1)}
ABS = {'abs_tol': (1e-9, 1e-6, 1e-3, 0.5)}
RANK = {'tol': (1e-9, 1e-6, 1e-3, 0.5, 3.0)}
ANY = (1, 2, 3, 4, 5)


def _templates():
    out = []

    def add(*args, **kwargs):
        out.append(T(*args, **kwargs))

    # Constructors.
    for cls, args, dims in (
        ('Vector', 'V', ANY), ('Point', 'P', ANY), ('Points', 'Q', ANY), ('Line', 'PV', ANY), ('LineSegment', 'PP', ANY),
        ('Plane', 'PV', (3,)), ('Circle', 'Pr', (2,)), ('Sphere', 'Pr', (3,)), ('Cylinder', 'PVr', (3,)),
        ('Triangle', 'PPP', (2, 3)),
    ):
        add(cls, 'new', cls, args, dims=dims, family='new')
    # Array objects.
    for cls in ('Vector', 'Point', 'Points'):
        same = {'Vector': 'V', 'Point': 'P', 'Points': 'Q'}[cls]
        add(cls, 'm', 'is_close', same, TOL, dims=ANY)
        add(cls, 'm', 'is_equal', same, dims=ANY)
        add(cls, 'm', 'round', '', {'decimals': (0, 1, 2, -1)}, dims=ANY)
        add(cls, 'm', 'to_array', '', dims=ANY)
        add(cls, 'm', 'set_dimension', 'd', dims=ANY)
        add(cls, 'get', 'dimension', '', dims=ANY)
        for name, args in (('repr', ''), ('str', ''), ('add', same), ('sub', same), ('radd', same), ('mul', 'n'),
                           ('rmul', 'n'), ('truediv', 'n'), ('neg', ''), ('abs', ''), ('eq', same), ('pow2', ''),
                           ('iter', ''), ('len', ''), ('getitem0', ''), ('slice', ''), ('matmul', same), ('copy', ''),
                           ('deepcopy', ''), ('pickle', ''), ('hash', ''), ('bool', '')):
            add(cls, 'py', name, args, dims=ANY, family='py')
        for name in ('mean', 'sum', 'max', 'min', 'std', 'var', 'prod', 'argmax', 'all', 'any', 'cumsum', 'tolist',
                     'copy', 'astype_f4', 'astype_i8', 'clip', 'sort', 'transpose', 'ravel', 'reshape', 'sqrt', 'sin',
                     'square', 'isfinite', 'divmod', 'multiply_outer', 'where', 'vstack', 'concatenate', 'mean_axis',
                     'einsum', 'linspace', 'lnorm'):
            add(cls, 'np', name, '', dims=ANY, family='np')
    # Point and Vector.
    add('Point', 'm', 'distance_point', 'P', dims=ANY)
    add('Vector', 'cm', 'from_points', 'PP', dims=ANY)
    add('Vector', 'm', 'norm', '', {'ord': (1, 2, 3, float('inf'), 0)}, dims=ANY)
    add('Vector', 'm', 'unit', '', dims=ANY)
    add('Vector', 'm', 'is_zero', '', ABS, dims=ANY)
    for name in ('cosine_similarity', 'angle_between', 'dot', 'project_vector', 'scalar_projection'):
        add('Vector', 'm', name, 'V', dims=ANY)
    for name in ('is_parallel', 'is_perpendicular'):
        add('Vector', 'm', name, 'V', TOL, dims=ANY)
    add('Vector', 'm', 'cross', 'V')
    add('Vector', 'm', 'angle_signed', 'V', dims=(2,))
    add('Vector', 'm', 'angle_signed_3d', 'VV', dims=(3,))
    add('Vector', 'm', 'side_vector', 'V', dims=(2,))
    add('Vector', 'm', 'different_direction', '', TOL, dims=ANY)
    # Points.
    add('Points', 'm', 'centroid', '', dims=ANY)
    add('Points', 'm', 'mean_center', '', {'return_centroid': (True, False)}, dims=ANY)
    add('Points', 'm', 'normalize_distance', '', dims=ANY)
    add('Points', 'm', 'unique', '', dims=ANY)
    for name in ('affine_rank', 'are_collinear', 'are_coplanar', 'are_concurrent'):
        add('Points', 'm', name, '', RANK, dims=ANY)
    # Line.
    add('Line', 'cm', 'from_points', 'PP', dims=ANY)
    add('Line', 'cm', 'from_slope', 'nn', dims=(2,))
    add('Line', 'cm', 'best_fit', 'Q', {'return_error': (True, False), 'tol': (1e-6, 1e-3, 0.5), 'full_matrices': (False,)},
        dims=ANY)
    add('Line', 'm', 'to_point', '', {'t': (0, 1, 2, -1.5)}, dims=ANY)
    for name in ('distance_point', 'project_point', 'side_point'):
        add('Line', 'm', name, 'P', dims=ANY if name != 'side_point' else (2,))
    for name in ('distance_points', 'project_points', 'sum_squares', 'transform_points'):
        add('Line', 'm', name, 'Q', dims=ANY)
    add('Line', 'm', 'project_vector', 'V', dims=ANY)
    add('Line', 'm', 'contains_point', 'P', TOL, dims=ANY)
    add('Line', 'm', 'distance_line', 'L', dims=ANY)
    add('Line', 'm', 'intersect_line', 'L', {'check_coplanar': (True, False), **TOL}, dims=ANY)
    add('Line', 'm', 'is_coplanar', 'L', RANK, dims=ANY)
    add('Line', 'm', 'is_close', 'L', TOL, dims=ANY)
    # Segment.
    add('LineSegment', 'm', 'contains_point', 'P', TOL, dims=ANY)
    add('LineSegment', 'm', 'intersect_line_segment', 'S', TOL, dims=(2, 3))
    # Plane.
    add('Plane', 'cm', 'from_points', 'PPP', RANK, dims=(3,))
    add('Plane', 'cm', 'from_vectors', 'PVV', TOL, dims=(3,))
    add('Plane', 'cm', 'best_fit', 'Q', {'return_error': (True, False), 'tol': (1e-6, 1e-3, 0.5)}, dims=(3,))
    add('Plane', 'm', 'cartesian', '', dims=(3,))
    for name in ('distance_point', 'distance_point_signed', 'project_point', 'side_point'):
        add('Plane', 'm', name, 'P', dims=(3,))
    for name in ('distance_points', 'distance_points_signed', 'project_points', 'sum_squares'):
        add('Plane', 'm', name, 'Q', dims=(3,))
    add('Plane', 'm', 'contains_point', 'P', TOL, dims=(3,))
    add('Plane', 'm', 'project_vector', 'V', dims=(3,))
    add('Plane', 'm', 'project_line', 'L', TOL, dims=(3,))
    add('Plane', 'm', 'intersect_line', 'L', TOL, dims=(3,))
    add('Plane', 'm', 'intersect_plane', 'N', TOL, dims=(3,))
    add('Plane', 'm', 'is_close', 'N', TOL, dims=(3,))
    lims = ({'k': 'list', 'v': [0, 2]}, {'k': 'list', 'v': [-1, 1]}, {'k': 'tuple', 'v': [0.5, 3]},
            {'k': 'arr', 'c': 'ndarray', 'dt': 'f8', 'v': [0, 4]})
    for name in ('to_mesh', 'to_points'):
        add('Plane', 'm', name, '', {'lims_x': lims, 'lims_y': lims}, dims=(3,))
        add('Sphere', 'm', name, '', {'n_angles': (3, 4, 6)}, dims=(3,))
        add('Cylinder', 'm', name, '', {'n_along_axis': (2, 3), 'n_angles': (3, 5)}, dims=(3,))
    # Circle and sphere.
    add('Circle', 'cm', 'from_points', 'PPP', RANK, dims=(2,))
    add('Circle', 'cm', 'best_fit', 'R', dims=(2,))
    add('Circle', 'm', 'circumference', '', dims=(2,))
    add('Circle', 'm', 'area', '', dims=(2,))
    add('Circle', 'm', 'intersect_circle', 'C', dims=(2,))
    add('Circle', 'm', 'intersect_line', 'L', dims=(2,))
    add('Sphere', 'cm', 'best_fit', 'R', dims=(3,))
    add('Sphere', 'm', 'surface_area', '', dims=(3,))
    add('Sphere', 'm', 'volume', '', dims=(3,))
    add('Sphere', 'm', 'intersect_line', 'L', dims=(3,))
    for cls, dims in (('Circle', (2,)), ('Sphere', (3,))):
        add(cls, 'm', 'distance_point', 'P', dims=dims)
        add(cls, 'm', 'contains_point', 'P', TOL, dims=dims)
        add(cls, 'm', 'project_point', 'P', dims=dims)
    # Cylinder.
    add('Cylinder', 'cm', 'from_points', 'PPr', dims=(3,))
    add('Cylinder', 'cm', 'best_fit', 'Q', dims=(3,), cost=60)
    for name in ('length', 'lateral_surface_area', 'surface_area', 'volume'):
        add('Cylinder', 'm', name, '', dims=(3,))
    add('Cylinder', 'm', 'is_point_within', 'P', dims=(3,))
    add('Cylinder', 'm', 'intersect_line', 'L', {'n_digits': (None, 3, 6), 'infinite': (True, False)}, dims=(3,))
    add('Cylinder', 'm', 'intersect_line', 'L', {'n_digits': (None, 3, 6)}, dims=(3,), fixed={'infinite': False})
    # Triangle.
    for name in ('normal',):
        add('Triangle', 'm', name, '')
    for name in ('area', 'perimeter', 'centroid'):
        add('Triangle', 'm', name, '')
    add('Triangle', 'm', 'orthocenter', '', TOL)
    add('Triangle', 'm', 'classify', '', TOL)
    add('Triangle', 'm', 'is_right', '', TOL)
    for name in ('point', 'angle', 'altitude'):
        add('Triangle', 'm', name, 'A')
    for name in ('line', 'length'):
        add('Triangle', 'm', name, 'a')
    add('Triangle', 'multi', 'angle', 'T', fixed={'inputs': 'ABC'})
    add('Triangle', 'multi', 'length', 'T', fixed={'inputs': 'abc'})
    add('Triangle', 'multi', 'altitude', 'T', fixed={'inputs': ['A', 'B', 'C']})
    # Functions.
    add('measurement', 'fn', 'skspatial.measurement.area_triangle', 'PPP')
    add('measurement', 'fn', 'skspatial.measurement.volume_tetrahedron', 'PPPP')
    add('measurement', 'fn', 'skspatial.measurement.area_signed', 'Q', dims=(2,))
    add('transformation', 'fn', 'skspatial.transformation.transform_coordinates', 'QPB')
    # Plotting (on stub or real axes).
    names = {'label': ('first', 'second'), 'zorder': (3, 7)}
    rgb = {'k': 'list', 'v': [0.25, 0.5, 0.75]}
    style = {'c': ('k', 'r'), 'alpha': (0.5, 1), **names}
    line = {'c': ('k', 'b'), 'lw': (1, 3), 'ls': ('--', ':'), **names}
    for cls in ('Point', 'Points'):
        for dim in (2, 3):
            add(cls, 'm', f'plot_{dim}d', 'X', {**style, 's': (10, 75)}, dims=(dim,), family='plot')
            add(cls, 'plotter', f'{dim}d', 'X', style, dims=(dim,), family='plot')
    origin = {2: ({'k': 'tuple', 'v': (1, 2)}, {'k': 'list', 'v': [0.5, -1]}, {'k': 'arr', 'c': 'Point', 'dt': 'f8', 'v': [2, 1]},
                  {'k': 'arr', 'c': 'ndarray', 'dt': 'f8', 'v': [-1, 0.5]}),
              3: ({'k': 'tuple', 'v': (1, 2, 3)}, {'k': 'list', 'v': [0.5, -1, 0]},
                  {'k': 'arr', 'c': 'ndarray', 'dt': 'i8', 'v': [2, 1, 1]}, {'k': 'arr', 'c': 'ndarray', 'dt': 'f8', 'v': [2, 1, 0.5]},
                  {'k': 'arr', 'c': 'Vector', 'dt': 'f8', 'v': [1.5, 1, -2]})}
    for dim in (2, 3):
        for form, name in (('m', f'plot_{dim}d'), ('plotter', f'{dim}d')):
            add('Vector', form, name, 'X', {'point': origin[dim], 'scalar': (2, -1, 0.5), 'color': ('k', rgb), **names},
                dims=(dim,), family='plot')
            add('Line', form, name, 'X', {'t_1': (-1, 2), 't_2': (3, 0.5), **line}, dims=(dim,), family='plot')
            add('LineSegment', form, name, 'X', line, dims=(dim,), family='plot')
            add('Triangle', form, name, 'X', {'part': ('points', 'lines', 'lines', 'sides'), 'c': ('k', 'b'), **names}, dims=(dim,), family='plot')
    for form, name in (('m', 'plot_2d'), ('plotter', '2d')):
        add('Circle', form, name, 'X', {'fill': (False, True), 'color': ('r', rgb), **names}, dims=(2,), family='plot')
    for form, name in (('m', 'plot_3d'), ('plotter', '3d')):
        add('Plane', form, name, 'X', {'lims_x': lims, 'lims_y': lims, 'alpha': (0.5,), **names}, dims=(3,), family='plot')
        add('Sphere', form, name, 'X', {'n_angles': (3, 5), 'alpha': (0.5,), 'color': ('r', rgb), **names}, dims=(3,), family='plot')
        add('Cylinder', form, name, 'X', {'n_along_axis': (2, 3), 'n_angles': (3, 5), 'alpha': (0.5,), **names}, dims=(3,),
            family='plot')
    # Whole figures.
    for args in ('q', 'L', 'vT', 'CL', ''):
        add('figure', 'figure', 'plot_2d', args, dims=(2,), family='figure')
    for args in ('q', 'LN', 'vH', 'YT', ''):
        add('figure', 'figure', 'plot_3d', args, dims=(3,), family='figure')
    # Representations and accessors of the composites.
    for cls, dims in (('Line', ANY), ('LineSegment', ANY), ('Plane', (3,)), ('Circle', (2,)), ('Sphere', (3,)),
                      ('Cylinder', (3,)), ('Triangle', (2, 3))):
        for name in ('repr', 'copy', 'deepcopy', 'pickle', 'eq_self'):
            add(cls, 'py', name, '', dims=dims, family='py')
        add(cls, 'get', 'dimension', '', dims=dims)
        add(cls, 'm', 'plotter', '', dims=dims, family='plotter')
    for cls in ('Vector', 'Point', 'Points'):
        add(cls, 'm', 'plotter', '', dims=ANY, family='plotter')
    for cls in ('Line', 'Plane', 'Cylinder'):
        add(cls, 'get', 'vector', '', dims=(3,) if cls != 'Line' else ANY)
    return out


TEMPLATES = _templates()
DEFAULT_FAMILIES = ('query', 'new', 'py', 'np', 'plotter')
_usable = {}


def usable(dim, families=None):
    key = (dim, families)
    if key not in _usable:
        chosen = [t for t in TEMPLATES if dim in t.dims and t.family in (families or DEFAULT_FAMILIES)]
        weighted = []
        for t in chosen:
            weight = {'new': 8, 'query': 8, 'py': 2, 'np': 1, 'plotter': 2, 'plot': 5, 'figure': 3}[t.family]
            if t.cost > 10:
                weight = 2
            weighted += [t] * weight
        _usable[key] = weighted
    return _usable[key]


# --------------------------------------------------------------------------------------------------------------
# Execution.

def _np_op(name, x):
    simple = {
        'mean': np.mean, 'sum': np.sum, 'max': np.max, 'min': np.min, 'std': np.std, 'var': np.var, 'prod': np.prod,
        'argmax': np.argmax, 'all': np.all, 'any': np.any, 'cumsum': np.cumsum, 'sort': np.sort, 'ravel': np.ravel,
        'transpose': np.transpose, 'sqrt': lambda a: np.sqrt(np.abs(a)), 'sin': np.sin, 'square': np.square,
        'isfinite': np.isfinite, 'copy': np.copy, 'lnorm': np.linalg.norm,
    }
    if name in simple:
        return simple[name](x)
    return {
        'tolist': lambda: x.tolist(),
        'astype_f4': lambda: x.astype('f4'),
        'astype_i8': lambda: x.astype('i8'),
        'clip': lambda: np.clip(x, -1, 1),
        'reshape': lambda: x.reshape(-1),
        'divmod': lambda: np.divmod(x, 2),
        'multiply_outer': lambda: np.multiply.outer(x, x),
        'where': lambda: np.where(x > 0, x, 0),
        'vstack': lambda: np.vstack([x, x]),
        'concatenate': lambda: np.concatenate([x, x]),
        'mean_axis': lambda: x.mean(axis=0),
        'einsum': lambda: np.einsum('...i,...i->...', x, x),
        'linspace': lambda: np.linspace(x, x + 1, 3),
    }[name]()


def _py_op(name, x, args):
    y = args[0] if args else None
    return {
        'self': lambda: x,
        'repr': lambda: repr(x),
        'str': lambda: str(x),
        'add': lambda: x + y,
        'sub': lambda: x - y,
        'radd': lambda: y + x,
        'mul': lambda: x * y,
        'rmul': lambda: y * x,
        'truediv': lambda: x / y,
        'neg': lambda: -x,
        'abs': lambda: abs(x),
        'eq': lambda: x == y,
        'eq_self': lambda: x == x,
        'pow2': lambda: x**2,
        'iter': lambda: list(x),
        'len': lambda: len(x),
        'getitem0': lambda: x[0],
        'slice': lambda: x[::-1][:2],
        'matmul': lambda: x @ np.transpose(y),
        'copy': lambda: copy.copy(x),
        'deepcopy': lambda: copy.deepcopy(x),
        'pickle': lambda: pickle.loads(pickle.dumps(x, 5)),
        'hash': lambda: hash(x) and None,
        'bool': lambda: bool((x == x).all()),
    }[name]()


def prepare(op, pool):
    """Operands of an operation, built or looked up: (receiver, arguments, keywords)."""
    recv = build(op['r'], pool) if 'r' in op else None
    args = [build(a, pool) for a in op.get('a', ())]
    kw = {k: build(v, pool) for k, v in op.get('kw', {}).items()}
    return recv, args, kw


def call(op, recv, args, kw):
    """Perform the operation."""
    import skspatial.objects as objects

    form, name = op['f'], op['n']
    if form == 'm':
        return getattr(recv, name)(*args, **kw)
    if form == 'new':
        return getattr(objects, name)(*args, **kw)
    if form == 'cm':
        return getattr(getattr(objects, op['c']), name)(*args, **kw)
    if form == 'fn':
        module, _, attr = name.rpartition('.')
        import importlib

        return getattr(importlib.import_module(module), attr)(*args, **kw)
    if form == 'plotter':
        return recv.plotter(**kw)(*args)
    if form == 'get':
        return getattr(recv, name)
    if form == 'py':
        return _py_op(name, recv, args)
    if form == 'np':
        return _np_op(name, recv)
    if form == 'figure':
        import matplotlib.pyplot as plt
        import skspatial.plotting as plotting

        fig, ax = getattr(plotting, name)(*[x.plotter(**kw) for x in args])
        try:
            return [ax.name, len(ax.lines), len(ax.collections), len(ax.patches), len(ax.texts)]
        finally:
            plt.close(fig)
    if form == 'multi':
        return args[0].multiple(name, kw['inputs'])
    if form == 'write':
        return change(recv, op['step'])
    if form == 'sattr':
        return setattr(recv, name, args[0])
    raise ValueError(form)


def describe(op):
    def spec(s):
        k = s['k']
        if k == 'ref':
            return '.'.join([s['n'], *s.get('path', ())])
        if k == 'obj':
            return f'{"My" if s.get("sub") else ""}{s["c"]}({", ".join(spec(a) for a in s["a"])})'
        if k == 'arr':
            return f'{"My" if s.get("sub") else ""}{s.get("c", "ndarray")}<{s.get("dt")}{"," + s["lay"] if "lay" in s else ""}>({s["v"]})'
        if k == 'many':
            return f'[{", ".join(spec(a) for a in s["v"])}]'
        if k == 'lazy':
            return f'Lazy({s["v"]})'
        return repr(s.get('v'))

    if op['f'] == 'write':
        return f'in-place change {op["step"]}'
    inside = ', '.join([spec(a) for a in op.get('a', ())] + [f'{k}={spec(v)}' for k, v in op.get('kw', {}).items()])
    if op['f'] in ('m', 'np', 'py', 'get', 'plotter'):
        return f'{spec(op["r"])}.{op["n"]}({inside})'
    return f'{op.get("c", "") + "." if op.get("c") else ""}{op["n"]}({inside})'
