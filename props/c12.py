"""C12: plotting touches only the axes it is given; plotters are reusable."""

import dataclasses
import json
import os
import sys

import numpy as np

from sim import catalog, scenario
from sim.driver import Property, thread_candidates
from sim.engine import Sim
from sim.values import Broken, build, enc, fingerprint, names_in, same, show

from .common import draw_policy


class BackendError(Exception):
    """A drawing failure of the backend."""


KINDS = {'BackendError': BackendError, 'RuntimeError': RuntimeError, 'ValueError': ValueError, 'OSError': OSError,
         'MemoryError': MemoryError, 'KeyboardInterrupt': KeyboardInterrupt, 'AttributeError': AttributeError,
         'TypeError': TypeError, 'ImportError': ImportError}
METHODS = ('plot', 'scatter', 'plot_surface', 'add_patch', 'add_artist', 'arrow', 'plot_wireframe', 'quiver', 'add_collection',
           'add_line', 'plot_trisurf')
SLOTS = {'a0': 2, 'a1': 2, 'b0': 3, 'b1': 3, 'c0': 2, 'd0': 3, 'e0': 2}


# --------------------------------------------------------------------------------------------------------------
# What can be seen of artists, axes and figures.

def _plain(x):
    if isinstance(x, np.ma.MaskedArray):
        x = x.filled(np.nan)
    if isinstance(x, np.ndarray) or np.isscalar(x) or x is None:
        return np.array(x, dtype=float) if isinstance(x, np.ndarray) and x.dtype.kind in 'iufb' else x
    if isinstance(x, (list, tuple)):
        return tuple(_plain(y) for y in x)
    return x if isinstance(x, (str, int, float)) else type(x).__name__


# The other getters of 3D collections project them with the view of the moment and sort them by depth.
PLAIN = ('get_data_3d', 'get_zorder', 'get_visible', 'get_label', 'get_text', 'get_marker', 'get_linestyle', 'get_linewidth')


def artist_print(artist, ax):
    out = [type(artist).__name__, artist.axes is ax, artist.get_figure() is ax.figure]
    solid = hasattr(artist, 'do_3d_projection')
    for name in PLAIN if solid else ('get_xydata', 'get_offsets', 'get_sizes', 'get_data_3d', 'get_center', 'get_radius', 'get_fill', 'get_xy',
                 'get_color', 'get_facecolor', 'get_edgecolor', 'get_linewidth', 'get_linestyle', 'get_marker', 'get_alpha',
                 'get_zorder', 'get_visible', 'get_label', 'get_text', 'get_position', 'get_segments'):
        method = getattr(artist, name, None)
        if method is None:
            continue
        try:
            value = method()
        except Exception as error:
            value = type(error).__name__
        if name == 'get_label' and isinstance(value, str) and value.startswith('_'):
            continue
        out.append((name, enc(_plain(value))))
    for name in ('_offsets3d', '_vec', '_facecolor3d', '_edgecolor3d', '_verts3d', '_sizes3d', '_linewidths3d', '_color', '_alpha'):
        if name in vars(artist):
            out.append((name, enc(_plain(vars(artist)[name]))))
    return tuple(out)


def axes_print(ax):
    out = [type(ax).__name__]
    out.append(tuple(artist_print(a, ax) for a in ax._children))
    for name in ('get_xlim', 'get_ylim', 'get_zlim', 'get_title', 'get_xlabel', 'get_ylabel', 'get_aspect', 'get_xscale',
                 'get_visible', 'get_autoscale_on'):
        method = getattr(ax, name, None)
        if method is not None:
            out.append((name, enc(_plain(method()))))
    out.append(ax.get_legend() is not None)
    out.append(enc(_plain(ax.get_position().bounds)))
    return tuple(out)


def figure_print(fig):
    return (
        len(fig.axes), len(fig.texts), len(fig.patches), len(fig.lines), len(fig.images), len(fig.artists), len(fig.legends),
        fig._suptitle is None, enc(_plain(fig.get_size_inches())), fig.get_dpi(), *map(witness_print, fig.axes),
    )


def witness_print(ax):
    """What drawing on axes that share their x axis with these may not change."""
    if ax.get_label() != 'witness':
        return None
    # Its limits are not read: that would make matplotlib settle those of its siblings.
    return tuple(artist_print(a, ax) for a in ax._children), enc(_plain(ax.dataLim.bounds))


class Stage:
    """The figures of a run. Made once in the zygote; every run gets its own copy by fork."""

    def __init__(self):
        import matplotlib.pyplot as plt
        from matplotlib.backends.backend_agg import FigureCanvasAgg
        from matplotlib.figure import Figure

        self.axes = {}
        a, (self.axes['a0'], self.axes['a1']) = plt.subplots(1, 2)
        b = plt.figure()
        self.axes['b0'] = b.add_subplot(121, projection='3d')
        self.axes['b1'] = b.add_subplot(122, projection='3d')
        c, d = Figure(), Figure()
        FigureCanvasAgg(c), FigureCanvasAgg(d)
        self.axes['c0'] = c.add_subplot(121)
        witness = c.add_subplot(122, sharex=self.axes['c0'], label='witness')
        witness.plot([0, 1], [0, 1])
        # Room that the owner wants, beyond what is drawn.
        witness.update_datalim([(5, 5), (-2, 1)])
        self.axes['d0'] = d.add_subplot(projection='3d')
        self.other = plt.figure()
        self.axes['e0'] = self.other.add_subplot()
        self.figures = {'a': a, 'b': b, 'c': c, 'd': d, 'e': self.other}

    def current(self):
        from matplotlib._pylab_helpers import Gcf

        manager = Gcf.get_active()
        if manager is None:
            return None
        fig = manager.canvas.figure
        stack = fig._axstack.current()
        return (manager.num, None if stack is None else fig.axes.index(stack))

    def numbers(self):
        import matplotlib.pyplot as plt

        return plt.get_fignums()


@dataclasses.dataclass
class Mark:
    """A plotter of the caller's own: a callable that cannot be hashed."""

    text: str
    dim: int
    calls: list

    def __call__(self, ax):
        self.calls.append((('mark', self.text), ax))
        ax.text(*[0] * self.dim, self.text)


OWN = {
    'line': lambda ax: ax.plot(*[[0, 2]] * ax.dim, color='g'),
    'lines': lambda ax: [ax.plot(*[[-1, k]] * ax.dim) for k in range(3)],
    'dots': lambda ax: ax.scatter(*[[1, 2, 3]] * ax.dim),
    'text': lambda ax: ax.text(*[1] * ax.dim, 'note'),
    'limits': lambda ax: (ax.set_xlim(-3, 50), ax.set_ylim(7, -7)),
    'fixed': lambda ax: (ax.get_xlim(), ax.get_ylim(), ax.autoscale(False)),
    'invert': lambda ax: ax.invert_xaxis(),
    'title': lambda ax: (ax.set_title('t'), ax.set_xlabel('x'), ax.grid(True)),
    'colours': lambda ax: ax.set_prop_cycle(color=['r', 'k']),
    'aspect': lambda ax: ax.set_aspect('equal'),
    'off': lambda ax: ax.set_axis_off(),
    'clear': lambda ax: ax.cla(),
    'name': lambda ax: ax.set_label('_mine'),
    'hide': lambda ax: ax.set_visible(False),
}


def own(what, ax):
    """Something the owner of the axes does to them."""
    try:
        OWN[what](ax)
    except Exception:  # matplotlib's own limits
        pass


NOTED = ('set_aspect', 'set_box_aspect', 'set_xlim', 'set_ylim', 'set_zlim', 'set_xlabel', 'set_ylabel', 'set_title', 'set_label',
         'set_visible', 'set_zorder', 'set_axis_off', 'set_axis_on', 'set_xticks', 'set_yticks', 'set_prop_cycle', 'set_xscale',
         'set_yscale', 'set_facecolor', 'set_position', 'set_autoscale_on', 'set_xbound', 'set_ybound', 'autoscale', 'margins', 'grid',
         'legend', 'invert_xaxis', 'invert_yaxis', 'axis', 'relim', 'update_datalim', 'cla', 'clear', 'remove', 'view_init')


class Faulty:
    """Notes the calls of the drawing methods of one axes; makes the n-th one fail."""

    def __init__(self, ax, faults):
        self.n = 0
        self.faults = {f['at']: f['kind'] for f in faults}
        self.raised = []
        self.inside = False
        self.calls = []
        if ax is not None:
            ax.dim = 3 if ax.name == '3d' else 2
            for name in METHODS:
                if hasattr(ax, name):
                    setattr(ax, name, self.wrap(getattr(ax, name), name))
            for name in NOTED:
                if hasattr(ax, name):
                    setattr(ax, name, self.note(getattr(ax, name), name))

    def note(self, method, name):
        """A method that is no drawing: its calls are noted, and do not fail."""
        def setting(*args, **kwargs):
            # Matplotlib settles limits by itself when somebody reads them.
            by = sys._getframe(1).f_globals.get('__name__', '')
            if not self.inside and not by.startswith(('matplotlib', 'mpl_toolkits')):
                self.calls.append((name, enc(_plain(list(args))), enc(_plain(sorted(kwargs.items())))))
            before, self.inside = self.inside, True
            try:
                return method(*args, **kwargs)
            finally:
                self.inside = before

        setting.__name__ = name
        return setting

    def wrap(self, method, name):
        def drawing(*args, **kwargs):
            if self.inside:  # matplotlib calling itself
                return method(*args, **kwargs)
            self.n += 1
            self.calls.append((name, enc(_plain(list(args))), enc(_plain(sorted(kwargs.items())))))
            kind = self.faults.get(self.n)
            if kind is not None:
                error = KINDS[kind](f'injected in {name}')
                self.raised.append(error)
                raise error
            self.inside = True
            try:
                return method(*args, **kwargs)
            finally:
                self.inside = False

        drawing.__name__ = name
        return drawing


def chain(error):
    seen = []
    while error is not None and error not in seen:
        seen.append(error)
        error = error.__cause__ or error.__context__
    return seen


def draw(op, pool, ax, plotter=None):
    """Draw by method, by a plotter made for the occasion, or by the one given."""
    if plotter is not None:
        return plotter(ax)
    plain = dict(op, a=[a for a in op['a'] if a['k'] != 'axes'])
    recv, args, kw = catalog.prepare(plain, pool)
    if op['f'] == 'plotter':
        return recv.plotter(**kw)(ax)
    return getattr(recv, op['n'])(ax, *args, **kw)


def make_plotter(op, pool):
    plain = dict(op, a=[a for a in op['a'] if a['k'] != 'axes'])
    recv, _, kw = catalog.prepare(plain, pool)
    return recv.plotter(**kw)


class Prop(Property):
    id = 'C12'
    focus_families = ()
    plotting = True
    runs = {'quick': 3600, 'thorough': 100_000}
    budget = {'quick': 160, 'thorough': 1800}
    real = 'skspatial, NumPy, matplotlib (Agg) with real figures and axes'
    stubs = 'thread scheduling; failures of drawing methods'
    rule = (
        'A run is 3-16 drawing steps on 1-3 threads over 7 existing axes in 5 figures (2D and 3D, with and without a pyplot '
        'manager): plot methods, plotters made once and called again and again on different axes, plot_2d()/plot_3d() with '
        '0-4 plotters, changes the owner makes to the axes (own artists, limits, colour cycle, clearing), switches of the current '
        'figure and axes, figures opened and closed in between, drawing methods and '
        'plotters that fail. Every axes is compared, artist by artist, with what the same drawing calls put there when made '
        'alone in a pristine process, every drawing call with those the same method makes on empty axes; untouched figures and pyplot state must be as before. Non-trivial: at least one artist '
        'was drawn.'
    )

    def setup(self):
        self.stage = Stage()
        self.memo = {}

    # -- generation ---------------------------------------------------------------------------------------------

    def generate(self, ctx, rng, index, tier):
        dim = rng.choice((2, 3))
        plots = {d: sorted({id(t): t for t in catalog.usable(d, ('plot',))}.values(), key=lambda t: t.label) for d in (2, 3)}
        every = [(d, t) for d in (2, 3) for t in plots[d]]
        dim, first = every[index % len(every)]
        gen = catalog.Gen(rng, dim=dim, n_pool=rng.randint(1, 3), shared=0.9)
        ops = [gen.fill(first)] + [gen.fill(rng.choice(plots[dim])) for _ in range(rng.choice((0, 1, 2, 4)))]
        slots = sorted(s for s in SLOTS if SLOTS[s] == dim)
        n_threads = rng.choice((1, 1, 1, 2, 3))
        wrong = sorted(s for s in SLOTS if SLOTS[s] != dim)
        threads = []
        for t in range(n_threads):
            mine = slots[t::n_threads] if n_threads > 1 else list(slots)
            if n_threads == 1 and rng.random() < 0.1:
                mine += wrong
            steps = []
            for _ in range(rng.choice((2, 4, 8, 12))):
                roll = rng.random()
                if roll < 0.62 and mine:
                    k = rng.randrange(len(ops))
                    steps.append({'do': 'draw', 'k': k, 'ax': rng.choice(mine),
                                  'reuse': bool(rng.random() < 0.6)})
                    if rng.random() < 0.2:
                        steps.insert(-1, {'do': 'own', 'what': rng.choice(sorted(OWN)), 'ax': steps[-1]['ax']})
                elif roll < 0.76:
                    plotters = []
                    for _ in range(rng.choice((0, 1, 2, 3, 4))):
                        if rng.random() < 0.12:
                            plotters.append({'mark': rng.choice('xyz')})
                        elif rng.random() < 0.08:
                            plotters.append({'boom': rng.choice(sorted(KINDS))})
                        else:
                            plotters.append({'k': rng.randrange(len(ops))})
                    if plotters and rng.random() < 0.25:
                        plotters.insert(rng.randrange(len(plotters) + 1), rng.choice(plotters))
                    steps.append({'do': 'figure', 'd': dim if rng.random() < 0.95 else 5 - dim, 'plotters': plotters})
                elif n_threads > 1 and t > 0:
                    continue
                elif roll < 0.9:
                    steps.append({'do': 'switch', 'to': rng.choice(('a0', 'a1', 'b0', 'b1', 'e0'))})
                elif roll < 0.95:
                    steps.append({'do': 'open', 'n': rng.choice((1, 1, 1, 1, 1, 8, 18, 24))})
                else:
                    steps.append({'do': 'close'})
            threads.append(steps)
        faults = []
        if rng.random() < 0.35:
            for _ in range(rng.choice((1, 1, 2))):
                faults.append({'ax': rng.choice(slots), 'at': rng.choice((1, 1, 2, 3, 4, 6)), 'kind': rng.choice(sorted(KINDS))})
        return {'pool': gen.pool, 'ops': ops, 'threads': threads, 'faults': [], 'drawing_faults': faults,
                'policy': draw_policy(rng, n_threads)}

    # -- execution ----------------------------------------------------------------------------------------------

    def execute(self, scn):
        import warnings

        import matplotlib
        import matplotlib.pyplot as plt

        sys.stderr = open(os.devnull, 'w')
        warnings.simplefilter('ignore')
        stage = self.stage
        pool = {n: build(s) for n, s in scn['pool'].items()}
        plotters = {}
        for k, op in enumerate(scn['ops']):
            try:
                plotters[k] = make_plotter(op, pool)
            except Exception:
                plotters[k] = None
        faulty = {s: Faulty(stage.axes[s], [f for f in scn['drawing_faults'] if f['ax'] == s]) for s in SLOTS}
        operands = {n: fingerprint(x) for n, x in pool.items()}
        start = {f: figure_print(fig) for f, fig in stage.figures.items()}
        rc = dict(matplotlib.rcParams)
        found = []
        history = {s: [] for s in SLOTS}
        figures = []
        single = len(scn['threads']) == 1
        counts = {'artists': 0, 'figures': 0, 'draws': 0}
        opened = []
        mine = set(stage.numbers())
        failed = [0]

        sim = Sim(seed=scn['seed'], segments=scn.get('segments'), policy=scn.get('policy'), step_cap=400_000)

        def outcome(fn, faults):
            """Runs fn; says whether an injected error that was raised meanwhile reached the caller."""
            before = [len(f.raised) for f in faults]
            try:
                value = fn()
            except BaseException as error:
                result, caught = ('raise', enc(error)), error
                value = None
            else:
                result, caught = ('ret', None), None
            for f, n in zip(faults, before):
                for injected in f.raised[n:]:
                    if injected not in chain(caught):
                        found.append(('error-lost', f'an error of the backend ({type(injected).__name__}) did not reach the '
                                                    f'caller: {result[0]} {show(result)}'))
            return result, value

        def step_draw(t, k, step):
            s = step['ax']
            plotter = plotters[step['k']] if step['reuse'] else None
            others = {o: axes_print(a) for o, a in stage.axes.items() if o != s} if single else None
            before = (stage.numbers(), stage.current()) if single else None
            counts['draws'] += 1
            drawn = len(faulty[s].calls)
            t.busy = False
            result, _ = outcome(lambda: draw(scn['ops'][step['k']], pool, stage.axes[s], plotter), [faulty[s]])
            t.busy = True
            history[s].append((step['k'], plotter is not None, result, tuple(faulty[s].calls[drawn:])))
            if single:
                if (stage.numbers(), stage.current()) != before:
                    found.append(('pyplot-state', f'step {k}: drawing on {s} changed the pyplot figures from {before} to '
                                                  f'{(stage.numbers(), stage.current())}'))
                for o, a in stage.axes.items():
                    if o != s and axes_print(a) != others[o]:
                        found.append(('other-axes', f'step {k}: drawing on {s} changed the axes {o}'))

        def step_figure(t, k, step):
            from skspatial.plotting import plot_2d, plot_3d

            calls = []
            booms = Faulty(None, ())
            functions = []
            expected = []
            made = {}
            for spec in step['plotters']:
                if 'mark' in spec:
                    expected.append(('mark', spec['mark']))
                    functions.append(Mark(spec['mark'], step['d'], calls))
                elif 'boom' in spec:
                    def boom(ax, kind=spec['boom']):
                        error = KINDS[kind]('injected in a plotter')
                        booms.raised.append(error)
                        raise error

                    functions.append(boom)
                elif plotters[spec['k']] is not None:
                    # The same plotter given twice is the same function both times.
                    if spec['k'] not in made:
                        def call(ax, k=spec['k'], plotter=plotters[spec['k']]):
                            calls.append((('k', k), ax))
                            return plotter(ax)

                        made[spec['k']] = call
                    expected.append(('k', spec['k']))
                    functions.append(made[spec['k']])
            before = set(stage.numbers())
            prints = {o: axes_print(a) for o, a in stage.axes.items()} if single else None
            t.busy = False
            result, value = outcome(lambda: (plot_2d if step['d'] == 2 else plot_3d)(*functions), [booms])
            t.busy = True
            new = set(stage.numbers()) - before
            counts['figures'] += 1
            if value is None:
                failed[0] += 1
                figures.append((step, result, None))
                return
            if not (isinstance(value, tuple) and len(value) == 2):
                found.append(('bad-figure', f'step {k}: plot_{step["d"]}d returned {type(value).__name__}'))
                return
            fig, ax = value
            number = getattr(fig, 'number', None)
            if single and new != {number}:
                found.append(('bad-figure', f'step {k}: plot_{step["d"]}d made the figures {sorted(new)} and returned {number}'))
            if number in mine or fig in stage.figures.values():
                found.append(('bad-figure', f'step {k}: plot_{step["d"]}d drew on an existing figure'))
            mine.add(number)
            if fig.axes != [ax]:
                found.append(('bad-figure', f'step {k}: the figure has {len(fig.axes)} axes'))
            if any(a is not ax for _, a in calls):
                found.append(('bad-figure', f'step {k}: a plotter got other axes than the returned ones'))
            order = [i for i, _ in calls]
            if order != expected:
                found.append(('bad-figure', f'step {k}: the plotters {expected} were called in the order {order}'))
            figures.append((step, result, axes_print(ax)))
            counts['artists'] += len(ax._children)
            if single:
                for o, a in stage.axes.items():
                    if axes_print(a) != prints[o]:
                        found.append(('other-axes', f'step {k}: plot_{step["d"]}d changed the axes {o}'))

        def main(steps):
            def fn(t):
                for k, step in enumerate(steps):
                    sim.tick(k)
                    act = sim.enter(t, (k,))
                    assert act
                    t.busy = True
                    try:
                        if step['do'] == 'draw':
                            step_draw(t, k, step)
                        elif step['do'] == 'own':
                            faulty[step['ax']].inside = True
                            own(step['what'], stage.axes[step['ax']])
                            faulty[step['ax']].inside = False
                            history[step['ax']].append((step['what'], None, ('ret', None), ()))
                        elif step['do'] == 'figure':
                            step_figure(t, k, step)
                        elif step['do'] == 'switch':
                            plt.sca(stage.axes[step['to']])
                        elif step['do'] == 'open':
                            for _ in range(step.get('n', 1)):
                                opened.append(plt.figure())
                                mine.add(opened[-1].number)
                        elif step['do'] == 'close' and opened:
                            gone = opened.pop(0)
                            mine.discard(gone.number)
                            plt.close(gone)
                    finally:
                        t.busy = False
                        sim.leave(t)
            return fn

        if single:
            sim.run_inline(0, main(scn['threads'][0]))
        else:
            for t, steps in enumerate(scn['threads']):
                sim.spawn(t, main(steps))
            sim.run()
        if sim.deadlock:
            found.append(('deadlock', 'a thread waits for a lock that nobody will release'))
        if sim.overrun:
            found.append(('livelock', f'not finished after {sim.steps} steps'))
        extra = set(stage.numbers()) - mine
        if len(extra) > failed[0] or mine - set(stage.numbers()):
            found.append(('pyplot-state', f'the pyplot figures at the end are {stage.numbers()}, expected {sorted(mine)} and at '
                                          f'most {failed[0]} more'))
        for n, x in pool.items():
            if fingerprint(x) != operands[n]:
                found.append(('object-changed', f'{n} was {operands[n]!r:.200}, is {fingerprint(x)!r:.200}'))
        for f, fig in stage.figures.items():
            if figure_print(fig) != start[f]:
                found.append(('figure-changed', f'figure {f} was {start[f]}, is {figure_print(fig)}'))
        if dict(matplotlib.rcParams) != rc:
            found.append(('figure-changed', 'matplotlib settings changed'))
        counts['artists'] += sum(len(a._children) for a in stage.axes.values())
        return {
            'found': found, 'history': history, 'axes': {s: axes_print(a) for s, a in stage.axes.items()}, 'figures': figures,
            'segments': sim.segments, 'steps': sim.steps, 'switches': sim.switches, 'counts': counts,
            'fired': [type(e).__name__ for f in faulty.values() for e in f.raised],
            'hash': hash((sim.h, repr(history), repr(figures))), 'log': [repr(history)],
            'broken': sorted(n for n, x in pool.items() if isinstance(x, Broken)),
        }

    # -- judgement ----------------------------------------------------------------------------------------------

    def solo_axes(self, scn, slot, sequence, faults=True):
        """The drawing calls alone in a pristine process: their outcomes and the axes they leave."""
        ops = [scn['ops'][k] if p is not None else k for k, p in sequence]
        faults = [f for f in scn['drawing_faults'] if f['ax'] == slot] if faults else []
        pool = {n: scn['pool'][n] for n in sorted(names_in(ops))}
        key = json.dumps([slot, ops, [p for _, p in sequence], faults, pool], sort_keys=True)

        def body():
            import warnings

            import matplotlib.pyplot as plt

            sys.stderr = open(os.devnull, 'w')
            warnings.simplefilter('ignore')
            ax = self.stage.axes[slot]
            if ax.figure.canvas.manager is not None:
                plt.sca(ax)
            objects = {n: build(s) for n, s in pool.items()}
            faulty = Faulty(ax, faults)
            outcomes = []
            for op, (_, by_plotter) in zip(ops, sequence):
                if by_plotter is None:
                    faulty.inside = True
                    own(op, ax)
                    faulty.inside = False
                    outcomes.append(('ret', None))
                    continue
                try:
                    draw(op, objects, ax, make_plotter(op, objects) if by_plotter else None)
                except BaseException as error:
                    outcomes.append(('raise', enc(error)))
                else:
                    outcomes.append(('ret', None))
            return outcomes, axes_print(ax), tuple(faulty.calls)

        return self.solo(key, body)

    def solo_figure(self, scn, step):
        ops = [scn['ops'][p['k']] for p in step['plotters'] if 'k' in p]
        pool = {n: scn['pool'][n] for n in sorted(names_in(ops))}
        key = json.dumps([step, ops, pool], sort_keys=True)

        def body():
            import warnings

            import matplotlib.pyplot as plt

            sys.stderr = open(os.devnull, 'w')
            warnings.simplefilter('ignore')
            objects = {n: build(s) for n, s in pool.items()}
            plt.close('all')
            ax = plt.figure().add_subplot(projection='3d') if step['d'] == 3 else plt.subplots()[1]
            try:
                for p in step['plotters']:
                    if 'mark' in p:
                        ax.text(*[0] * step['d'], p['mark'])
                    elif 'boom' in p:
                        raise KINDS[p['boom']]('injected in a plotter')
                    else:
                        try:
                            plotter = make_plotter(scn['ops'][p['k']], objects)
                        except Exception:
                            continue
                        plotter(ax)
            except BaseException as error:
                return ('raise', enc(error)), None
            return ('ret', None), axes_print(ax)

        return self.solo(key, body)

    def solo(self, key, body):
        if key not in self.memo:
            if len(self.memo) > 3000:
                self.memo.clear()
            self.memo[key] = scenario.forked(body)
        return self.memo[key]

    def judge(self, ctx, scn, result):
        out = list(result['found'])
        if result['broken']:
            return [v for v in out if v[0] in ('deadlock', 'livelock', 'pyplot-state', 'other-axes', 'figure-changed')]
        for slot, history in result['history'].items():
            outcomes, axes, _ = self.solo_axes(scn, slot, [(k, p) for k, p, _, _ in history])
            for i, ((k, p, got, calls), expected) in enumerate(zip(history, outcomes)):
                if p is not None and got[0] == 'ret' and i:
                    alone, _, wanted = self.solo_axes(scn, slot, [(k, p)], False)
                    if alone[0][0] == 'ret' and calls != wanted and not same(('tuple', calls), ('tuple', wanted)):
                        out.append(('wrong-drawing', f'drawing {i} on {slot}, {catalog.describe(scn["ops"][k])}, makes the calls '
                                                     f'{calls!r:.300}; on empty axes: {wanted!r:.300}'))
                if got != expected and not same(got, expected):
                    out.append(('wrong-outcome', f'drawing {i} on {slot}, {catalog.describe(scn["ops"][k])}: {show(got)}; alone: '
                                                 f'{show(expected)}'))
            got = result['axes'][slot]
            if got != axes and not same_print(got, axes):
                calls = [k if p is None else catalog.describe(scn['ops'][k]) + (' by a plotter' if p else '')
                         for k, p, _, _ in history]
                out.append(('wrong-drawing', f'axes {slot} after {calls}: {difference(got, axes)}'))
        for step, got, axes in result['figures']:
            expected, drawn = self.solo_figure(scn, step)
            if got != expected and not same(got, expected):
                out.append(('wrong-outcome', f'plot_{step["d"]}d of {step["plotters"]}: {show(got)}; the plotters alone: '
                                             f'{show(expected)}'))
            elif axes != drawn and not same_print(axes, drawn):
                out.append(('wrong-drawing', f'plot_{step["d"]}d of {step["plotters"]}: {difference(axes, drawn)}'))
        return out

    def nontrivial(self, scn, result):
        return result['counts']['artists'] > 0

    def measures(self, scn, result):
        kinds = {}
        for steps in scn['threads']:
            for s in steps:
                kinds[s['do']] = kinds.get(s['do'], 0) + 1
        fired = {}
        for name in result['fired']:
            fired[name] = fired.get(name, 0) + 1
        booms = sum(1 for steps in scn['threads'] for s in steps for p in s.get('plotters', ()) if 'boom' in p)
        if booms:
            fired['plotter that raises'] = booms
        return {'steps': result['steps'], 'context_switches': result['switches'], 'history_steps': kinds,
                'artists_compared': result['counts']['artists'], 'figures_made': result['counts']['figures'],
                'faults_injected': fired, 'threads': {str(len(scn['threads'])): 1}}

    def candidates(self, scn):
        yield from thread_candidates(dict(scn))
        for i in range(len(scn['drawing_faults'])):
            yield dict(scn, drawing_faults=scn['drawing_faults'][:i] + scn['drawing_faults'][i + 1:])


def same_print(a, b):
    return same(('tuple', a), ('tuple', b)) if isinstance(a, tuple) and isinstance(b, tuple) else a == b


def difference(got, want):
    if got is None or want is None or got[0] != want[0]:
        return f'{got!r:.200} instead of {want!r:.200}'
    if len(got[1]) != len(want[1]):
        return f'{len(got[1])} artists {[a[0] for a in got[1]]} instead of {len(want[1])} {[a[0] for a in want[1]]}'
    for i, (x, y) in enumerate(zip(got[1], want[1])):
        if x != y:
            parts = [(p, q) for p, q in zip(x, y) if p != q]
            return f'artist {i} ({x[0]}) has {parts[0][0]!r:.250} instead of {parts[0][1]!r:.250}'
    for x, y in zip(got[2:], want[2:]):
        if x != y:
            return f'{x!r:.200} instead of {y!r:.200}'
    return 'equal'
