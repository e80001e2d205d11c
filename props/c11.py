"""C11: the core works without matplotlib; plotting recovers once it appears."""

import builtins
import copy
import importlib
import importlib.machinery
import importlib.util
import json
import os
import sys

from sim import catalog, scenario
from sim.driver import Property
from sim.fakes import make_axes
from sim.values import Broken, build, enc, fingerprint, names_in, same, show

ROOTS = ('matplotlib', 'mpl_toolkits', 'pylab')
SUBMODULES = ('matplotlib', 'matplotlib.pyplot', 'matplotlib.axes', 'mpl_toolkits', 'mpl_toolkits.mplot3d')
NEEDED = SUBMODULES
MODULES = (
    'skspatial', 'skspatial.objects', 'skspatial.measurement', 'skspatial.transformation', 'skspatial.typing',
    'skspatial._functions', 'skspatial.objects.point', 'skspatial.objects.vector', 'skspatial.objects.points',
    'skspatial.objects.line', 'skspatial.objects.plane', 'skspatial.objects.circle', 'skspatial.objects.sphere',
    'skspatial.objects.cylinder', 'skspatial.objects.triangle', 'skspatial.objects.line_segment',
    'skspatial.objects._base_array', 'skspatial.objects._base_spatial',
)
PARTIAL = ('mpl_toolkits.mplot3d', 'mpl_toolkits.mplot3d', 'mpl_toolkits', 'matplotlib.axes')
ONE_SHOT = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError, 'ImportError': ImportError}


def foreign(name):
    return name.split('.')[0] in ROOTS


class Stash:
    """matplotlib, loaded once in the zygote and taken out of sys.modules: importing it again is instant."""

    def __init__(self):
        self.modules = {}

    def fill(self):
        import matplotlib

        matplotlib.use('Agg')
        import matplotlib.pyplot
        import mpl_toolkits.mplot3d  # noqa: F401

        for name in list(sys.modules):
            if foreign(name):
                self.modules[name] = sys.modules.pop(name)
        # What importing sets, importing must be seen to set (nothing inside matplotlib uses these two).
        del self.modules['matplotlib'].pyplot
        del self.modules['mpl_toolkits'].mplot3d


def fixtures():
    """Entries of sys.modules that no installation of matplotlib put there."""
    return [f'{n}: {"None" if m is None else type(m).__name__}' for n, m in list(sys.modules.items())
            if foreign(n) and getattr(m, '__spec__', None) is None]


class World:
    """The simulated installation: which modules of matplotlib can be imported now."""

    def __init__(self, stash):
        self.stash = stash
        self.blocked = {}  # module name -> 'missing', 'broken' or 'partial' (loads, but what it should define is not there)
        self.shot = None  # (module name, exception name): raised once when that module is executed
        self.injected = []
        self.attempts = []
        self.refusals = 0

    def state_of(self, name):
        parts = name.split('.')
        for i in range(1, len(parts) + 1):
            prefix = '.'.join(parts[:i])
            if prefix in self.blocked:
                return self.blocked[prefix]
        return 'present'

    # The finder interface.
    def find_spec(self, name, path=None, target=None):
        if not foreign(name):
            return None
        state = self.state_of(name)
        if state == 'missing':
            self.refusals += 1
            return None
        if state == 'partial' and name not in self.blocked:
            self.refusals += 1
            return None
        if state in ('broken', 'partial') or name in self.stash.modules or (self.shot and self.shot[0] == name):
            spec = importlib.machinery.ModuleSpec(name, self, origin='simulated')
            module = self.stash.modules.get(name)
            if module is not None and hasattr(module, '__path__'):
                spec.submodule_search_locations = list(module.__path__)
            return spec
        return None

    # The loader interface.
    def create_module(self, spec):
        return self.stash.modules.get(spec.name) if self.state_of(spec.name) == 'present' else None

    def exec_module(self, module):
        name = module.__spec__.name
        self.attempts.append(name)
        if self.shot and self.shot[0] == name:
            error = ONE_SHOT[self.shot[1]](f'injected while importing {name}')
            self.shot = None
            self.injected.append(error)
            raise error
        if self.state_of(name) == 'broken':
            self.refusals += 1
            raise ImportError(f'simulated: {name} cannot be loaded')
        if self.state_of(name) == 'partial':
            self.refusals += 1
            module.simulated_partial = True

    def available(self):
        return not self.shot and all(self.state_of(n) == 'present' and sys.modules.get(n, 1) is not None for n in NEEDED)

    def install(self):
        world = self

        class Paths(importlib.machinery.PathFinder):
            """The ordinary finder, for what is not simulated."""

            @classmethod
            def find_spec(cls, name, path=None, target=None):
                if foreign(name) and world.state_of(name) != 'present':
                    return None
                return importlib.machinery.PathFinder.find_spec(name, path, target)

        sys.meta_path[:] = [self if f is None else f for f in
                            [None] + [Paths if f is importlib.machinery.PathFinder else f for f in sys.meta_path]]
        real_import = builtins.__import__
        real_import_module = importlib.import_module

        def spy_import(name, globals=None, locals=None, fromlist=(), level=0):
            if level == 0 and foreign(name) and (globals or {}).get('__name__', '').split('.')[0] == 'skspatial':
                world.attempts.append(name)
            return real_import(name, globals, locals, fromlist, level)

        def spy_import_module(name, package=None):
            if foreign(name):
                frame = sys._getframe(1)
                if frame.f_globals.get('__name__', '').split('.')[0] == 'skspatial':
                    world.attempts.append(name)
            return real_import_module(name, package)

        builtins.__import__ = spy_import
        importlib.import_module = spy_import_module


class Prop(Property):
    id = 'C11'
    library = False
    runs = {'quick': 4400, 'thorough': 150_000}
    budget = {'quick': 160, 'thorough': 1800}
    real = 'skspatial (imported afresh in every run), NumPy, SciPy, the import system; matplotlib when it is present'
    stubs = 'the installation (which matplotlib modules are found and load); the axes drawn on'
    rule = (
        'A run is one process life of 4-24 steps starting before skspatial is imported: imports of library modules in any '
        'order, core operations, plot attempts on recording axes, imports of skspatial.plotting, and changes of the '
        'installation (matplotlib or one of its submodules missing, broken, half there, blocked in sys.modules, present; one import '
        'interrupted). Core steps must give the reference outcome and never try to load matplotlib; plot attempts must '
        'raise ImportError or draw what they draw when matplotlib is present, and must draw it when it is. Non-trivial: at '
        'least one plot attempt or one core operation while matplotlib was unavailable.'
    )

    def setup(self):
        self.stash = Stash()
        self.stash.fill()
        self.drawn = {}

    # -- generation ---------------------------------------------------------------------------------------------

    def generate(self, ctx, rng, index, tier):
        gen = catalog.Gen(rng, dim=rng.choice((2, 2, 3, 3, 3)), n_pool=rng.randint(0, 3), shared=0.7)
        core = ('query', 'new', 'py', 'np', 'plotter')
        templates = sorted({id(t): t for t in catalog.usable(gen.dim, core)}.values(), key=lambda t: t.label)
        plots = sorted({id(t): t for t in catalog.usable(gen.dim, ('plot',))}.values(), key=lambda t: t.label)
        plot = plots[index % len(plots)]
        first = templates[(index // len(plots)) % len(templates)]
        steps = []
        state = rng.choice(('missing', 'missing', 'broken', 'none', 'partial', 'present'))
        if state != 'present':
            steps.append(self.install_step(rng, state))
        for _ in range(rng.choice((4, 8, 14, 22))):
            roll = rng.random()
            if roll < 0.22:
                steps.append({'do': 'import', 'm': rng.choice(MODULES)})
            elif roll < 0.5:
                t = first if rng.random() < 0.4 else rng.choice(templates)
                if t.cost > 10:
                    continue
                steps.append({'do': 'core', 'op': gen.fill(t)})
            elif roll < 0.72:
                steps.append({'do': 'plot', 'op': gen.fill(plot if rng.random() < 0.5 else rng.choice(plots))})
            elif roll < 0.8:
                steps.append({'do': 'plotting', 'how': rng.choice(('import', 'from', 'import_module'))})
            elif roll < 0.83:
                steps.append({'do': 'figure', 'd': gen.dim, 'n': rng.choice((0, 1, 2))})
            else:
                steps.append(self.install_step(rng, rng.choice(('missing', 'broken', 'none', 'partial', 'present', 'present',
                                                                'once'))))
        steps.append({'do': 'install', 'state': 'present'})
        steps.append({'do': 'plotting', 'how': 'import'})
        steps.append({'do': 'plot', 'op': gen.fill(plot)})
        return {'pool': gen.pool, 'steps': steps}

    def install_step(self, rng, state):
        step = {'do': 'install', 'state': state}
        if state != 'present':
            step['at'] = rng.choice(('matplotlib', 'matplotlib') + SUBMODULES)
        if state == 'partial':
            step['at'] = rng.choice(PARTIAL)
        if state == 'once':
            step['kind'] = rng.choice(sorted(ONE_SHOT))
        return step

    # -- execution ----------------------------------------------------------------------------------------------

    def execute(self, scn):
        import warnings

        sys.stderr = open(os.devnull, 'w')
        warnings.simplefilter('ignore')
        world = World(self.stash)
        world.install()
        out = []
        pool = None
        for step in scn['steps']:
            do = step['do']
            world.attempts = []
            world.injected = []
            before = set(fixtures())
            entry = {'available': world.available(), 'do': do}
            if do == 'install':
                self.change(world, step)
            elif do == 'import':
                try:
                    importlib.import_module(step['m'])
                except BaseException as error:
                    entry['outcome'] = ('raise', enc(error))
            elif do == 'plotting':
                entry['outcome'] = self.attempt(entry, world, lambda: self.import_plotting(step['how']))
            elif do == 'figure':
                entry['outcome'] = self.attempt(entry, world, lambda: self.figure(step))
            else:
                if pool is None:
                    try:
                        for name in ('skspatial.objects', 'skspatial.measurement', 'skspatial.transformation'):
                            importlib.import_module(name)
                    except BaseException as error:
                        entry.update(do='import', outcome=('raise', enc(error)), attempts=list(world.attempts))
                        out.append(entry)
                        break
                    if world.attempts:
                        entry['early'] = list(world.attempts)
                    pool = {n: build(s) for n, s in scn['pool'].items()}
                entry.update(self.operate(world, step['op'], pool, do))
            entry['attempts'] = list(world.attempts)
            if do not in ('install', 'import'):
                entry['left'] = sorted(set(fixtures()) - before)
            out.append(entry)
        return {'steps': out, 'refusals': world.refusals, 'hash': hash(repr(out))}

    @staticmethod
    def attempt(entry, world, fn):
        try:
            value = fn()
        except BaseException as error:
            entry['injected'] = any(error is e for e in world.injected)
            entry['hint'] = 'scikit-spatial[plotting]' in str(error)
            entry['kind'] = 'ImportError' if isinstance(error, ImportError) else type(error).__name__
            return ('raise', enc(error))
        return ('ret', enc(value))

    def change(self, world, step):
        world.blocked.clear()
        world.shot = None
        for name in [n for n, m in sys.modules.items() if m is None and foreign(n)]:
            del sys.modules[name]
        for name in [n for n, m in sys.modules.items() if foreign(n) and 'simulated_partial' in vars(m)]:
            del sys.modules[name]
            parent, _, child = name.rpartition('.')
            if parent in sys.modules:
                vars(sys.modules[parent]).pop(child, None)
        if step['state'] in ('missing', 'broken', 'partial'):
            world.blocked[step['at']] = step['state']
        elif step['state'] == 'none':
            if sys.modules.get(step['at']) is None:
                sys.modules[step['at']] = None
        elif step['state'] == 'once':
            world.shot = (step['at'], step['kind'])

    @staticmethod
    def import_plotting(how):
        if how == 'import':
            import skspatial.plotting

            return callable(skspatial.plotting.plot_2d)
        if how == 'from':
            from skspatial.plotting import plot_2d, plot_3d

            return callable(plot_2d) and callable(plot_3d)
        return callable(importlib.import_module('skspatial.plotting').plot_3d)

    @staticmethod
    def figure(step):
        from skspatial.plotting import plot_2d, plot_3d
        from skspatial.objects import Point

        plotters = [Point([i] * step['d']).plotter(c='k') for i in range(step['n'])]
        fig, ax = (plot_2d if step['d'] == 2 else plot_3d)(*plotters)
        import matplotlib.pyplot as plt

        answer = [len(fig.axes), fig.axes[0] is ax, len(ax.collections), plt.get_fignums()[-1] == fig.number]
        plt.close(fig)
        return answer

    def operate(self, world, op, pool, do):
        """A core operation or a plot attempt: outcome, what was drawn, whether operands changed."""
        args = []
        axes = None
        plain = dict(op, a=[a for a in op['a'] if a['k'] != 'axes'])
        recv, rest, kw = catalog.prepare(plain, pool)
        entry = {}
        rest = list(rest)
        for a in op['a']:
            if a['k'] == 'axes':
                axes = make_axes(a['d'], self.stash.modules['mpl_toolkits.mplot3d'].Axes3D)
                args.append(axes)
            else:
                args.append(rest.pop(0))
        world.attempts = []
        operands = [recv, args, list(kw.values())]
        before = fingerprint([x for x in operands if x is not None])
        entry['outcome'] = self.attempt(entry, world, lambda: catalog.call(op, recv, args, kw))
        if fingerprint([x for x in operands if x is not None]) != before:
            entry['changed'] = True
        if axes is not None:
            entry['drawn'] = tuple(axes.recorder.calls)
        entry['broken'] = isinstance(recv, Broken) or any(isinstance(a, Broken) for a in args)
        return entry

    # -- judgement ----------------------------------------------------------------------------------------------

    def reference_plot(self, op, pool):
        relevant = {n: pool[n] for n in sorted(names_in(op))}
        key = json.dumps([op, relevant], sort_keys=True)
        if key not in self.drawn:
            if len(self.drawn) > 20_000:
                self.drawn.clear()

            def body():
                import warnings

                sys.stderr = open(os.devnull, 'w')
                warnings.simplefilter('ignore')
                world = World(self.stash)
                world.install()
                return self.operate(world, op, {n: build(s) for n, s in relevant.items()}, 'plot')

            self.drawn[key] = scenario.forked(body)
        return self.drawn[key]

    def judge(self, ctx, scn, result):
        out = []
        for i, (step, seen) in enumerate(zip(scn['steps'], result['steps'])):
            do = seen['do']
            where = f'step {i}'
            if seen.get('left'):
                out.append(('blocks-import', f'{where}: left {seen["left"]} in sys.modules: later imports find that, whatever is installed'))
            if seen.get('early'):
                out.append(('loads-matplotlib', f'{where}: importing the package tries to load {seen["early"][0]}'))
            if do in ('import', 'core') and seen['attempts']:
                what = f'import {step.get("m", "skspatial")}' if do == 'import' else catalog.describe(step['op'])
                out.append(('loads-matplotlib', f'{where} {what}: tries to load {seen["attempts"][0]}'))
            if do == 'import' and 'outcome' in seen:
                out.append(('import-fails', f'{where} import {step.get("m", "skspatial")}: {show(seen["outcome"])}'))
            elif do == 'core' and not seen['broken']:
                expected = ctx.refs.get(step['op'], scn['pool'])
                if seen['outcome'] != expected and not same(seen['outcome'], expected):
                    out.append(('core-differs', f'{where} {catalog.describe(step["op"])}: {show(seen["outcome"])}; with '
                                                f'matplotlib present: {show(expected)}'))
            elif do in ('plotting', 'figure'):
                good = ('ret', enc(True)) if do == 'plotting' else ('ret', enc([1, True, step['n'], True]))
                got = seen['outcome']
                if got == good:
                    continue
                if seen['available']:
                    out.append(('no-recovery', f'{where} {do}: matplotlib can be imported, yet {show(got)}'))
                elif got[0] == 'ret' or not (seen['injected'] or seen['kind'] == 'ImportError'):
                    out.append(('not-an-import-error', f'{where} {do} without matplotlib: {show(got)}'))
                elif do == 'plotting' and seen['kind'] == 'ImportError' and not seen['hint'] and not seen['injected']:
                    out.append(('no-hint', f'{where} {do} without matplotlib: {show(got)} does not name the plotting extra'))
            elif do == 'plot' and not seen['broken']:
                expected = self.reference_plot(step['op'], scn['pool'])
                got = seen['outcome']
                if seen.get('changed'):
                    out.append(('plot-changes-operand', f'{where} {catalog.describe(step["op"])} changed its operands'))
                matches = (got == expected['outcome'] or same(got, expected['outcome'])) and (
                    seen['drawn'] == expected['drawn'] or same(seen['drawn'], expected['drawn']))
                if seen['available']:
                    if not matches:
                        out.append(('no-recovery', f'{where} {catalog.describe(step["op"])}: {show(got)} drawing '
                                                   f'{_calls(seen)}; with matplotlib present from the start: '
                                                   f'{show(expected["outcome"])} drawing {_calls(expected)}'))
                elif not matches:
                    if got[0] == 'ret' or not (seen['injected'] or seen['kind'] == 'ImportError'):
                        out.append(('not-an-import-error', f'{where} {catalog.describe(step["op"])} without matplotlib: '
                                                           f'{show(got)} drawing {_calls(seen)}'))
                    elif seen['drawn']:
                        out.append(('half-drawn', f'{where} {catalog.describe(step["op"])}: raised ImportError after drawing '
                                                  f'{_calls(seen)}'))
        return out

    def nontrivial(self, scn, result):
        return any(not s['available'] and s['do'] in ('plot', 'core', 'plotting') for s in result['steps'])

    def measures(self, scn, result):
        kinds = {}
        faults = {}
        plots = {'drawn': 0, 'ImportError': 0, 'other': 0}
        for step, seen in zip(scn['steps'], result['steps']):
            kinds[step['do']] = kinds.get(step['do'], 0) + 1
            if step['do'] == 'install' and step['state'] != 'present':
                name = f'{step["at"]} {step["state"]}'
                faults[name] = faults.get(name, 0) + 1
            if step['do'] == 'plot':
                how = 'drawn' if seen['outcome'][0] == 'ret' else 'ImportError' if seen['kind'] == 'ImportError' else 'other'
                plots[how] += 1
        return {'history_steps': kinds, 'faults_injected': faults, 'imports_refused': result['refusals'], 'plot_attempts': plots,
                'core_without_matplotlib': sum(1 for s in result['steps'] if s['do'] == 'core' and not s['available'])}

    def candidates(self, scn):
        steps = scn['steps']
        size = max(1, len(steps) // 2)
        while size >= 1:
            for i in range(0, len(steps), size):
                yield dict(scn, steps=steps[:i] + steps[i + size:])
            size //= 2
        used = names_in(steps)
        if set(scn['pool']) - used:
            yield dict(scn, pool={n: s for n, s in scn['pool'].items() if n in used})
        for i, step in enumerate(steps):
            if step['do'] == 'install' and step.get('at') not in (None, 'matplotlib'):
                new = copy.deepcopy(scn)
                new['steps'][i]['at'] = 'matplotlib'
                yield new


def _calls(seen):
    return [c[0] for c in seen['drawn']]
