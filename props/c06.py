"""C06: process-wide and thread-wide settings are never altered."""

import asyncio
import atexit
import builtins
import copyreg
import decimal
import faulthandler
import gc
import locale
import logging
import math
import os
import random
import resource
import signal
import socket
import sys
import tempfile
import threading
import time
import tracemalloc
import warnings

import numpy as np
import scipy.special

from sim import catalog

from .common import ABORT_KINDS, CONFIGS, ThreadProperty, draw_abort, draw_dim, draw_ops, draw_policy, leading

SIGNALS = [s for s in signal.valid_signals() if s not in (signal.SIGKILL, signal.SIGSTOP)]


LIMITS = (resource.RLIMIT_NOFILE, resource.RLIMIT_CORE, resource.RLIMIT_STACK, resource.RLIMIT_AS, resource.RLIMIT_DATA)


def _umask():
    with open('/proc/self/status') as f:
        return next((line for line in f if line.startswith('Umask')), None)


def _np_random():
    state = np.random.get_state(legacy=False)
    inner = state['state']
    return (state['bit_generator'], inner['key'].tobytes(), inner['pos'], state['has_gauss'], state['gauss'])


def _rc():
    mpl = sys.modules.get('matplotlib')
    if mpl is None or not hasattr(mpl, 'rcParams'):
        return None
    return repr(dict.items(mpl.rcParams))


def _loggers():
    return [(name, x.level, x.disabled, x.propagate, len(x.handlers), len(x.filters))
            for name, x in sorted(logging.root.manager.loggerDict.items()) if isinstance(x, logging.Logger) and name in KNOWN_LOGGERS]


def _registries():
    mpl = sys.modules.get('matplotlib')
    plt = sys.modules.get('matplotlib.pyplot')
    if mpl is None or plt is None:
        return None
    return (mpl.is_interactive(), sorted(map(str, mpl.units.registry)), len(mpl.colormaps), mpl.get_backend(),
            len(mpl.style.library), sorted(mpl.projections.get_projection_names()), sorted(mpl.scale.get_scale_names()))


LOADED = []
FUNCTIONS = []
KNOWN_LOGGERS = set()


def remember():
    """What was there when the simulator process started: modules, their functions, loggers."""
    import copy
    import pickle

    LOADED[:] = sorted((name, m) for name, m in sys.modules.items() if not name.startswith(('skspatial', 'sim', 'props', '__')))
    KNOWN_LOGGERS.update(logging.root.manager.loggerDict)
    for module in (np, np.linalg, math, warnings, copy, pickle, random, logging, gc, os, time, threading):
        FUNCTIONS.extend((module, name, x) for name, x in sorted(vars(module).items()) if callable(x))


class QuickRc:
    """The rc settings, written out again only when one of them is another object than before."""

    def __init__(self):
        self.values, self.text = None, None

    def __call__(self):
        mpl = sys.modules.get('matplotlib')
        if mpl is None or not hasattr(mpl, 'rcParams'):
            return None
        values = list(dict.values(mpl.rcParams))
        if self.values is None or list(map(id, values)) != list(map(id, self.values)):
            self.values, self.text = values, _rc()
        return self.text


PROCESS = {
    'warning filters': lambda: [tuple(map(repr, f)) for f in warnings.filters],
    'warning functions': lambda: (id(warnings.showwarning), id(warnings.formatwarning), id(warnings._showwarnmsg_impl),
                                  id(warnings.warn), id(warnings.filters)),
    'NumPy print options': lambda: repr(sorted(np.get_printoptions().items(), key=str)),
    'NumPy random state': _np_random,
    'Python random state': random.getstate,
    'recursion limit': sys.getrecursionlimit,
    'switch interval': sys.getswitchinterval,
    'int digits limit': sys.get_int_max_str_digits,
    'signal handlers': lambda: [id(signal.getsignal(s)) for s in SIGNALS],
    'interval timers': lambda: signal.getitimer(signal.ITIMER_REAL)[1],
    'environment': lambda: dict(os.environ._data),
    'working directory': os.getcwd,
    'locale': lambda: locale.setlocale(locale.LC_ALL),
    'garbage collector': lambda: (gc.isenabled(), gc.get_threshold(), gc.get_debug(), len(gc.callbacks)),
    'hooks': lambda: (id(sys.excepthook), id(sys.displayhook), id(sys.unraisablehook), id(threading.excepthook),
                      id(sys.breakpointhook), id(builtins.__import__), len(sys.meta_path), len(sys.path_hooks)),
    'import path': lambda: list(sys.path),
    'streams': lambda: (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
    'logging': lambda: (logging.root.level, logging.root.manager.disable, len(logging.root.handlers), logging.raiseExceptions,
                        id(logging.getLoggerClass())),
    'fault handler': faulthandler.is_enabled,
    'asyncio policy': lambda: id(asyncio.events._event_loop_policy),
    'temporary directory': lambda: tempfile.tempdir,
    'time zone': lambda: time.tzname,
    'thread stack size': threading.stack_size,
    'matplotlib rc settings': _rc,
    'NumPy string function': lambda: id(np.core.arrayprint._default_array_repr) if hasattr(np.core.arrayprint, '_default_array_repr') else 0,
    'trace functions': lambda: (id(sys.gettrace()), id(sys.getprofile())),
    'default encoding errors': lambda: sys.flags.dev_mode,
    'decimal default context': lambda: repr(decimal.DefaultContext),
    'uncollectable garbage': lambda: len(gc.garbage),
    'type promotion': lambda: np._get_promotion_state(),
    'how NumPy shows arrays': lambda: repr(np.array([0.5, 2])) + str(np.float64(0.25)),
    'umask': _umask,
    'processors and limits': lambda: (os.sched_getaffinity(0), os.getpriority(os.PRIO_PROCESS, 0),
                                      [resource.getrlimit(x) for x in LIMITS]),
    'writing of bytecode': lambda: sys.dont_write_bytecode,
    'names every module sees': lambda: (len(vars(builtins)), id(builtins.open), id(builtins.print), id(builtins.input)),
    'socket timeout': socket.getdefaulttimeout,
    'pickling of types': lambda: sorted(map(str, copyreg.dispatch_table)),
    'calls at exit': lambda: atexit._ncallbacks(),
    'SciPy error handling': lambda: repr(sorted(scipy.special.geterr().items())),
    'warning defaults': lambda: (warnings.defaultaction, id(warnings.onceregistry)),
    'hooks of new threads': lambda: (id(threading.gettrace()), id(threading.getprofile())),
    'time zone offset': lambda: time.timezone,
    'loggers': _loggers,
    'loaded modules': lambda: [name for name, module in LOADED if sys.modules.get(name) is not module],
    'functions of other modules': lambda: [name for module, name, x in FUNCTIONS if vars(module).get(name) is not x],
    'dynamic loading': sys.getdlopenflags,
    'memory tracing': tracemalloc.is_tracing,
    'memory handler': np.core.multiarray.get_handler_name,
    'matplotlib registries': _registries,
}
# Settings that cost little are compared at every event, the others at every fourth or every 32nd, beginning anywhere.
COSTLY = ('NumPy random state', 'Python random state', 'signal handlers', 'matplotlib rc settings', 'how NumPy shows arrays', 'umask',
          'processors and limits', 'pickling of types', 'SciPy error handling', 'loggers', 'loaded modules', 'functions of other modules',
          'matplotlib registries')
CHEAP = tuple(name for name in PROCESS if name not in COSTLY)
SOME = tuple(name for name in PROCESS if name not in ('loaded modules', 'functions of other modules', 'how NumPy shows arrays'))
THREAD = {
    'NumPy error state': np.geterr,
    'NumPy error callback': lambda: id(np.geterrcall()),
    'NumPy buffer size': np.getbufsize,
    'decimal context': lambda: repr(decimal.getcontext()),
    'signal mask': lambda: sorted(map(int, signal.pthread_sigmask(signal.SIG_BLOCK, ()))),
    'thread name': lambda: threading.current_thread().name,
    'coroutine origins': sys.get_coroutine_origin_tracking_depth,
    'coroutine hooks': lambda: repr(sys.get_asyncgen_hooks()),
}


FAMILIES = ('query', 'new', 'py', 'np', 'plotter', 'plot', 'figure')


class Prop(ThreadProperty):
    id = 'C06'
    level = 'fault_enumeration'
    focus_families = FAMILIES
    plotting = True
    runs = {'quick': 7600, 'thorough': 80_000}
    budget = {'quick': 160, 'thorough': 1800}
    stubs = ThreadProperty.stubs + ', matplotlib axes except those of plot_2d() and plot_3d() (recording stand-ins)'
    rule = (
        'A run sets caller-owned settings (error state, warning filters, print options, seeds) and performs public '
        'operations (plotting included, whole figures too) on one to three threads, aborting some at seeded points. Process-wide settings '
        'are compared with their initial values at events of library code (the costly ones at every fourth or 32nd) and after '
        'every call; thread-wide settings when each call ends. Non-trivial: an operation ran with events.'
    )
    assumptions = ('The settings compared are those listed in props/c06.py.',)

    def setup(self):
        remember()

    def generate(self, ctx, rng, index, tier):
        families = FAMILIES
        gen = catalog.Gen(rng, dim=draw_dim(ctx, rng, (2, 2, 2, 3, 3, 3, 3, 3, 1, 4), families), n_pool=rng.randint(1, 5),
                          shared=rng.choice((0.8, 0.4)))
        n = rng.choice((1, 1, 1, 2, 2, 3))
        chosen = sorted({id(t): t for t in catalog.usable(gen.dim, families)}.values(), key=lambda t: t.label)
        hot = [leading(ctx, rng, gen, families, chosen[(index * 7 + k * 31) % len(chosen)], 0.5) for k in range(2)]
        threads = [draw_ops(gen, rng, rng.choice((1, 2, 3)), hot, 0.7, 0.2, families) for _ in range(n)]
        config = rng.choice(CONFIGS)
        faults = []
        if rng.random() < 0.5:
            for t, ops in enumerate(threads):
                for i, op in enumerate(ops):
                    if rng.random() < 0.6:
                        drawn = draw_abort(ctx, rng, gen.pool, op, config, ABORT_KINDS)
                        if drawn:
                            faults.append({'t': t, 'op': [i], 'at': drawn[0], 'kind': drawn[1]})
        return {'pool': gen.pool, 'threads': threads, 'policy': draw_policy(rng, n), 'config': config, 'faults': faults,
                'offset': rng.randrange(32)}

    def instruments(self, world):
        # Let NumPy and the interpreter finish what they do lazily on first use.
        for look in (*PROCESS.values(), *THREAD.values()):
            look()
        gc.disable()
        before = {name: look() for name, look in PROCESS.items()}
        thread_before = {}
        offset = world.scn.get('offset', 0)
        quick_rc = QuickRc()

        def compare(t, path, at, where, names):
            for name in names:
                now = PROCESS[name]()
                if now != before[name]:
                    world.notes.append({'what': 'process', 'name': name, 'by': [t.key, list(path)], 'at': at, 'where': where,
                                        'before': repr(before[name])[:200], 'now': repr(now)[:200]})
                    before[name] = now

        def look(sim, t, act, kind, code, x):
            names = PROCESS if act.n % 32 == offset else SOME if act.n % 4 == offset % 4 else CHEAP
            if names is not PROCESS and quick_rc() != before['matplotlib rc settings']:
                names = PROCESS
            compare(t, act.path, act.n, f'{code.co_qualname}:{x}', names)

        def after(sim, t, path, op, value, error):
            t.busy = True
            try:
                compare(t, path, -1, 'after the call', PROCESS)
                if t.key not in thread_before:
                    return
                for name, read in THREAD.items():
                    now = read()
                    if now != thread_before[t.key][name]:
                        world.notes.append({'what': 'thread', 'name': name, 'by': [t.key, list(path)], 'at': -1,
                                            'where': 'after the call', 'before': repr(thread_before[t.key][name])[:200],
                                            'now': repr(now)[:200]})
                        thread_before[t.key][name] = now
            finally:
                t.busy = False

        real = world.thread_main

        def thread_main(k, ops):
            fn = real(k, ops)

            def start(t):
                from sim import scenario

                scenario.Configured.thread(world.config)
                thread_before[t.key] = {name: read() for name, read in THREAD.items()}
                fn(t)

            return start

        world.thread_main = thread_main
        return [look], [after], ()

    def judge(self, ctx, scn, result):
        out = []
        for note in result['notes']:
            when = f'at event {note["at"]} ({note["where"]})' if note['at'] >= 0 else 'when the call had ended'
            op = self.specs_of(scn, (note['by'][0], tuple(note['by'][1])))
            out.append((
                f'{note["what"]}-setting-changed',
                f'{note["name"]} changed during {catalog.describe(op)} {when}: {note["before"]} -> {note["now"]}',
            ))
        return out

    def nontrivial(self, scn, result):
        return result['steps'] > 0
