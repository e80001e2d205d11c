"""Execution of a scenario of library operations under the simulator, and the reference it is judged against."""

import hashlib
import json
import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback
import warnings

from . import boot, catalog
from .engine import Sim, Overrun
from .values import build, enc, fingerprint, names_in

# --------------------------------------------------------------------------------------------------------------
# Forked execution: every run and every reference starts from the same pristine process image.


class ChildTimeout(Exception):
    pass


class ChildCrash(Exception):
    pass


def forked(fn, timeout=120.0):
    """Run fn() in a forked child; return its (picklable) result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                payload = ('ok', fn())
            except BaseException as error:
                payload = ('error', ''.join(traceback.format_exception(error))[-4000:])
            data = pickle.dumps(payload, 5)
            view = memoryview(struct.pack('<Q', len(data)) + data)
            while view:
                view = view[os.write(w, view):]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    deadline = time.monotonic() + timeout
    try:
        while True:
            left = deadline - time.monotonic()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                os.kill(pid, signal.SIGKILL)
                raise ChildTimeout(f'no answer within {timeout} s')
            chunk = os.read(r, 1 << 20)
            if not chunk:
                break
            chunks.append(chunk)
    finally:
        os.close(r)
        _, status = os.waitpid(pid, 0)
    data = b''.join(chunks)
    if len(data) < 8 or len(data) - 8 != struct.unpack('<Q', data[:8])[0]:
        raise ChildCrash(f'the process ended with status {status}')
    kind, value = pickle.loads(data[8:])
    if kind == 'error':
        raise RuntimeError('harness failure in a child:\n' + value)
    return value


# --------------------------------------------------------------------------------------------------------------
# Caller configuration: settings the caller owns, which vary from scenario to scenario.

class Configured:
    """Applies a configuration to the process and to the current thread."""

    @staticmethod
    def process(config):
        import numpy as np

        if not config:
            return
        if config.get('warnings'):
            warnings.resetwarnings()
            warnings.simplefilter(config['warnings'])
        if config.get('print'):
            np.set_printoptions(**config['print'])
        if config.get('seed') is not None:
            import random

            random.seed(config['seed'])
            np.random.seed(config['seed'])
        if config.get('recursion'):
            sys.setrecursionlimit(config['recursion'])

    @staticmethod
    def thread(config):
        import numpy as np

        if config and config.get('errstate'):
            np.seterr(**config['errstate'])


QUIET_WARNINGS = 'ignore'


def outcome_of(fn):
    """('ret', encoding) or ('raise', encoding), and the exception."""
    try:
        value = fn()
    except BaseException as error:
        return ('raise', enc(error)), None, error
    return ('ret', enc(value)), value, None


def reference_run(op, pool_specs, config):
    """The operation alone, in a pristine process, on freshly built operands."""
    def body():
        sys.stderr = open(os.devnull, 'w')
        Configured.process(config)
        Configured.thread(config)
        pool = {n: build(s) for n, s in pool_specs.items()}
        recv, args, kw = catalog.prepare(op, pool)
        return outcome_of(lambda: catalog.call(op, recv, args, kw))[0]

    return forked(body)


class References:
    """Memoised reference outcomes."""

    def __init__(self):
        self.memo = {}
        self.made = 0

    def get(self, op, pool_specs, config=None):
        relevant = {n: pool_specs[n] for n in sorted(names_in(op))}
        key = json.dumps([op, relevant, config], sort_keys=True)
        if key not in self.memo:
            if len(self.memo) > 40_000:
                self.memo.clear()
            self.memo[key] = reference_run(op, relevant, config)
            self.made += 1
        return self.memo[key]


# --------------------------------------------------------------------------------------------------------------
# The scenario interpreter.

class World:
    """A scenario in execution (in a forked child)."""

    def __init__(self, scn):
        self.scn = scn
        self.config = scn.get('config')
        self.results = {}
        self.matched = {}
        self.keep = []
        self.notes = []
        self.watched = []
        self.settings = None

    def build_pool(self):
        self.pool = {n: build(s) for n, s in self.scn['pool'].items()}

    def prepare_ops(self):
        self.prepared = {}
        for t, ops in enumerate(self.scn['threads']):
            for i, op in enumerate(ops):
                self.prepared[(t, (i,))] = catalog.prepare(op, self.pool)
        for k, f in enumerate(self.scn.get('faults', ())):
            if f['kind'] == 'nest':
                for j, op in enumerate(f['ops']):
                    path = tuple(f['op']) + (f['id'], j)
                    self.prepared[(f['t'], path)] = catalog.prepare(op, self.pool)

    def warm_up(self):
        """Calls made before the threads start; what they answer is not looked at."""
        for op in self.scn.get('prelude', ()):
            try:
                catalog.call(op, *catalog.prepare(op, self.pool))
            except Exception:
                pass

    # -- running operations --------------------------------------------------------------------------------------

    def perform(self, sim, t, path, op):
        prepared = self.prepared.get((t.key, path))
        act = sim.enter(t, path)
        try:
            outcome, value, error = self.guarded(t, op, prepared)
        finally:
            sim.leave(t)
        key = (t.key, path)
        self.results[key] = outcome
        if error is not None:
            # Identity of the exception with an injected one, while both are alive.
            for n, (fault, injected, _, _) in enumerate(sim.fired):
                if injected is error:
                    self.matched[key] = n
        if self.scn.get('keep', True):
            self.keep.append(value)
        for hook in self.after_op:
            hook(sim, t, path, op, value, error)
        return act

    def guarded(self, t, op, prepared):
        recv, args, kw = prepared if prepared is not None else catalog.prepare(op, self.pool)
        try:
            value = catalog.call(op, recv, args, kw)
        except (Overrun, boot.SimDeadlock) as error:
            t.busy = True
            try:
                return ('raise', ('exc', type(error).__name__, '')), None, error
            finally:
                t.busy = False
        except BaseException as error:
            t.busy = True
            try:
                return ('raise', enc(error)), None, error
            finally:
                t.busy = False
        t.busy = True
        try:
            return ('ret', enc(value)), value, None
        finally:
            t.busy = False

    def nest(self, sim, t, act, fault):
        for j, op in enumerate(fault['ops']):
            self.perform(sim, t, act.path + (fault['id'], j), op)
        if fault.get('then'):
            from .engine import ABORTS

            return ABORTS[fault['then']](f'raised by the interrupting code at {act.path}@{fault["at"]}')
        return None

    def thread_main(self, k, ops):
        def fn(t):
            Configured.thread(self.config)
            for i, op in enumerate(ops):
                try:
                    self.perform(self.sim, t, (i,), op)
                except Overrun:
                    return
            for hook in self.after_thread:
                hook(t)

        return fn

    def run(self, observers=(), after_op=(), after_thread=(), step_cap=400_000, record_log=False, inline=None):
        scn = self.scn
        self.after_op = list(after_op)
        self.after_thread = list(after_thread)
        sim = Sim(
            seed=scn['seed'],
            segments=scn.get('segments'),
            policy=scn.get('policy'),
            faults=scn.get('faults', ()),
            step_cap=step_cap,
            observers=observers,
            record_log=record_log,
        )
        self.sim = sim
        sim.nest_runner = self.nest
        if inline if inline is not None else len(scn['threads']) == 1:
            sim.run_inline(0, self.thread_main(0, scn['threads'][0]))
        else:
            for k, ops in enumerate(scn['threads']):
                sim.spawn(k, self.thread_main(k, ops))
            sim.run()
        return sim

    def report(self):
        sim = self.sim
        return {
            'results': self.results,
            'matched': self.matched,
            'fired': [
                {'t': f['t'], 'op': list(f['op']), 'at': f['at'], 'kind': f['kind'], 'event': e, 'in': q,
                 'raised': x is not None}
                for f, x, e, q in sim.fired
            ],
            'notes': self.notes,
            'segments': sim.segments,
            'steps': sim.steps,
            'switches': sim.switches,
            'hash': sim.h,
            'ihash': sim.ih,
            'deadlock': sim.deadlock,
            'overrun': sim.overrun,
            'log': sim.log,
        }


def watch_operands(world):
    """Observer: at every step every operand must look as it did before the run."""
    watched = [(f'pool object {n}', x) for n, x in world.pool.items()]
    for (t, path), (recv, args, kw) in sorted(world.prepared.items(), key=lambda kv: (kv[0][0], str(kv[0][1]))):
        known = [id(x) for _, x in watched]
        label = f'thread {t} operation {list(path)}'
        for what, x in [('receiver', recv)] + [(f'argument {i}', a) for i, a in enumerate(args)] + [
            (f'keyword {k}', v) for k, v in kw.items()
        ]:
            if x is not None and not isinstance(x, (int, float, str, bool)) and id(x) not in known:
                watched.append((f'{what} of {label}', x))
    before = [fingerprint(x) for _, x in watched]

    def look(sim, t, act, kind, code, x):
        for i, (label, obj) in enumerate(watched):
            now = fingerprint(obj)
            if now != before[i]:
                where = f'{code.co_qualname}:{x}' if code is not None else 'after the call'
                world.notes.append(
                    {'what': 'operand', 'label': label, 'by': [t.key, list(act.path)], 'at': act.n, 'where': where,
                     'before': repr(before[i])[:300], 'now': repr(now)[:300]}
                )
                before[i] = now

    def after(sim, t, path, op, value, error):
        t.busy = True
        try:
            act = type('Done', (), {'path': path, 'n': -1})()
            look(sim, t, act, None, None, None)
        finally:
            t.busy = False

    return look, after


def warm(op, pool_specs, config=None, limit=4000, prelude=()):
    """Events of an operation run alone (in a child), after some calls: list of (kind, code, x, callee name)."""
    def body():
        sys.stderr = open(os.devnull, 'w')
        scn = {'seed': 0, 'pool': pool_specs, 'threads': [[op]], 'config': config, 'prelude': prelude}
        world = World(scn)
        Configured.process(config)
        world.build_pool()
        world.prepare_ops()
        world.warm_up()
        log = []

        def note(sim, t, act, kind, code, x):
            pass

        enter = Sim.enter

        def entering(self, t, path):
            act = enter(self, t, path)
            act.log = log
            return act

        Sim.enter = entering
        world.run(observers=())
        return [(k, n, x, c) for k, n, x, c in log[:limit]], len(log)

    return forked(body)


class EventProfiles:
    """Memoised event lists of single operations, from which fault positions are drawn."""

    def __init__(self):
        self.memo = {}

    def get(self, op, pool_specs, config=None, prelude=()):
        relevant = {n: pool_specs[n] for n in sorted(names_in([op, list(prelude)]))}
        key = json.dumps([op, relevant, config, list(prelude)], sort_keys=True)
        if prelude:
            key = hashlib.sha256(key.encode()).hexdigest()
        if key not in self.memo:
            if len(self.memo) > 4000:
                self.memo.clear()
            self.memo[key] = warm(op, relevant, config, prelude=prelude)
        return self.memo[key]
