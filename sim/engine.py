"""Deterministic scheduler, fault injector and event recorder.

Simulated threads are real threads of which exactly one holds the baton. Each monitored event of library code
(line, call, return of a C function, function entry, function return) is a step: the observers look at the
world, a planned fault may fire, a nested activation may run, and the scheduler may pass the baton. Which thread
runs, and for how many steps, is decided by a seeded PRNG or, in replay, by the recorded list of segments.
"""

import _thread
import asyncio
import gc
import opcode
import random
import sys
import types

from . import boot

M = sys.monitoring
E = M.events
TOOL = 3
LINE, CALL, CRET, START, RET = 0, 1, 2, 3, 4
CALL_FUNCTION_EX = opcode.opmap['CALL_FUNCTION_EX']
KIND_NAMES = ('line', 'call', 'c_return', 'start', 'return')


class Cancelled(BaseException):
    """A cancellation that ordinary `except Exception` does not see."""


class Signalled(Exception):
    """An application exception raised by a signal handler."""


class Overrun(BaseException):
    """The step cap was reached: the run does not finish."""


ABORTS = {
    'KeyboardInterrupt': KeyboardInterrupt,
    'SystemExit': SystemExit,
    'Cancelled': Cancelled,
    'CancelledError': asyncio.CancelledError,
    'TimeoutError': TimeoutError,
    'Signalled': Signalled,
    'MemoryError': MemoryError,
    'RecursionError': RecursionError,
    'GeneratorExit': GeneratorExit,
}
# Exceptions the interpreter raises between bytecodes (it checks at function entry and after calls);
# the rest are failures of the call being made.
ASYNC = {'KeyboardInterrupt', 'SystemExit', 'Cancelled', 'CancelledError', 'TimeoutError', 'Signalled', 'GeneratorExit'}
ASYNC_KINDS = (CRET, START)
SYNC_KINDS = (CALL, START)
# Raising inside the release of a lock or the exit of a context manager is a hazard of the language, not of the code.
PROTECTED = {'__exit__', '__enter__', 'release', 'acquire', '__aexit__', '_release_save', '_acquire_restore', 'reset',
             'notify', 'notify_all', 'set', 'wait', 'RLock', 'Lock', '__del__'}


class Act:
    """One activation: an operation in progress on a thread."""

    __slots__ = ('path', 'n', 'faults', 'log')

    def __init__(self, path, faults):
        self.path = path
        self.n = 0
        self.faults = faults  # {event number: fault}, consumed as they fire
        self.log = None


class SimThread:
    def __init__(self, key, fn):
        self.key = key
        self.fn = fn
        self.gate = _thread.real_allocate_lock()
        self.gate.acquire()
        self.ident = None
        self.busy = False
        self.state = 'ready'
        self.waiting = None
        self.timeout = None
        self.q = 0
        self.ran = 0
        self.acts = []
        self.error = None
        self.poison = None


_codes = {}


def collect_codes():
    """Monitor every code object of the library (found through its functions and their constants)."""
    found = []
    marker = f'{boot.SRC}/skspatial/'
    stack = [f.__code__ for f in gc.get_objects() if isinstance(f, types.FunctionType)]
    seen = set()
    while stack:
        code = stack.pop()
        if id(code) in seen or not code.co_filename.startswith(marker):
            continue
        seen.add(id(code))
        found.append(code)
        stack += [c for c in code.co_consts if isinstance(c, types.CodeType)]
    fresh = [c for c in found if id(c) not in _codes]
    fresh.sort(key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname))
    for code in fresh:
        _codes[id(code)] = (len(_codes) + 1, code)
    return [c for _, c in _codes.values()]


def code_number(code):
    entry = _codes.get(id(code))
    return entry[0] if entry else 0


_monitoring = False
_events = E.LINE | E.CALL | E.PY_START | E.PY_RETURN


def _cb_line(code, line):
    _event(LINE, code, line, None)


def _cb_call(code, offset, callee, arg0):
    _event(CALL, code, offset, callee)


def _cb_c_return(code, offset, callee, arg0):
    _event(CRET, code, offset, callee)


def _cb_return(code, offset, value):
    _event(RET, code, offset, None)


def _cb_start(code, offset):
    if id(code) not in _codes:
        # Seen through the global event: library code created after start-up, or foreign code (ignored for good).
        if not code.co_filename.startswith(f'{boot.SRC}/skspatial/'):
            return M.DISABLE
        _codes[id(code)] = (len(_codes) + 1, code)
        M.set_local_events(TOOL, code, _events)
    return _event(START, code, offset, None)


def _cb_ignore(*args):
    pass


def start_monitoring():
    global _monitoring
    if _monitoring:
        return
    M.use_tool_id(TOOL, 'verif-sim')
    M.register_callback(TOOL, E.LINE, _cb_line)
    M.register_callback(TOOL, E.CALL, _cb_call)
    M.register_callback(TOOL, E.C_RETURN, _cb_c_return)
    M.register_callback(TOOL, E.C_RAISE, _cb_ignore)
    M.register_callback(TOOL, E.PY_START, _cb_start)
    M.register_callback(TOOL, E.PY_RETURN, _cb_return)
    for code in collect_codes():
        M.set_local_events(TOOL, code, _events)
    M.set_events(TOOL, E.PY_START)
    _monitoring = True


def stop_monitoring():
    global _monitoring
    if not _monitoring:
        return
    M.set_events(TOOL, 0)
    for _, code in _codes.values():
        M.set_local_events(TOOL, code, 0)
    M.free_tool_id(TOOL)
    _monitoring = False


_get_ident = _thread.get_ident


def _event(kind, code, x, callee):
    s = boot.sim
    if s is None:
        return
    t = s.cur
    if t is None or t.busy or t.ident != _get_ident():
        return
    t.busy = True
    try:
        s.on_event(t, kind, code, x, callee)
    finally:
        t.busy = False


class Sim:
    """One simulated run."""

    def __init__(self, seed=0, segments=None, policy=None, faults=(), step_cap=400_000, observers=(), record_log=False):
        self.rng = random.Random(f'schedule-{seed}')
        self.replay = None if segments is None else list(segments)
        self.policy = policy or {'kind': 'geo', 'mean': 10}
        self.faults = {}
        for f in faults:
            self.faults.setdefault((f['t'], tuple(f['op'])), {})[f['at']] = f
        self.observers = list(observers)
        self.step_cap = step_cap
        self.threads = []
        self.cur = None
        self.steps = 0
        self.segments = []
        self.settled = False
        self.switches = 0
        self.h = 0
        self.ih = 0
        self.fired = []  # (fault, exception object)
        self.notes = []  # observer findings
        self.deadlock = False
        self.overrun = False
        self.done_gate = _thread.real_allocate_lock()
        self.done_gate.acquire()
        self.nest_runner = None
        self.log = [] if record_log else None
        self.every = 1
        self.points = {}

    # -- threads ------------------------------------------------------------------------------------------------

    def spawn(self, key, fn):
        t = SimThread(key, fn)
        self.threads.append(t)
        return t

    def _main(self, t):
        t.ident = _get_ident()
        t.gate.acquire()
        try:
            t.fn(t)
        except BaseException as error:  # the harness itself failed; reported as such
            t.error = error
        t.state = 'done'
        self._hand_over(t)

    def run(self):
        boot.sim = self
        start_monitoring()
        gc_was = gc.isenabled()
        gc.disable()
        try:
            for t in self.threads:
                # The real thread only exists to be parked on its gate.
                _thread.start_new_thread(self._main, (t,))
            first = self._choose(None)
            self._resume(first)
            self.done_gate.acquire()
        finally:
            boot.sim = None
            if gc_was:
                gc.enable()
        for t in self.threads:
            if t.error is not None:
                raise RuntimeError(f'harness failure in thread {t.key}') from t.error

    def run_inline(self, key, fn):
        """A run of a single simulated thread on the calling thread (keeps the main thread's privileges)."""
        boot.sim = self
        start_monitoring()
        gc_was = gc.isenabled()
        gc.disable()
        t = SimThread(key, fn)
        t.ident = _get_ident()
        self.threads.append(t)
        self.cur = t
        t.q = 1 << 60
        try:
            fn(t)
        finally:
            boot.sim = None
            self.cur = None
            if gc_was:
                gc.enable()
        t.state = 'done'

    # -- scheduling ---------------------------------------------------------------------------------------------

    def _quantum(self):
        p = self.policy
        kind = p['kind']
        r = self.rng
        if kind == 'geo':
            return 1 + int(r.expovariate(1.0 / p['mean']))
        if kind == 'burst':
            return 1 + r.randrange(3) if r.random() < p['short'] else 1 + int(r.expovariate(1.0 / p['mean']))
        if kind == 'serial':
            return 1 << 40
        raise ValueError(kind)

    def _ready(self):
        return [t for t in self.threads if t.state == 'ready']

    def _choose(self, current):
        """Pick the next thread to run and how long; None when all are done."""
        while True:
            self._wake()
            ready = self._ready()
            if not ready:
                # Timed waiters wake up when nothing else can run: jump the clock.
                timed = [t for t in self.threads if t.state == 'blocked' and t.timeout is not None]
                if timed:
                    t = min(timed, key=lambda t: (t.timeout, t.key))
                    boot.advance(max(0.0, t.timeout - boot.clock))
                    t.poison = 'timeout'
                    t.state = 'ready'
                    continue
                blocked = [t for t in self.threads if t.state == 'blocked']
                if blocked:
                    self.deadlock = True
                    for t in blocked:
                        t.poison = 'deadlock'
                        t.state = 'ready'
                    continue
                return None
            break
        if self.replay is not None:
            while self.replay:
                key, n = self.replay[0]
                found = [t for t in ready if t.key == key]
                if not found or n <= 0:
                    self.replay.pop(0)
                    continue
                self.replay.pop(0)
                found[0].q = n
                return found[0]
            # No decisions left: each in turn, long enough to finish unless it waits for another in a busy loop.
            others = [t for t in ready if t is not current]
            t = ready[0] if current is None or not others or current.state != 'ready' else others[0]
            t.q = 500_000
            return t
        if self.policy.get('stall') is not None and len(ready) > 1 and self.rng.random() < self.policy['stall_p']:
            rest = [t for t in ready if t.key != self.policy['stall']]
            ready = rest or ready
        if current is not None and len(ready) > 1 and current in ready:
            ready = [t for t in ready if t is not current]
        t = ready[self.rng.randrange(len(ready))]
        t.q = self._quantum()
        return t

    def _close_segment(self, t, given_up=False):
        # A thread that gave up the baton by itself (done or blocked) was not stopped at its last event: one more.
        n = t.ran + given_up
        if n:
            if self.segments and self.segments[-1][0] == t.key and not self.settled:
                self.segments[-1][1] += n
            else:
                self.segments.append([t.key, n])
            t.ran = 0
            self.settled = given_up

    def _resume(self, t):
        self.cur = t
        t.gate.release()

    def _hand_over(self, t):
        """The thread t cannot continue now (done or blocked)."""
        self._close_segment(t, given_up=True)
        nxt = self._choose(t)
        if nxt is None:
            self.cur = None
            self.done_gate.release()
            return
        if nxt is t:
            self.cur = t
            return
        self._resume(nxt)
        if t.state != 'done':
            t.gate.acquire()

    def preempt(self):
        """Let the scheduler pass the baton (only from the running simulated thread)."""
        t = self.cur
        self._close_segment(t)
        nxt = self._choose(t)
        if nxt is t:
            return
        self.switches += 1
        self._resume(nxt)
        t.gate.acquire()

    def wait_for(self, lock, timeout):
        """Block the running thread until the lock may be free. False: the wait timed out."""
        t = self.cur
        t.state = 'blocked'
        t.waiting = lock
        t.timeout = None if timeout is None or timeout < 0 else boot.clock + timeout
        self._wake()
        if t.state == 'blocked':
            self._hand_over(t)
        t.waiting = None
        poison, t.poison = t.poison, None
        if poison == 'deadlock':
            raise boot.SimDeadlock('a lock is waited for that nobody will release')
        if poison == 'timeout':
            return False
        return True

    def _wake(self):
        for t in self.threads:
            if t.state == 'blocked' and t.waiting is not None and t.waiting.owner is None:
                t.state = 'ready'

    # -- events -------------------------------------------------------------------------------------------------

    def on_event(self, t, kind, code, x, callee):
        self.steps += 1
        boot.clock += 1e-6
        t.ran += 1
        t.q -= 1
        number = code_number(code)
        self.h = hash((self.h, t.key, kind, number, x))
        if self.log is not None:
            name = getattr(callee, '__name__', '') if callee is not None else ''
            self.log.append((t.key, KIND_NAMES[kind], code.co_qualname, x if kind == LINE else name))
        act = t.acts[-1] if t.acts else None
        if act is not None:
            act.n += 1
            if act.log is not None:
                act.log.append((kind, number, x, getattr(callee, '__name__', '') if callee is not None else ''))
            for observe in self.observers:
                if act.n < 300 or act.n % 23 == 0:
                    observe(self, t, act, kind, code, x)
            if act.faults:
                self._fault(t, act, kind, code, x, callee)
        if self.steps > self.step_cap:
            self.overrun = True
            raise Overrun('step cap reached')
        if t.q <= 0:
            if len(self.threads) > 1:
                self.ih = hash((self.ih, t.key, number, x))
                self.preempt()
            else:
                t.q = 1 << 60

    def _fault(self, t, act, kind, code, x, callee):
        due = None
        for at in act.faults:
            if at <= act.n:
                due = at
                break
        if due is None:
            return
        fault = act.faults[due]
        name = fault['kind']
        if name == 'nest':
            del act.faults[due]
            error = None
            t.busy = False
            try:
                error = sys.call_tracing(self.nest_runner, (self, t, act, fault))
            finally:
                t.busy = True
            self.fired.append((fault, error, KIND_NAMES[kind], code.co_qualname))
            if error is not None:
                raise error
            return
        if name in ASYNC:
            if kind not in ASYNC_KINDS:
                return
        elif kind not in SYNC_KINDS:
            return
        if callee is not None and getattr(callee, '__name__', '') in PROTECTED:
            return
        if code.co_name in PROTECTED:
            return
        if kind == CALL and code.co_code[x] == CALL_FUNCTION_EX:
            # CPython 3.12 drops its reference to the unpacked arguments twice when an exception is raised here.
            return
        del act.faults[due]
        error = ABORTS[name](f'injected {name} {act.path}@{act.n}')
        self.fired.append((fault, error, KIND_NAMES[kind], code.co_qualname))
        raise error

    def read(self, code):
        """A step of a source the library is reading; whatever may happen in library code may happen here."""
        t = self.cur
        if t is None or t.busy or t.ident != _get_ident():
            return
        t.busy = True
        try:
            self.on_event(t, START, code, 0, None)
        finally:
            t.busy = False

    def tick(self, tag=0):
        """A step of code outside the library (a source being read, a writer): the scheduler may switch here."""
        t = self.cur
        if t is None or t.busy or t.ident != _get_ident():
            return
        t.busy = True
        try:
            self.steps += 1
            boot.clock += 1e-6
            t.ran += 1
            t.q -= 1
            self.h = hash((self.h, t.key, 9, tag))
            if self.log is not None:
                self.log.append((t.key, 'tick', '', tag))
            if self.steps > self.step_cap:
                self.overrun = True
                raise Overrun('step cap reached')
            if t.q <= 0:
                if len(self.threads) > 1:
                    self.ih = hash((self.ih, t.key, 9, tag))
                    self.preempt()
                else:
                    t.q = 1 << 60
        finally:
            t.busy = False

    # -- activations --------------------------------------------------------------------------------------------

    def enter(self, t, path):
        path = tuple(path)
        act = Act(path, dict(sorted(self.faults.get((t.key, path), {}).items())))
        t.acts.append(act)
        return act

    def leave(self, t):
        t.acts.pop()

