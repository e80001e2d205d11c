"""Start-up of a simulator process: environment, seams, and the system under test.

Everything that could make a run depend on something other than the scenario is pinned here, before the
library is imported:

* threads          - ``threading.Lock``/``RLock`` (and what is built on them) handed to library code are
                     simulated locks, so a blocked thread gives the baton back instead of blocking the process;
* clocks           - ``time.time`` and friends return the simulated clock when library code calls them;
* kernels          - the ``numpy.linalg``/``scipy.optimize`` entry points go through a counter that can be
                     told to fail the k-th call (also calls NumPy makes to itself);
* allocation       - a NEP 49 allocator whose k-th request can fail (see nomem.c);
* bytecode         - every line, call, return and function entry of library code is an event (sys.monitoring)
                     at which the scheduler may switch threads, observe, or inject a fault.

No hook in /repo is needed for any of it.
"""

import ctypes
import os
import subprocess
import sys
import sysconfig
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
VENV_PYTHON = '/opt/venv/bin/python'
ENV = {
    'OPENBLAS_NUM_THREADS': '1',
    'OMP_NUM_THREADS': '1',
    'MKL_NUM_THREADS': '1',
    'PYTHONDONTWRITEBYTECODE': '1',
    'MPLBACKEND': 'Agg',
    'PYTHONNOUSERSITE': '1',
}


def reexec(argv):
    """Replace this process by the pinned interpreter, without address-space randomisation where allowed."""
    if os.environ.get('VERIF_BOOTED') == '1':
        return
    env = dict(os.environ)
    env.update(ENV)
    env.setdefault('PYTHONHASHSEED', '0')
    env['VERIF_BOOTED'] = '1'
    env['PYTHONPATH'] = SRC
    env['MPLCONFIGDIR'] = env.get('VERIF_MPLCONFIGDIR') or tempfile.mkdtemp(prefix='verif_mpl_')
    env['VERIF_MPLCONFIGDIR'] = env['MPLCONFIGDIR']
    try:
        libc = ctypes.CDLL(None, use_errno=True)
        current = libc.personality(ctypes.c_ulong(0xFFFFFFFF))
        if current >= 0:
            libc.personality(ctypes.c_ulong(current | 0x0040000))
    except Exception:  # randomised addresses only weaken bit-exact replay of id()-dependent bugs
        pass
    sys.stdout.flush()
    os.execve(VENV_PYTHON, [VENV_PYTHON, '-B', '-X', 'frozen_modules=on', *argv], env)


# --------------------------------------------------------------------------------------------------------------
# Simulated clock and locks. The engine sets `sim` while a run is in progress.

sim = None
clock = 1_700_000_000.0


class SimDeadlock(BaseException):
    """Raised in a simulated thread that can never be resumed."""


def _library_caller(depth=2, reach=14):
    frame = sys._getframe(depth)
    while frame is not None and reach:
        if f'{os.sep}skspatial{os.sep}' in frame.f_code.co_filename:
            return True
        frame = frame.f_back
        reach -= 1
    return False


class SimLock:
    """A lock whose waiters are simulated threads."""

    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0

    def _me(self):
        return sim.cur.key if sim is not None and sim.cur is not None else 'main'

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        while True:
            if self.owner is None:
                self.owner, self.count = me, 1
                return True
            if self.reentrant and self.owner == me:
                self.count += 1
                return True
            if not blocking:
                return False
            if sim is None or sim.cur is None:
                if timeout is not None and timeout >= 0:
                    advance(timeout)
                    return False
                raise SimDeadlock('a lock is waited for that nobody will release')
            if not sim.wait_for(self, timeout):
                return False

    __enter__ = acquire

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        if self.reentrant and self.owner != self._me():
            raise RuntimeError('cannot release un-acquired lock')
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def __exit__(self, *_):
        self.release()

    def locked(self):
        return self.owner is not None

    # What threading.Condition needs of its lock.
    def _is_owned(self):
        return self.owner == self._me()

    def _release_save(self):
        state = (self.owner, self.count)
        self.owner, self.count = None, 0
        return state

    def _acquire_restore(self, state):
        self.acquire()
        self.owner, self.count = state

    def _at_fork_reinit(self):
        self.owner, self.count = None, 0


class SimRLock(SimLock):
    reentrant = True


def advance(seconds):
    global clock
    clock += max(0.0, float(seconds))


def _patch_threading():
    import _thread
    import threading

    real_lock = _thread.allocate_lock
    real_rlock = threading.RLock

    def Lock():
        return SimLock() if _library_caller() else real_lock()

    def RLock(*args, **kwargs):
        return SimRLock() if _library_caller() else real_rlock(*args, **kwargs)

    threading.Lock = Lock
    threading.RLock = RLock
    threading._allocate_lock = Lock
    _thread.allocate_lock = Lock
    _thread.real_allocate_lock = real_lock


def _patch_time():
    import time

    def virtual(name, value):
        real = getattr(time, name)

        def patched(*args):
            if _library_caller(reach=1):
                return value(*args)
            return real(*args)

        patched.__name__ = name
        setattr(time, name, patched)

    virtual('time', lambda: clock)
    virtual('monotonic', lambda: clock - 1_600_000_000.0)
    virtual('perf_counter', lambda: clock - 1_600_000_000.0)
    virtual('process_time', lambda: clock - 1_600_000_000.0)
    virtual('thread_time', lambda: clock - 1_600_000_000.0)
    virtual('time_ns', lambda: int(clock * 1e9))
    virtual('monotonic_ns', lambda: int((clock - 1_600_000_000.0) * 1e9))
    virtual('perf_counter_ns', lambda: int((clock - 1_600_000_000.0) * 1e9))

    def sleep(seconds):
        advance(seconds)
        if sim is not None and sim.cur is not None:
            sim.preempt()

    virtual('sleep', sleep)


# --------------------------------------------------------------------------------------------------------------
# Kernels.

class Kernels:
    """Counts kernel calls; may fail one of them."""

    def __init__(self):
        self.calls = 0
        self.fail_at = 0
        self.make = None
        self.injected = []

    def arm(self, k, make):
        self.calls, self.fail_at, self.make, self.injected = 0, k, make, []

    def disarm(self):
        self.fail_at = 0

    def enter(self, name):
        self.calls += 1
        if self.calls == self.fail_at:
            error = self.make(name)
            self.injected.append(error)
            raise error


kernels = Kernels()
NP_KERNELS = ('svd', 'lstsq', 'solve', 'inv', 'pinv', 'eig', 'eigh', 'eigvals', 'eigvalsh', 'qr', 'cholesky',
              'det', 'slogdet', 'matrix_rank', 'cond', 'matrix_power')
SCIPY_KERNELS = ('minimize', 'minimize_scalar', 'leastsq', 'least_squares', 'curve_fit', 'root', 'fsolve', 'fmin',
                 'brentq', 'linprog', 'root_scalar')


def _wrap_kernel(function, name):
    import functools

    @functools.wraps(function)
    def kernel(*args, **kwargs):
        kernels.enter(name)
        return function(*args, **kwargs)

    return kernel


def _patch_kernels():
    import numpy as np
    import numpy.linalg.linalg as nl
    import scipy.linalg
    import scipy.optimize

    for name in NP_KERNELS:
        wrapped = _wrap_kernel(getattr(nl, name), name)
        setattr(nl, name, wrapped)
        setattr(np.linalg, name, wrapped)
    for name in SCIPY_KERNELS:
        setattr(scipy.optimize, name, _wrap_kernel(getattr(scipy.optimize, name), name))
    for name in ('svd', 'lstsq', 'solve', 'inv', 'pinv', 'eig', 'eigh', 'qr', 'null_space', 'orth'):
        setattr(scipy.linalg, name, _wrap_kernel(getattr(scipy.linalg, name), name))


# --------------------------------------------------------------------------------------------------------------
# Allocation.

class Allocator:
    def __init__(self):
        self.lib = None
        self.capsule = None
        self.set_handler = None

    def load(self):
        if self.lib is not None:
            return
        here = os.path.dirname(os.path.abspath(__file__))
        scratch = tempfile.mkdtemp(prefix='verif_nomem_')
        so = os.path.join(scratch, 'nomem.so')
        subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', so, os.path.join(here, 'nomem.c')], check=True)
        lib = ctypes.CDLL(so)
        os.unlink(so)
        os.rmdir(scratch)
        lib.sim_handler.restype = ctypes.c_void_p
        lib.sim_arm.argtypes = [ctypes.c_long, ctypes.c_long]
        for name in ('sim_requests', 'sim_fired'):
            getattr(lib, name).restype = ctypes.c_long
        import numpy.core._multiarray_umath as um

        pythonapi = ctypes.pythonapi
        pythonapi.PyCapsule_GetPointer.restype = ctypes.c_void_p
        pythonapi.PyCapsule_GetPointer.argtypes = [ctypes.py_object, ctypes.c_char_p]
        pythonapi.PyCapsule_New.restype = ctypes.py_object
        pythonapi.PyCapsule_New.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]
        table = pythonapi.PyCapsule_GetPointer(um._ARRAY_API, None)
        table = ctypes.cast(table, ctypes.POINTER(ctypes.c_void_p))
        prototype = ctypes.PYFUNCTYPE(ctypes.py_object, ctypes.py_object)
        self.set_handler = prototype(table[304])
        self.capsule = pythonapi.PyCapsule_New(lib.sim_handler(), b'mem_handler', None)
        self.lib = lib

    def install(self):
        """Use the failing allocator in the current context; return the old one."""
        self.load()
        return self.set_handler(self.capsule)

    def restore(self, old):
        self.set_handler(old)

    def arm(self, k, sticky=False):
        self.lib.sim_arm(k, 1 if sticky else 0)

    def disarm(self):
        self.lib.sim_disarm()

    @property
    def requests(self):
        return self.lib.sim_requests()

    @property
    def fired(self):
        return self.lib.sim_fired()


allocator = Allocator()


def boot(plotting=False, library=True):
    """Import the world, then the library under the seams."""
    import numpy
    import numpy.lib  # noqa: F401
    import scipy.linalg  # noqa: F401
    import scipy.optimize  # noqa: F401
    import concurrent.futures.thread  # noqa: F401
    import copy  # noqa: F401
    import decimal  # noqa: F401
    import fractions  # noqa: F401
    import logging  # noqa: F401
    import pickle  # noqa: F401
    import queue  # noqa: F401
    import weakref  # noqa: F401
    import importlib.metadata  # noqa: F401

    if plotting:
        import matplotlib

        matplotlib.use('Agg')
        import matplotlib.pyplot  # noqa: F401
        import mpl_toolkits.mplot3d  # noqa: F401

    # The kernels have read these; a library that sets and restores them must show.
    for name in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ.pop(name, None)
    _patch_threading()
    _patch_time()
    _patch_kernels()
    if not library:
        return
    # The interpreter was started with PYTHONPATH=SRC; typing-like module names make sys.path[0] sensitive.
    import skspatial

    where = os.path.dirname(os.path.abspath(skspatial.__file__))
    if where != os.path.join(SRC, 'skspatial'):
        raise RuntimeError(f'imported skspatial from {where}')
    import skspatial.measurement  # noqa: F401
    import skspatial.objects  # noqa: F401
    import skspatial.transformation  # noqa: F401

    if plotting:
        import skspatial.plotting  # noqa: F401
    import warnings

    warnings.simplefilter('default')
    assert numpy.__version__
    assert sysconfig
