"""Puts every source of nondeterminism mealpy touches behind the kernel, without changing /repo.

install() loads fresh copies of the *real* standard-library modules threading, queue, concurrent.futures._base and
concurrent.futures.thread on top of simulated `_thread` primitives and a virtual clock, then imports mealpy so that it
binds those copies.  Process pools are simulated workers in lockstep with real forked children (procs.py).
"""
import builtins
import importlib.util
import logging
import os
import random as real_random
import sys
import time as real_time
import types
import warnings

from . import kernel
from .kernel import SimLock

REPO = os.environ.get("DST_REPO", "/repo")
SIMMODS = {}
mealpy = None
_orig = {}


# ------------------------------------------------------------------ time
def _now():
    s = kernel.SIM
    return None if s is None else s.clock0 + s.now


def _mk_time():
    m = types.ModuleType("time")
    for k in dir(real_time):
        if not k.startswith("__"):
            setattr(m, k, getattr(real_time, k))

    def perf_counter():
        n = _now()
        return real_time.perf_counter() if n is None else n

    def wall():
        n = _now()
        if n is None:
            return real_time.time()
        s = kernel.SIM
        if s.plan.get("clock_jumps"):
            j = s.choose("clock_jump", 6, p0=0.7)
            if j:
                s.wall_jump += (0.0, -3600.0, 3600.0, -1.0, 86400.0, -1e6)[j]
                s.fault("wall_clock_jump")
        return 1.7e9 + n * 3 + s.wall_jump      # deliberately not in step with the monotonic clock

    def sleep(d):
        s = kernel.SIM
        if s is None:
            return real_time.sleep(d)
        s.sleep(d)

    m.perf_counter = perf_counter
    m.monotonic = lambda: perf_counter()
    m.process_time = lambda: perf_counter()
    m.thread_time = lambda: perf_counter()
    m.perf_counter_ns = lambda: int(perf_counter() * 1e9)
    m.monotonic_ns = lambda: int(perf_counter() * 1e9)
    m.time = wall
    m.time_ns = lambda: int(wall() * 1e9)
    m.sleep = sleep
    return m


# ------------------------------------------------------------------ random / entropy
def _mk_random():
    spec = importlib.util.spec_from_file_location("random", real_random.__file__)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    Base = m.Random

    class Random(Base):
        def seed(self, a=None, version=2):
            if a is None:
                s = kernel.SIM
                a = s.entropy(64) if s is not None else int.from_bytes(os.urandom(8), "big")
            Base.seed(self, a, version)

        def __reduce__(self):
            return _rebuild_random, (self.getstate(),)

    Random.__qualname__ = "Random"
    m.Random = Random
    m.SystemRandom = Random
    inst = m._inst
    return m, inst


def _rebuild_random(state):
    r = SIMMODS["random"].Random(0)
    r.setstate(state)
    return r


def _patch_numpy():
    import numpy as np
    real_rng, real_RS, real_seed = np.random.default_rng, np.random.RandomState, np.random.seed
    _orig["default_rng"] = real_rng

    def default_rng(seed=None):
        if seed is None and kernel.SIM is not None:
            seed = kernel.SIM.entropy(64)
        return real_rng(seed)
    default_rng.__doc__ = real_rng.__doc__
    np.random.default_rng = default_rng

    class RandomState(real_RS):
        def __init__(self, seed=None):
            if seed is None and kernel.SIM is not None:
                seed = kernel.SIM.entropy(32)
            super().__init__(seed)
    np.random.RandomState = RandomState

    def seed(s=None):
        if s is None and kernel.SIM is not None:
            s = kernel.SIM.entropy(32) & 0xFFFFFFFF
        return real_seed(s)
    np.random.seed = seed
    # bit generators seeded without a value draw from secrets.randbits through SeedSequence
    for name in ("PCG64", "MT19937", "Philox", "SFC64", "PCG64DXSM"):
        base = getattr(np.random, name)

        def mk(base):
            class BG(base):
                def __init__(self, seed=None):
                    if seed is None and kernel.SIM is not None:
                        seed = kernel.SIM.entropy(64)
                    super().__init__(seed)
            BG.__name__ = BG.__qualname__ = base.__name__
            BG.__module__ = "numpy.random"      # pickled by that name, which is this class
            return BG
        # default_rng() inside numpy uses the C type, so pickling and seeded use are unaffected
        setattr(np.random, name, mk(base))
    realur = os.urandom

    def urandom(n):
        s = kernel.SIM
        if s is None:
            return realur(n)
        return b"".join((s.choose("urandom", 256)).to_bytes(1, "big") for _ in range(n))
    os.urandom = urandom
    _orig["urandom"] = realur


def seed_globals(sim):
    """Process-wide generators start every run in an environment-chosen state."""
    import numpy as np
    np.random.mtrand._rand.seed(sim.entropy(32) & 0xFFFFFFFF) if hasattr(np.random.mtrand, "_rand") else None
    SIMMODS["_inst"].seed(sim.entropy(32))
    real_random.seed(sim.entropy(32))


# ------------------------------------------------------------------ fresh copies of the stdlib on simulated threads
def _load(name, path, swaps, pre=None):
    saved = {}
    for k, v in swaps.items():
        saved[k] = sys.modules.get(k, _MISSING)
        sys.modules[k] = v
    spec = importlib.util.spec_from_file_location(name, path)
    m = importlib.util.module_from_spec(spec)
    real_reg = os.register_at_fork
    os.register_at_fork = lambda **kw: None
    try:
        if pre:
            pre(m)
        spec.loader.exec_module(m)
    finally:
        os.register_at_fork = real_reg
        for k, v in saved.items():
            if v is _MISSING:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    return m


_MISSING = object()


def _build():
    import _thread as rt
    import threading as real_threading
    import queue as real_queue
    import concurrent
    import concurrent.futures as rcf
    import concurrent.futures._base as rbase
    import concurrent.futures.process   # noqa: F401  (must be the real one in sys.modules before swapping)
    import concurrent.futures.thread as rthread

    tm = _mk_time()
    ft = types.ModuleType("_thread")
    for k in dir(rt):
        if not k.startswith("__"):
            setattr(ft, k, getattr(rt, k))
    ft.allocate_lock = ft.allocate = SimLock
    ft.LockType = SimLock
    ft.start_new_thread = ft.start_new = kernel.start_new_thread
    ft.get_ident = kernel.get_ident
    ft.get_native_id = kernel.get_ident
    ft._set_sentinel = kernel.set_sentinel
    ft.daemon_threads_allowed = lambda: True
    if hasattr(ft, "RLock"):
        del ft.RLock
    th = _load("threading", real_threading.__file__, {"_thread": ft, "time": tm})
    q = _load("queue", real_queue.__file__, {"_thread": ft, "time": tm, "threading": th, "_queue": None})
    base = _load("concurrent.futures._base", rbase.__file__, {"threading": th, "time": tm})
    # CancelledError/TimeoutError etc. stay interchangeable with the real ones
    pkg = types.ModuleType("concurrent.futures")
    pkg.__path__ = rcf.__path__
    pkg._base = base
    cfthread = _load("concurrent.futures.thread", rthread.__file__,
                     {"threading": th, "queue": q, "time": tm, "concurrent.futures": pkg, "concurrent.futures._base": base})
    for n in ("FIRST_COMPLETED", "FIRST_EXCEPTION", "ALL_COMPLETED", "CancelledError", "TimeoutError", "InvalidStateError",
              "BrokenExecutor", "Future", "Executor", "wait", "as_completed"):
        setattr(pkg, n, getattr(base, n))
    pkg.ThreadPoolExecutor = cfthread.ThreadPoolExecutor
    pkg.thread = cfthread
    # deterministic (environment-salted) hashes instead of memory addresses
    _hashfix(base.Future, "fut")
    _hashfix(th.Thread, "thr")
    base.id = lambda o: o.__hash__() if isinstance(o, base.Future) else builtins.id(o)
    base.LOGGER.addHandler(logging.NullHandler())
    base.LOGGER.propagate = False
    base.LOGGER.setLevel(logging.CRITICAL + 10)
    th.excepthook = lambda *a, **k: None
    from . import procs
    pp = procs.build(pkg, base, th, q)
    pkg.ProcessPoolExecutor = pp.ProcessPoolExecutor
    pkg.process = pp
    rnd, inst = _mk_random()
    SIMMODS.update({"time": tm, "threading": th, "queue": q, "concurrent.futures": pkg, "random": rnd, "_inst": inst,
                    "concurrent.futures._base": base, "concurrent.futures.thread": cfthread, "_sim_process": pp})
    return concurrent


def _hashfix(cls, label):
    orig = cls.__init__

    def __init__(self, *a, **k):
        s = kernel.SIM
        if s is not None:
            s.obj_seq += 1
            salt = s.mutable.get("salt")
            if salt is None:
                salt = s.mutable["salt"] = s.choose("hash_salt", 64)
            self.__dict__["_sim_h"] = (s.obj_seq * 2 + 1) ^ salt
        else:
            self.__dict__["_sim_h"] = builtins.id(self)
        orig(self, *a, **k)
    cls.__init__ = __init__
    cls.__hash__ = lambda self: self._sim_h


SWAP = ("time", "threading", "queue", "random", "concurrent.futures", "concurrent.futures._base", "concurrent.futures.thread")


class swapped:
    """While active, `import time/threading/queue/random/concurrent.futures` gives the simulated modules."""

    def __enter__(self):
        import concurrent
        self.saved = {k: sys.modules[k] for k in SWAP}
        self.cf = concurrent.futures
        for k in SWAP:
            sys.modules[k] = SIMMODS[k]
        concurrent.futures = SIMMODS["concurrent.futures"]
        return self

    def __exit__(self, *a):
        import concurrent
        for k, v in self.saved.items():
            sys.modules[k] = v
        concurrent.futures = self.cf


def install():
    """Build the seams and import mealpy through them.  Idempotent."""
    global mealpy
    if mealpy is not None:
        return mealpy
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    # everything third-party is imported with the real modules first
    import scipy.stats, scipy.stats.qmc, scipy.special, scipy.spatial  # noqa: F401,E401
    import pandas  # noqa: F401
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot  # noqa: F401
    import tqdm as tq
    import tqdm.auto, tqdm.std  # noqa: F401,E401
    import json, pickle, csv, copy, datetime, itertools, functools, multiprocessing, multiprocessing.pool  # noqa
    tq.tqdm.monitor_interval = 0
    os.cpu_count = lambda: 8        # limits on worker counts must not depend on the machine
    _patch_numpy()
    _build()
    kernel.TARGET_ROOT[0] = os.path.join(REPO, "mealpy")
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    # drop an editable-install finder that would pin mealpy to another tree
    for k in [k for k in sys.modules if k == "mealpy" or k.startswith("mealpy.")]:
        del sys.modules[k]
    with swapped():
        import mealpy as m
    assert os.path.realpath(os.path.dirname(m.__file__)) == os.path.realpath(os.path.join(REPO, "mealpy")), m.__file__
    mealpy = m
    logging.raiseExceptions = False
    lg = logging.getLogger("mealpy")
    lg.propagate = False
    return m


def reset_thread_module():
    th = SIMMODS["threading"]
    main = th._main_thread
    th._active.clear()
    th._limbo.clear()
    main._ident = 1000
    th._active[1000] = main
    th._active_limbo_lock._at_fork_reinit()
    th._shutdown_locks.clear() if hasattr(th, "_shutdown_locks") else None
    if hasattr(th, "_shutdown_locks_lock"):
        th._shutdown_locks_lock._at_fork_reinit()
    cf = SIMMODS["concurrent.futures.thread"]
    cf._shutdown = False
    cf._threads_queues.clear()
    cf._global_shutdown_lock._at_fork_reinit()
    th._counter = __import__("itertools").count(1).__next__
