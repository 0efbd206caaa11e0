"""The simulator kernel: one seeded chooser decides every interleaving, latency, entropy value and fault.

Real OS threads carry the simulated threads, but exactly one holds the baton at any time; the choice of who runs
next is a decision of the kernel, recorded, and therefore replayable.  Time is virtual and discrete-event: when
nothing is runnable the clock jumps to the next timer.
"""
import heapq
import random as _random
import sys
import _thread as _rt

SIM = None            # the active simulation (None outside runs)

MAX_STEPS = 400_000   # decisions per run; a run that exceeds it is reported as "no progress"


class SimAbort(BaseException):
    """Raised in parked threads to unwind them when a run is over."""


class SimDeadlock(BaseException):
    """Raised in the main simulated thread when nothing can ever run again."""


class SimStuck(BaseException):
    """The run exceeded its step budget (livelock)."""


class SThread:
    __slots__ = ("tid", "name", "sem", "runnable", "done", "pending", "gap", "sentinel", "waiting_on", "wake_seq", "timed_out", "kind")

    def __init__(self, tid, name):
        self.tid, self.name = tid, name
        self.sem = _rt.allocate_lock()
        self.sem.acquire()
        self.runnable, self.done, self.pending = True, False, None
        self.gap, self.sentinel, self.waiting_on = None, None, None
        self.wake_seq, self.timed_out, self.kind = 0, False, "thread"


GAPS = (10 ** 9, 1, 2, 3, 4, 6, 9, 14, 22, 40, 90, 200)
LAT = (0.0, 0.001, 0.002, 0.005, 0.01, 0.02, 0.05, 0.1, 0.3, 1.0, 5.0, 60.0, 3600.0)


class Sim:
    def __init__(self, env_seed=0, decisions=None, preempt=0.25, line_preempt=False, child=False, now=0.0, epoch0=None):
        self.env_seed = env_seed
        self.rng = _random.Random(("env", env_seed).__repr__())
        self.replay = decisions
        self.trace = []
        self.labels = []
        self.keep_labels = False
        self.counts = {}
        self.faults = {}
        self.preempt = preempt
        self.line_preempt = line_preempt
        self.gap_p0, self.n_gaps = None, 0
        self.child = child
        self.now = now
        self.clock0 = epoch0
        self.wall_jump = 0.0
        self.timers = []
        self.tseq = 0
        self.threads = []
        self.cur = None
        self.aborting = False
        self.nopre = 0
        self.deadlock = False
        self.stuck = False
        self.log = []            # evaluation log and other events, in global order
        self.sched_sig = 0       # rolling signature of the schedule (for "distinct interleavings")
        self.switches = 0
        self.obj_seq = 0
        self.pools = []
        self.lat_table = LAT[:8]
        self.lat_p0 = 0.3
        self.plan = {}           # fault plan of this run (see workload.Objective)
        self.neval = 0
        self.probes = {}
        self.evolve_hook = None
        self.main_blocks = 0     # times the main thread had to wait (interrupt points)
        self.main_lines = 0
        self.mutable = {}        # scratch space for checks

    # ---------------------------------------------------------------- decisions
    def choose(self, label, n, p0=None, rare0=False):
        """Pick an index in [0, n).  0 is always the 'nothing unusual' choice (used by minimisation)."""
        k = len(self.trace)
        if k > MAX_STEPS:
            self.stuck = True
            if self.cur is self.threads[0] and not self.aborting:
                raise SimStuck(f"more than {MAX_STEPS} decisions")
            return 0
        if n <= 1:
            return 0
        if self.replay is not None:
            v = self.replay[k] % n if k < len(self.replay) else 0
        elif p0 is not None and self.rng.random() < p0:
            v = 0
        elif rare0:
            v = 1 + self.rng.randrange(n - 1)
        else:
            v = self.rng.randrange(n)
        self.trace.append(v)
        if self.keep_labels:
            self.labels.append(f"{label}:{v}/{n}")
        self.counts[label] = self.counts.get(label, 0) + 1
        return v

    def entropy(self, bits=64):
        """What the operating system's entropy source returns in this run."""
        v = 0
        for _ in range(0, bits, 16):
            v = (v << 16) | self.choose("entropy", 1 << 16)
        self.probes["entropy"] = self.probes.get("entropy", 0) + 1
        return v

    def fault(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    # ---------------------------------------------------------------- threads
    def start(self):
        global SIM
        main = SThread(0, "main")
        self.threads = [main]
        self.cur = main
        if self.clock0 is None:
            self.clock0 = 1000.0 + 977.0 * self.choose("clock0", 50)
        SIM = self

    def me(self):
        return self.cur

    def spawn(self, fn, args, kwargs, name=None):
        t = SThread(len(self.threads), name or f"t{len(self.threads)}")
        self.threads.append(t)

        def boot():
            t.sem.acquire()
            try:
                if self.aborting:
                    return
                if self.line_preempt:
                    sys.settrace(self._tracer)
                fn(*args, **kwargs)
            except (SimAbort, SystemExit):
                pass
            finally:
                sys.settrace(None)
                t.done, t.runnable = True, False
                if t.sentinel is not None:
                    t.sentinel._force_release()
                self._thread_end(t)
        _rt.start_new_thread(boot, ())
        self.yield_("spawn")
        return t

    def _thread_end(self, t):
        nxt = self._pick_next()
        if nxt is None:
            return
        self.cur = nxt
        nxt.sem.release()

    def alive(self):
        return [t for t in self.threads if not t.done]

    def _sig(self, t):
        self.switches += 1
        self.sched_sig = (self.sched_sig * 1000003 ^ (t.tid + 1) ^ (len(self.log) << 8)) & 0xFFFFFFFFFFFFFFFF

    def _switch(self, t):
        me = self.cur
        if t is me:
            return
        self._sig(t)
        self.cur = t
        t.sem.release()
        me.sem.acquire()
        self._resumed(me)

    def _resumed(self, me):
        if me.pending is not None:
            e, me.pending = me.pending, None
            raise e
        if self.aborting and me.tid != 0:
            raise SimAbort()

    def yield_(self, label="y", p=None):
        if self.nopre or self.aborting or SIM is not self:
            return
        r = [t for t in self.threads if t.runnable and not t.done]
        if len(r) <= 1:
            return
        me = self.cur
        others = [t for t in r if t is not me]
        i = self.choose("sched", len(others) + 1, p0=1.0 - (self.preempt if p is None else p))
        if i:
            self._switch(others[i - 1])

    def _pick_next(self):
        while True:
            r = [t for t in self.threads if t.runnable and not t.done]
            if r:
                if self.aborting:
                    return r[-1] if r[-1].tid != 0 else r[0]
                return r[self.choose("next", len(r))] if len(r) > 1 else r[0]
            if not self._fire_timer():
                if self.threads[0].done:
                    return None
                self.deadlock = True
                m = self.threads[0]
                m.pending, m.runnable = SimDeadlock("no runnable thread and no timer"), True
                return m

    def _fire_timer(self):
        while self.timers:
            at, _, t, wseq = heapq.heappop(self.timers)
            if t.done or t.runnable or t.wake_seq != wseq:
                continue
            self.now = max(self.now, at)
            t.runnable, t.timed_out = True, True
            return True
        return False

    def block(self, timeout=None):
        """Park the current thread until made runnable or until the virtual timeout. True if woken, False if timed out."""
        me = self.cur
        me.wake_seq += 1
        me.runnable, me.timed_out = False, False
        if me.tid == 0 and not self.child and not self.aborting and _awaits_result():
            self.main_blocks += 1
            if self.main_blocks == self.plan.get("interrupt_block"):
                self.fault("interrupt_while_waiting")
                self.log.append(("raise", "main", "main", self.neval, "KeyboardInterrupt"))
                me.pending, me.runnable = KeyboardInterrupt(f"injected at wait {self.main_blocks}"), True
        if timeout is not None:
            self.tseq += 1
            heapq.heappush(self.timers, (self.now + timeout, self.tseq, me, me.wake_seq))
        nxt = self._pick_next()
        if nxt is not me:
            self._sig(nxt)
            self.cur = nxt
            nxt.sem.release()
            me.sem.acquire()
        me.runnable = True
        self._resumed(me)
        return not me.timed_out

    def wake(self, t):
        t.runnable = True

    def sleep(self, d):
        d = max(0.0, float(d))
        if self.aborting:
            return
        if len(self.threads) == 1 or all(t.done or t is self.cur for t in self.threads):
            self.now += d           # nothing else alive: just advance
            return
        if d == 0:
            self.yield_("sleep0")
            return
        self.block(d)

    # ---------------------------------------------------------------- line level preemption
    def _tracer(self, frame, event, arg):
        if event == "call" and _is_target(frame.f_code):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line":
            me = self.cur
            if me is not None and SIM is self and not self.aborting:
                if me.gap is None:
                    if self.gap_p0 is None:     # some runs switch a few times between lines, others thousands of times
                        self.gap_p0 = (.1, .02, .002)[self.choose("gap-density", 3)]
                    self.n_gaps += 1
                    me.gap = GAPS[self.choose("gap", len(GAPS), p0=self.gap_p0, rare0=True)] if self.n_gaps < 20_000 else GAPS[0]
                me.gap -= 1
                if me.gap <= 0:
                    me.gap = None
                    self.yield_("line", p=0.9)
        return self._local

    # ---------------------------------------------------------------- end of run
    def drain(self, max_virtual=1e7):
        """Let every other thread run until it ends or blocks for good. Returns the threads still alive (blocked)."""
        main = self.threads[0]
        limit = self.now + max_virtual
        while True:
            others = [t for t in self.threads if t is not main and not t.done]
            if not others:
                return []
            r = [t for t in others if t.runnable]
            if not r:
                if not self.timers or self.timers[0][0] > limit or not self._fire_timer():
                    return others
                continue
            # park main as blocked, run someone else, come back on quiescence through the deadlock path
            main.wake_seq += 1
            main.runnable = False
            nxt = r[0]
            self.cur = nxt
            nxt.sem.release()
            main.sem.acquire()
            main.runnable = True
            main.pending = None
            self.cur = main
            if self.deadlock:
                self.deadlock = False

    def stop(self):
        """Unwind every parked thread and deactivate the simulation."""
        global SIM
        main = self.threads[0]
        self.aborting = True
        for _ in range(50):
            others = [t for t in self.threads if t is not main and not t.done]
            if not others:
                break
            for t in others:
                if t.done:
                    continue
                t.runnable = True
                # hand the baton over; the thread unwinds with SimAbort and gives it back through _thread_end
                self.cur = t
                main.runnable = True
                t.sem.release()
                main.sem.acquire()
                main.pending = None
                self.cur = main
        main.done = True
        for p in list(self.pools):
            p._sim_kill()
        if SIM is self:
            SIM = None


def _awaits_result():
    """Is the caller waiting for a worker's result?  (Not inside the library's own thread start, shutdown or lock bookkeeping,
    where an interrupt breaks the standard library itself.)"""
    f = sys._getframe(2)
    for _ in range(14):
        if f is None:
            return False
        n = f.f_code.co_name
        if n in ("shutdown", "_python_exit", "drain", "stop", "start", "_acquire_restore"):
            return False
        if n in ("result", "as_completed", "wait", "exception") and f.f_code.co_filename.endswith("_base.py"):
            return True
        f = f.f_back
    return False


class interruptible:
    """Counts the mealpy lines the calling (main) thread executes; the plan may interrupt it at one of them."""

    def __init__(self, sim):
        self.sim = sim

    def __enter__(self):
        sim = self.sim

        def local(frame, event, arg):
            if event == "line" and sim.cur is not None and sim.cur.tid == 0 and SIM is sim and not sim.aborting:
                sim.main_lines += 1
                if sim.main_lines == sim.plan.get("interrupt_line"):
                    sim.fault("interrupt_at_line")
                    sim.log.append(("raise", "main", "main", sim.neval, "KeyboardInterrupt"))
                    sim.mutable["interrupted_in"] = (frame.f_code.co_name, frame.f_code.co_filename.rsplit("/", 1)[-1], frame.f_lineno)
                    raise KeyboardInterrupt(f"injected at wait {sim.main_lines}")
            return local

        def tracer(frame, event, arg):
            return local if event == "call" and _is_target(frame.f_code) else None
        sys.settrace(tracer)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


_target_cache = {}
TARGET_ROOT = ["/repo/mealpy"]


def _is_target(code):
    v = _target_cache.get(code)
    if v is None:
        v = code.co_filename.startswith(TARGET_ROOT[0])
        _target_cache[code] = v
    return v


# -------------------------------------------------------------------- locks
_real_get_ident = _rt.get_ident


class SimLock:
    """Replacement of _thread.lock.  Outside a simulation it degrades to a plain flag."""
    __slots__ = ("_locked", "_waiters", "__weakref__")

    def __init__(self):
        self._locked = False
        self._waiters = []

    def acquire(self, blocking=True, timeout=-1):
        sim = SIM
        if sim is None or sim.aborting:
            if self._locked and sim is not None and sim.cur.tid != 0:
                if blocking and timeout == -1:
                    raise SimAbort()
                return False
            was = self._locked
            self._locked = True
            return not was or blocking
        sim.yield_("lock")
        deadline = None if timeout is None or timeout < 0 else sim.now + timeout
        while self._locked:
            if not blocking:
                return False
            left = None if deadline is None else deadline - sim.now
            if left is not None and left <= 0:
                return False
            me = sim.cur
            self._waiters.append(me)
            me.waiting_on = self
            try:
                ok = sim.block(left)
            finally:
                me.waiting_on = None
                if me in self._waiters:
                    self._waiters.remove(me)
            if not ok and self._locked:
                return False
        self._locked = True
        return True

    def _force_release(self):
        self._locked = False
        for t in self._waiters:
            t.runnable = True

    def release(self):
        if not self._locked:
            if SIM is not None and not SIM.aborting:
                raise RuntimeError("release unlocked lock")
            return
        self._locked = False
        for t in self._waiters:
            t.runnable = True
        sim = SIM
        if sim is not None and not sim.aborting:
            sim.yield_("unlock")

    def locked(self):
        return self._locked

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    acquire_lock, release_lock, locked_lock = acquire, release, locked

    def _at_fork_reinit(self):
        self._locked, self._waiters = False, []

    def __repr__(self):
        return f"<SimLock {'locked' if self._locked else 'unlocked'}>"


def start_new_thread(function, args, kwargs=None):
    sim = SIM
    if sim is None:
        raise RuntimeError("simulated threads exist only inside a simulation")
    if sim.plan.get("spawn_fail") and sim.choose("spawn_fail", 8) == 7:
        sim.fault("thread_spawn_failure")
        raise RuntimeError("can't start new thread")
    t = sim.spawn(function, args, kwargs or {})
    return 1000 + t.tid


def get_ident():
    sim = SIM
    return 1000 + (sim.cur.tid if sim is not None and sim.cur is not None else 0)


def set_sentinel():
    lk = SimLock()
    sim = SIM
    if sim is not None and sim.cur is not None:
        sim.cur.sentinel = lk
    return lk
