"""Simulated process pool.

Scheduling, start, completion order, crashes and latencies of the workers are decided by the kernel; the tasks
themselves run in real forked children (separate memory image, real pickling), one at a time in lockstep over pipes,
so that nothing but the kernel decides when anything happens.
"""
import gc
import os
import pickle
import struct
import sys
import types
import signal

from . import kernel

CHILD_FDS = set()       # parent's pipe ends, closed in every later child


def _read(fd, n):
    b = b""
    while len(b) < n:
        c = os.read(fd, n - len(b))
        if not c:
            return None
        b += c
    return b


def _send(fd, data):
    data = struct.pack("<Q", len(data)) + data
    mv = memoryview(data)
    while mv:
        n = os.write(fd, mv)
        mv = mv[n:]


def _recv(fd):
    h = _read(fd, 8)
    if h is None:
        return None
    return _read(fd, struct.unpack("<Q", h)[0])


class WorkerDied(Exception):
    pass


def _child_main(rfd, wfd, env_seed, parent_plan, clock0, name, lat_table, lat_p0, probes_meta):
    """Runs in the forked child, never returns."""
    code = 0
    try:
        sys.settrace(None)
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.signal(signal.SIGPROF, signal.SIG_DFL)
        gc.disable()
        for fd in list(CHILD_FDS):
            try:
                os.close(fd)
            except OSError:
                pass
        CHILD_FDS.clear()
        from . import seams
        while True:
            msg = _recv(rfd)
            if msg is None or msg == b"exit":
                break
            now, neval, payload, tseed, epochs = pickle.loads(msg)
            sim = kernel.Sim(env_seed=(env_seed, tseed), decisions=[] if tseed == 0 else None, child=True, now=now, epoch0=clock0)
            sim.plan = dict(parent_plan)
            sim.lat_table, sim.lat_p0 = lat_table, lat_p0
            sim.start()
            sim.threads[0].name = name
            sim.neval = neval
            sim.mutable["parent_epoch"] = epochs
            seams.reset_thread_module()
            try:
                fn, args, kwargs = pickle.loads(payload)
                res = (True, fn(*args, **kwargs))
            except BaseException as e:      # noqa: BLE001 - the real worker forwards BaseException too
                if isinstance(e, kernel.SimAbort):
                    raise
                res = (False, e)
            leftover = len(sim.drain()) if len(sim.threads) > 1 else 0
            dur = sim.now - now
            log = sim.log
            sim.stop()
            try:
                out = pickle.dumps(res)
            except BaseException as e:      # noqa: BLE001
                out = pickle.dumps((False, e if not isinstance(e, kernel.SimAbort) else RuntimeError("x")))
            _send(wfd, pickle.dumps((out, log, dur, sim.neval, sim.faults, sim.probes, leftover)))
    except BaseException as e:      # noqa: BLE001
        code = 77
        if os.environ.get("DST_DEBUG"):
            import traceback
            traceback.print_exc()
        del e
    finally:
        os._exit(code)


class _Child:
    def __init__(self, sim, name):
        self.req_r, self.req_w = os.pipe()
        self.rep_r, self.rep_w = os.pipe()
        CHILD_FDS.update((self.req_w, self.rep_r))
        seed = sim.choose("child_seed", 1 << 16)
        sys.stdout.flush()
        self.pid = os.fork()
        if self.pid == 0:
            kernel.SIM = None
            os.close(self.req_w)
            os.close(self.rep_r)
            CHILD_FDS.discard(self.req_w)
            CHILD_FDS.discard(self.rep_r)
            _child_main(self.req_r, self.rep_w, (sim.env_seed, seed), sim.plan, sim.clock0, name, sim.lat_table, sim.lat_p0, None)
        os.close(self.req_r)
        os.close(self.rep_w)
        self.open = True

    def call(self, sim, payload, tseed):
        ep = sim.mutable.get("epoch_now")
        _send(self.req_w, pickle.dumps((sim.now, sim.neval, payload, tseed, ep)))
        rep = _recv(self.rep_r)
        if rep is None:
            raise WorkerDied()
        return pickle.loads(rep)

    def close(self):
        if not self.open:
            return
        self.open = False
        for fd in (self.req_w, self.rep_r):
            CHILD_FDS.discard(fd)
            try:
                os.close(fd)
            except OSError:
                pass
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass


def build(pkg, base, th, q):
    import concurrent.futures.process as rp     # the real module: helper functions for chunking only
    mod = types.ModuleType("_sim_process")

    class BrokenProcessPool(base.BrokenExecutor):
        pass
    BrokenProcessPool.__module__ = "concurrent.futures.process"

    class _Item:
        __slots__ = ("future", "fn", "args", "kwargs")

        def __init__(self, future, fn, args, kwargs):
            self.future, self.fn, self.args, self.kwargs = future, fn, args, kwargs

    class ProcessPoolExecutor(base.Executor):
        def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), *, max_tasks_per_child=None):
            if max_workers is None:
                max_workers = os.cpu_count() or 1
            if max_workers <= 0:
                raise ValueError("max_workers must be greater than 0")
            self._max_workers = max_workers
            self._initializer, self._initargs = initializer, initargs
            self._queue = q.SimpleQueue()
            self._lock = th.Lock()
            self._threads, self._children = [], []
            self._shutdown_flag, self._broken = False, False
            self._pending = []
            sim = kernel.SIM
            if sim is not None:
                sim.pools.append(self)
                sim.probe("process_pool")

        def submit(self, fn, /, *args, **kwargs):
            with self._lock:
                if self._broken:
                    raise BrokenProcessPool("A child process terminated abruptly, the process pool is not usable anymore")
                if self._shutdown_flag:
                    raise RuntimeError("cannot schedule new futures after shutdown")
                f = base.Future()
                item = _Item(f, fn, args, kwargs)
                self._pending.append(item)
                self._queue.put(item)
                if len(self._threads) < self._max_workers:
                    t = th.Thread(target=self._proxy, args=(len(self._threads),), daemon=True, name=f"proc{len(self._threads)}")
                    self._threads.append(t)
                    t.start()
                return f

        def map(self, fn, *iterables, timeout=None, chunksize=1):
            if chunksize < 1:
                raise ValueError("chunksize must be >= 1.")
            from functools import partial
            if hasattr(rp, "_get_chunks"):
                chunks = rp._get_chunks(*iterables, chunksize=chunksize)
            else:
                import itertools
                chunks = itertools.batched(zip(*iterables), chunksize)
            results = super().map(partial(rp._process_chunk, fn), chunks, timeout=timeout)
            return rp._chain_from_iterable_of_lists(results)

        def _break(self, cause):
            self._broken = True
            for it in list(self._pending):
                if not it.future.done():
                    try:
                        it.future.set_exception(BrokenProcessPool(
                            "A process in the process pool was terminated abruptly while the future was running or pending."))
                    except base.InvalidStateError:
                        pass
            self._pending.clear()
            for _ in self._threads:
                self._queue.put(None)

        def _proxy(self, idx):
            child = None
            while True:
                item = self._queue.get()
                if item is None or self._broken:
                    self._queue.put(None)
                    break
                if not item.future.set_running_or_notify_cancel():
                    if item in self._pending:
                        self._pending.remove(item)
                    continue
                sim = kernel.SIM
                if sim is None or sim.aborting:
                    break
                # latency between submission and pick-up: the payload is pickled when the worker takes it
                sim.yield_("pickup", p=0.5)
                try:
                    payload = pickle.dumps((item.fn, item.args, item.kwargs))
                except BaseException as e:      # noqa: BLE001
                    if item in self._pending:
                        self._pending.remove(item)
                    item.future.set_exception(e)
                    continue
                if child is None:
                    child = _Child(sim, f"proc{idx}")
                    self._children.append(child)
                    sim.probe("child_process")
                try:
                    out, log, dur, neval, faults, probes, leftover = child.call(sim, payload, sim.choose("task_seed", 1 << 16))
                except WorkerDied:
                    sim.fault("worker_process_death_seen")
                    sim.sleep(sim.lat_table[sim.choose("crash_lat", len(sim.lat_table))])
                    self._break("died")
                    break
                sim.log.extend(log)
                sim.neval = max(sim.neval, neval)
                for k, v in faults.items():
                    sim.faults[k] = sim.faults.get(k, 0) + v
                for k, v in probes.items():
                    sim.probes[k] = sim.probes.get(k, 0) + v
                if leftover:
                    sim.mutable["child_leak"] = leftover
                if dur:
                    sim.sleep(dur)
                if self._broken:
                    break
                if item in self._pending:
                    self._pending.remove(item)
                try:
                    ok, val = pickle.loads(out)
                except BaseException:       # noqa: BLE001 - a result that cannot be unpickled breaks the real pool
                    self._break("unpickle")
                    break
                if ok:
                    item.future.set_result(val)
                else:
                    item.future.set_exception(val)
                del item
            if child is not None:
                child.close()

        def shutdown(self, wait=True, *, cancel_futures=False):
            with self._lock:
                self._shutdown_flag = True
                if cancel_futures:
                    while True:
                        try:
                            it = self._queue.get_nowait()
                        except q.Empty:
                            break
                        if it is not None:
                            it.future.cancel()
                self._queue.put(None)
            if wait:
                for t in self._threads:
                    t.join()
                self._sim_kill()
                sim = kernel.SIM
                if sim is not None and self in sim.pools:
                    sim.pools.remove(self)

        def _sim_kill(self):
            for c in self._children:
                c.close()

    mod.ProcessPoolExecutor = ProcessPoolExecutor
    mod.BrokenProcessPool = BrokenProcessPool
    return mod
