"""Runs one scenario (a JSON-able description of a program) under one environment (seed or recorded decisions)."""
import contextlib
import gc
import hashlib
import io
import os
import random
import signal
import sys
import traceback

import numpy as np

from . import kernel, seams, workload

gc.disable()


class _Sink(io.StringIO):
    def write(self, s):
        return len(s)

    def flush(self):
        pass


SINK = _Sink()


class HardHang(BaseException):
    pass


class EvolveProbe:
    """Wraps one optimizer's evolve(): marks epoch boundaries in the event log.  Never pickled with its state."""

    def __init__(self, opt, tag):
        self.opt, self.tag = opt, tag
        self.fn = type(opt).evolve

    def __call__(self, *a, **k):
        sim = kernel.SIM
        ep = a[0] if a else k.get("epoch")
        sim.log.append(("epoch_start", self.tag, ep, sim.now, snap_nfe(self.opt)))
        if sim.evolve_hook:
            sim.evolve_hook(self.tag, ep, self.opt, "start")
        r = self.fn(self.opt, *a, **k)
        st = sim.plan.get("evolve_stall")
        if st and sim.choose("evolve_stall", 3, p0=0.6):
            sim.fault("stalled_epoch")
            sim.sleep(st)
        sim.log.append(("epoch_end", self.tag, ep, sim.now, snap_nfe(self.opt)))
        if sim.evolve_hook:
            sim.evolve_hook(self.tag, ep, self.opt, "end")
        return r

    def __reduce__(self):
        return (_NullProbe, ())


class _NullProbe:
    def __call__(self, *a, **k):
        raise RuntimeError("probe used in a worker")


def snap_nfe(opt):
    return getattr(opt, "nfe_counter", None)


class Env:
    """One simulated environment: `with Env(seed) as sim: ...`"""

    def __init__(self, env_seed=0, decisions=None, env=None, keep_labels=False, wall=None):
        self.env_seed, self.decisions = env_seed, decisions
        self.env = dict(env or {})
        self.keep_labels = keep_labels
        self.wall = wall or 60

    def __enter__(self):
        e = self.env
        sim = kernel.Sim(self.env_seed, self.decisions, preempt=e.get("preempt", 0.25), line_preempt=e.get("lines", False))
        sim.keep_labels = self.keep_labels
        sim.plan = dict(e.get("plan", {}))
        if "lat" in e:
            sim.lat_table = tuple(e["lat"])
        if "lat_p0" in e:
            sim.lat_p0 = e["lat_p0"]
        self.sw = seams.swapped()
        self.sw.__enter__()
        self.cm = contextlib.ExitStack()
        self.cm.enter_context(contextlib.redirect_stdout(SINK))
        self.cm.enter_context(contextlib.redirect_stderr(SINK))
        seams.reset_thread_module()
        sim.start()
        seams.seed_globals(sim)
        self.sim = sim

        def onalarm(sig, frm):
            raise HardHang()
        if not sim.child:
            signal.signal(signal.SIGALRM, onalarm)
            signal.signal(signal.SIGPROF, onalarm)
            signal.setitimer(signal.ITIMER_PROF, self.wall)         # CPU time: a busy machine is not a hang
            signal.setitimer(signal.ITIMER_REAL, 10 * self.wall)
        return sim

    def __exit__(self, et, ev, tb):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        try:
            self.sim.stop()
        finally:
            kernel.SIM = None
            self.cm.close()
            self.sw.__exit__()
        if len(self.sim.threads) > 1 or self.sim.probes.get("child_process"):
            pass
        return False


def bits(a):
    a = np.asarray(a)
    if a.dtype == object:
        return repr(a.tolist()).encode()
    if a.dtype.kind in "fiub":
        return np.ascontiguousarray(a, dtype=np.float64).tobytes()
    return a.tobytes() + str(a.dtype).encode()


def fbits(v):
    try:
        return np.float64(v).tobytes()
    except Exception:       # noqa: BLE001
        return repr(v).encode()


def agent_key(a):
    return bits(a.solution) + b"|" + bits(a.target.objectives) + b"|" + fbits(a.target.fitness)


def short(a):
    return [float(f"{v:.6g}") for v in np.asarray(a, dtype=float).ravel()[:8]]


class Result:
    """What a caller can see of one solve."""

    def __init__(self):
        self.status, self.exc, self.exc_type, self.exc_msg, self.tb = None, None, None, None, None
        self.best = None
        self.site = None
        self.opt = None
        self.evals = []
        self.epochs = []
        self.hist = None

    def ok(self):
        return self.status == "ok"


def run_solve(opt, problem, sc, tag="s0", probe=True, term=None, start=None, **kw):
    """Call solve() and classify the outcome (inside an Env)."""
    res = Result()
    res.opt = opt
    sim = kernel.SIM
    if probe:
        opt.evolve = EvolveProbe(opt, tag)
    first = len(sim.log)
    args = {"mode": sc.get("mode", "single"), "n_workers": sc.get("n_workers"), "seed": sc.get("seed")}
    if term is not None:
        args["termination"] = term
    if start is not None:
        args["starting_solutions"] = start
    args.update(kw)
    try:
        res.best = opt.solve(problem, **args)
        res.status = "ok"
    except kernel.SimDeadlock as e:
        res.status, res.exc = "deadlock", e
    except kernel.SimStuck as e:
        res.status, res.exc = "stuck", e
    except HardHang as e:
        res.status, res.exc = "hang", e
    except kernel.SimAbort:
        raise
    except BaseException as e:      # noqa: BLE001
        res.status, res.exc = "exc", e
        res.exc_type, res.exc_msg = type(e).__name__, str(e)
        fr = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(seams.REPO)]
        res.tb = " <- ".join(f"{f.name} ({os.path.basename(f.filename)}:{f.lineno}: {f.line})" for f in reversed(fr[-3:]))
        res.site = fr[-1].name if fr else "?"
    finally:
        if probe:
            opt.__dict__.pop("evolve", None)
    if sim.stuck and res.status == "exc":
        res.status = "stuck"
    res.log = [e for e in sim.log[first:] if e[1] == tag]
    res.evals = [e for e in res.log if e[0] == "eval"]
    res.tb_line = None
    return res


def history_digest(h, with_time=False):
    """Everything in a history that the seed must determine (clock readings excluded)."""
    d = hashlib.sha256()
    for name in ("list_global_best", "list_current_best", "list_global_worst", "list_current_worst"):
        L = getattr(h, name)
        d.update(b"%d" % len(L))
        for a in L:
            d.update(agent_key(a))
    for name in ("list_global_best_fit", "list_current_best_fit", "list_diversity", "list_exploration", "list_exploitation"):
        L = np.array(getattr(h, name), dtype=float)
        d.update(b"%d" % len(L))
        d.update(L.tobytes())
    for pop in h.list_population:
        d.update(b"p%d" % len(pop))
        for a in pop:
            d.update(agent_key(a))
    return d.hexdigest()[:16]


def eval_digest(evals, ordered):
    ks = [bits(e[4]) + b">" + bits(np.asarray(e[5], dtype=float)) for e in evals]
    if not ordered:
        ks = sorted(ks)
    d = hashlib.sha256()
    for k in ks:
        d.update(k)
    return d.hexdigest()[:16]


def outcome(res, ordered=True):
    """Comparable summary of a solve: identical programs must give identical outcomes."""
    if res.status == "ok":
        return {"status": "ok", "best": hashlib.sha256(agent_key(res.best)).hexdigest()[:16],
                "history": history_digest(res.opt.history), "evals": eval_digest(res.evals, ordered), "n": len(res.evals),
                "fitness": float(res.best.target.fitness), "epochs": len(res.opt.history.list_epoch_time)}
    return {"status": res.status, "exc": res.exc_type, "n": len(res.evals)}
