"""Job generation and shrinking shared by the checks."""
import copy
import json
import os
import random

import numpy as np

from . import engine as E, kernel, workload as W, seams

REAL = ["mealpy (all of it, imported from /repo's working tree)", "numpy generators", "concurrent.futures.thread and ._base (stdlib source, run on simulated threads)",
        "threading, queue (stdlib source on simulated locks)", "pickle and separate forked memory images for process-mode tasks"]
STUB = ["_thread primitives (locks, thread start): simulator", "time module: virtual clock", "OS entropy: simulator",
        "concurrent.futures.process pool management: simulated pool with forked children in lockstep", "objective functions: synthetic, recording"]
ASSUME = ["the objective function is a deterministic function of the solution it is given (faults excepted)",
          "preemption of Python code happens between source lines of mealpy, at lock operations and inside objective calls",
          "numpy/scipy/pandas calls are atomic"]

LAT_ZERO = (0.0,)
LAT_SMALL = (0.0, 0.25, 0.5, 0.125, 1.0)
LAT_HEAVY = (0.0, 0.0078125, 0.5, 2.0, 64.0, 0.25)

SEQ_MODES = ("single", "swarm")
PAR_MODES = ("thread", "process")


def gen_env(r, par=False):
    e = {"preempt": r.choice([0.05, 0.25, 0.6]), "lat": r.choice([LAT_ZERO, LAT_SMALL, LAT_SMALL, LAT_HEAVY]),
         "lat_p0": r.choice([0.1, 0.5])}
    if par:
        e["lines"] = r.random() < 0.4
        if e["lines"] and r.random() < .4:       # waiting for slow evaluations leaves few threads to interleave
            e["lat"] = LAT_ZERO
    return e


_parallelizable = {}


def parallelizable(name):
    if name not in _parallelizable:
        _parallelizable[name] = bool(W.make_optimizer(name, W.base_kwargs(name)).is_parallelizable)
    return _parallelizable[name]


def gen_job(r, alg, mode, mixed=0.25, multi=0.3, bad=0.0, vary=0.3, epoch=None, pop=None):
    job = {"alg": alg, "kw": W.gen_kwargs(r, alg, vary=vary, epoch=epoch, pop=pop), "prob": W.gen_problem(r, mixed, multi, bad),
           "mode": mode, "seed": r.choice([0, 1, 7, 42, r.randint(0, 2 ** 31 - 1)]), "env": gen_env(r, mode in PAR_MODES),
           "env_seed": r.getrandbits(40)}
    if mode in PAR_MODES:
        job["n_workers"] = r.choice([2, 2, 3, 4, 5]) if mode == "thread" else r.choice([2, 2, 3])
    return job


def to_grand(j):
    """Put a job on a larger scale: many variables, agents, epochs or workers, a big seed."""
    r = random.Random(json.dumps(j, sort_keys=True, default=str) + "/grand")
    if j["alg"] in W.HEAVY or j["mode"] == "process":
        return j
    sp = W.SPECIAL.get(j["alg"], {})
    k = r.choice(["dims", "pop", "epoch", "workers", "all"])
    if k in ("dims", "all"):
        n = r.choice([11, 16, 25, 40])
        lb = [round(r.uniform(-50, 5), 1) for _ in range(n)]
        j["prob"]["vars"] = [["float", lb, [round(b + r.uniform(1, 100), 1) for b in lb]]]
        if r.random() < .3:
            j["prob"]["vars"] = [["float", lb[:n // 2], [b + 7.5 for b in lb[:n // 2]]], ["int", [-r.randint(0, 9)] * (n - n // 2), [r.randint(1, 99)] * (n - n // 2)]]
        j["prob"].pop("single_bound", None)
    kw = dict(j["kw"])
    if k in ("pop", "all") and "pop_size" not in sp:
        kw["pop_size"] = r.choice([40, 50, 64, 101] if k == "pop" else [33, 50])
        kw["epoch"] = min(kw.get("epoch", 5), 5)
    if k in ("epoch", "all") and "epoch" not in sp:
        kw["epoch"] = r.choice([30, 51, 100]) if k == "epoch" else r.choice([12, 15])
        if k == "epoch" and "pop_size" not in sp:
            kw["pop_size"] = r.choice([10, 12])
    if k in ("workers", "all") and "n_workers" in j:
        j["n_workers"] = r.choice([6, 8, 11, 12])
    try:
        W.make_optimizer(j["alg"], kw)
        j["kw"] = kw
    except Exception:       # noqa: BLE001
        pass
    if r.random() < .4:
        j["seed"] = r.choice([2 ** 31, 2 ** 32 - 1, 2 ** 32 + 3, 2 ** 53 + 1])
    return j


CORNERS = float(os.environ.get("DST_CORNERS", "0.07"))
GRAND = float(os.environ.get("DST_GRAND", "0.04"))


def sweep(seed, tier, pid, per_alg, modes=("single", "swarm"), corners=None, **kw):
    """per_alg jobs for every algorithm, modes in rotation; a share of them on corner problems."""
    jobs = []
    names = list(W.algorithms())
    for rep in range(per_alg):
        for ai, alg in enumerate(names):
            r = random.Random(f"{pid}/{seed}/{rep}/{alg}")
            mode = modes[(rep + ai) % len(modes)]
            j = gen_job(r, alg, mode, **kw)
            if r.random() < (CORNERS if corners is None else corners):
                j = to_corner(j)
            elif r.random() < (GRAND if corners is None else 0):
                j = to_grand(j)
            jobs.append(j)
    return jobs


def corner_problem(r, p):
    """The smallest spaces there are: one or two variables, few values, narrow ranges, flat objectives."""
    k = r.randrange(8)
    if k == 0:
        lo = r.choice([-3.0, 0.0, 2.0])
        v = [["float", [lo], [lo + r.choice([1e-3, 0.5, 10.0, 1e6])]]]
    elif k == 1:
        lo = r.choice([-2, 0, 3])
        v = [["int", [lo], [lo + r.choice([0, 1, 2, 5])]]]
    elif k == 2:
        v = [[r.choice(["bin", "bool"]), r.choice([1, 2])]]
    elif k == 3:
        v = [[r.choice(["cat", "str"]), [["a", "b", "c"][:r.randint(2, 3)]]]]
    elif k == 4:
        v = [["perm", 2]]
    elif k == 5:
        v = [["float", [1.0], [4.0]], ["int", [0], [1]]]
    elif k == 6:
        v = [["float", [-5.0, 2.0], [5.0, 2.0 + r.choice([0.0, 0.0, 1e-9])]]]        # one coordinate is (practically) fixed
    else:
        v = [["tbin", r.choice([1, 2]), r.choice(W.TF), True]]
    p = dict(p, vars=v, obj=dict(p["obj"]))
    p.pop("single_bound", None)
    if r.random() < .4:
        p["obj"]["kind"] = r.choice(["const", "plateau", "plateau"])
    return p


def to_corner(j):
    """Put a job on a corner problem, with many epochs or a small population."""
    r = random.Random(json.dumps(j, sort_keys=True, default=str))
    j["prob"] = corner_problem(r, j["prob"])
    sp = W.SPECIAL.get(j["alg"], {})
    if "epoch" not in sp and j["alg"] not in W.HEAVY and j["mode"] != "process" and r.random() < .5:
        j["kw"]["epoch"] = r.choice([8, 12, 20])
    if "pop_size" not in sp and r.random() < .5:
        kw = dict(j["kw"], pop_size=r.choice([5, 6, 7, 8, 10]))
        try:
            W.make_optimizer(j["alg"], kw)
            j["kw"] = kw
        except Exception:       # noqa: BLE001
            pass
    return j


def corner(seed, pid, per_alg, modes=("single", "swarm", "thread")):
    return [to_corner(j) for j in sweep(seed, None, pid + "/corner", per_alg, modes=modes, vary=.2, corners=0)]


def solve_once(ctx, job, tag="s0", env=None, term=None, start=None, hook=None, seed=None, mode=None, n_workers="job", before=None, log_to=None,
               probe=True, drain=True):
    """One fresh optimizer, one solve, one environment.  Returns (Result, sim)."""
    e = dict(job.get("env", {}))
    e.update(env or {})
    with ctx.env(e) as sim:
        if before:
            before(sim)
        d, obj = W.build_problem(job["prob"], tag, log_to=log_to)
        opt = W.make_optimizer(job["alg"], job["kw"])
        sim.evolve_hook = hook
        sc = {"mode": mode or job["mode"], "n_workers": job.get("n_workers") if n_workers == "job" else n_workers, "seed": job["seed"]}
        sim.mutable["t_start"] = sim.now
        res = E.run_solve(opt, d, sc, tag, term=term, start=start, probe=probe)
        res.left = sim.drain() if drain else []
        res.obj = obj
        res.problem_arg = d
    return res, sim


# --------------------------------------------------------------------- shrinking
def shrink_job(job):
    """Simpler programs, most drastic first."""
    def c(**kw):
        j = copy.deepcopy(job)
        j.update(kw)
        return j
    out = []
    kw = job.get("kw", {})
    if job.get("mode") in ("thread", "process"):
        out += [c(mode="swarm"), c(mode="single")]
        if job["mode"] == "process":
            out.append(c(mode="thread"))
        if (job.get("n_workers") or 2) > 2:
            out.append(c(n_workers=2))
    elif job.get("mode") == "swarm":
        out.append(c(mode="single"))
    env = job.get("env", {})
    if env.get("lat") and tuple(env["lat"]) != LAT_ZERO:
        out.append(c(env={**env, "lat": LAT_ZERO}))
    if env.get("lines"):
        out.append(c(env={**env, "lines": False}))
    base = W.base_kwargs(job["alg"]) if job.get("alg") else {}
    if kw:
        for k in list(kw):
            if k not in base and k not in ("epoch", "pop_size"):
                j = copy.deepcopy(job)
                del j["kw"][k]
                out.append(j)
        for e in (1, 2, 3):
            if kw.get("epoch", 0) > e and "epoch" not in W.SPECIAL.get(job.get("alg"), {}):
                out.append(c(kw={**kw, "epoch": e}))
        for p in (6, 10, 12):
            if kw.get("pop_size", 0) > p:
                out.append(c(kw={**kw, "pop_size": p}))
    p = job.get("prob")
    if p:
        simple = [["float", [-10.0, -10.0], [10.0, 10.0]]]
        if p["vars"] != simple:
            out.append(c(prob={**p, "vars": simple}))
        if len(p["vars"]) > 1:
            for i in range(len(p["vars"])):
                out.append(c(prob={**p, "vars": p["vars"][:i] + p["vars"][i + 1:]}))
        if p["obj"].get("nobj", 1) > 1:
            o = dict(p["obj"]); o["nobj"] = 1
            q = {k: v for k, v in p.items() if k != "weights"}; q["obj"] = o
            out.append(c(prob=q))
        if p["minmax"] == "max":
            o = dict(p["obj"]); o["minmax"] = "min"
            out.append(c(prob={**p, "minmax": "min", "obj": o}))
        for k in ("scale", "bad"):
            if p["obj"].get(k):
                o = dict(p["obj"]); o.pop(k)
                out.append(c(prob={**p, "obj": o}))
        if p["obj"].get("kind") != "sphere":
            o = dict(p["obj"]); o["kind"] = "sphere"
            out.append(c(prob={**p, "obj": o}))
        if p.get("save_population"):
            out.append(c(prob={**p, "save_population": False}))
    good = []
    for j in out:
        try:
            if j.get("alg"):
                W.make_optimizer(j["alg"], j["kw"])
            good.append(j)
        except Exception:       # noqa: BLE001
            continue
    return good


def better(a, b, mm):
    """a strictly better than b; NaN is worse than everything."""
    if np.isnan(a):
        return False
    if np.isnan(b):
        return True
    return a < b if mm == "min" else a > b


def is_bad(v, mm):
    return bool(np.isnan(v) or (np.isposinf(v) if mm == "min" else np.isneginf(v)))


def fitness_of(objs, weights):
    o = np.array(objs, dtype=float).flatten()
    w = np.ones(len(o)) if weights is None else np.array(weights, dtype=float).flatten()
    return np.dot(w, o)


def alg_signature(job):
    return "|".join(str(x) for x in (job.get("alg"), job.get("mode"), sorted(job.get("kw", {}).items()), job.get("prob"), job.get("seed"), job.get("n_workers"), job.get("term"), job.get("env_seed")))
