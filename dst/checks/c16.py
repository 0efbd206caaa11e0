"""C16: starting solutions."""
import copy
import json
import random
from collections import Counter

import numpy as np

from .. import engine as E, common as C, workload as W, seams
from ..common import REAL, STUB, ASSUME

ID, TITLE = "C16", "Starting solutions are honoured in every mode"
RULE = ("a job = algorithm x parameters x problem x mode x schedule x starting solutions (list of lists, list of arrays, matrix, tuple; with duplicates and bound-touching rows); "
        "non-trivial = the initial population was evaluated")
CHUNK = 14


def jobs(seed, tier):
    n = {"quick": 8, "thorough": 70}[tier]
    js = C.sweep(seed, tier, ID, n, modes=("single", "swarm", "thread"), mixed=0.25, epoch=2)
    k = {"quick": 1, "thorough": 5}[tier]
    js += [j for j in C.sweep(seed + 7919, tier, ID, k, modes=("process",), epoch=1, pop=12) if C.parallelizable(j["alg"])]
    for j in js:
        r = random.Random(json.dumps(j, sort_keys=True, default=str))
        j["form"] = r.choice(["lists", "arrays", "matrix", "tuple", "matrix", "fortran", "ints", "objects"])
        j["gen"] = r.randint(0, 10 ** 6)
        j["edit"] = r.choice(["none", "dup", "edge"])
        if r.random() < .25:
            j["env"]["plan"] = {"stall_at": r.randint(1, 20), "stall": 2048.0}
    return js


def run(ctx, job):
    alg = job["alg"]
    opt = W.make_optimizer(alg, job["kw"])
    initial = {}

    def hook(tag, ep, o, when):
        pass
    with ctx.env(job["env"]) as sim:
        p = W.problem_object(job["prob"], "gen")
        p.set_seed(job["gen"])
        rows = [np.asarray(p.correct_solution(p.generate_solution()), dtype=float) for _ in range(opt.pop_size)]
        if job["edit"] == "dup":
            rows[3] = rows[0].copy()
            rows[-1] = rows[0].copy()
        if job["edit"] == "edge" and all(v[0] == "float" for v in job["prob"]["vars"]):
            rows[1] = np.array(p.lb, dtype=float)
            rows[-2] = np.array(p.ub, dtype=float)
        orig = [r.copy() for r in rows]
        f = job["form"]
        if f == "ints" and not all(np.all(x == np.rint(x)) for x in rows):
            f = "lists"
        start = {"ints": lambda: [[int(v) for v in x] for x in rows], "objects": lambda: [np.array(x.tolist(), dtype=object) for x in rows], "lists": lambda: [r.tolist() for r in rows], "arrays": lambda: [r.copy() for r in rows], "matrix": lambda: np.array(rows),
                 "tuple": lambda: tuple(tuple(r) for r in rows), "fortran": lambda: np.asfortranarray(np.array(rows))}[f]()
        d, obj = W.build_problem(job["prob"], "s0")
        seam = Seam(opt, sim, initial)
        opt.initialization = seam
        try:
            res = E.run_solve(opt, d, job, "s0", start=start, probe=False)
        finally:
            opt.__dict__.pop("initialization", None)
        sim.drain()
    if "pop" not in initial:
        if res.status == "exc":
            ctx.violate("rejected", alg, f"{job['mode']}: feasible starting solutions ({f}) made the solve fail: {res.exc_type}: {res.exc_msg} {res.tb}")
        else:
            ctx.skip(res.status or "?")
        return
    if initial["pop"] is None:
        ctx.violate("not-the-start", alg, f"{job['mode']}: no initial population was made from the starting solutions")
        return
    # the population formed from the starting solutions, and what the standard initialisation leaves of it
    for what, pop in (("entering", initial["pop"]), ("after", initial.get("after"))):
        if pop is None:
            continue
        if len(pop) != len(orig):
            ctx.violate("wrong-size", alg, f"{len(orig)} starting solutions, population {what} initialisation has {len(pop)}")
            return
        for i, (o, (x, fit, objs)) in enumerate(zip(orig, pop)):
            if not np.array_equal(o, x):
                ctx.violate("not-the-start", alg, f"{job['mode']}: agent {i} of the population {what} initialisation is {E.short(P(x))}, the starting solution is {E.short(P(o))}")
                break
    pop = initial["pop"]
    val = {}
    cnt = Counter()
    for e in res.evals[:initial["evals"]]:
        val[E.bits(e[4])] = np.array(e[5], dtype=float).flatten()
        cnt[E.bits(e[4])] += 1
    want = Counter(E.bits(o) for o in orig)
    for i, (x, fit, objs) in enumerate(pop):
        v = val.get(E.bits(x))
        if v is None or not np.array_equal(v, objs, equal_nan=True):
            ctx.violate("start-not-evaluated", alg, f"{job['mode']}: agent {i} of the initial population carries objectives {objs.tolist()}, the objective returned {None if v is None else v.tolist()}")
            break
    extra = OWN_EXTRA.get(alg, 0)
    for k, c in want.items():
        if cnt.get(k, 0) != c and not (extra and cnt.get(k, 0) >= c):
            ctx.violate("not-once", alg, f"{job['mode']}: a starting solution given {c} times was evaluated {cnt.get(k, 0)} times during initialisation")
            break
    now = [np.asarray(r, dtype=float) for r in start]
    if any(not np.array_equal(a, b) for a, b in zip(now, orig)):
        ctx.violate("caller-data-modified", alg, f"the caller's starting solutions ({f}) were changed by the solve")
    if res.ok():
        mm = job["prob"]["minmax"]
        for i, (x, fit, objs) in enumerate(pop):
            v = val.get(E.bits(orig[i]))
            if v is None:
                continue
            ff = C.fitness_of(v, job["prob"].get("weights"))
            if C.better(ff, float(res.best.target.fitness), mm) and not np.isclose(ff, res.best.target.fitness, rtol=1e-12, atol=0):
                ctx.violate("worse-than-start", alg, f"returned fitness {res.best.target.fitness}, starting solution {i} has {ff} ({mm})")
                break
    else:
        ctx.skip(f"after initialisation: {res.status} {res.exc_type} {alg}")


# algorithms whose agents carry a second position that may coincide with a starting solution
OWN_EXTRA = {"ModifiedSLO": 1, "ImprovedSLO": 1}


def P(x):
    class A:
        pass
    return np.asarray(x)


class Seam:
    """Looks at the population handed to initialization() and, for the standard one, at what it leaves."""

    def __init__(self, opt, sim, out):
        self.opt, self.sim, self.out = opt, sim, out

    def __call__(self):
        opt, sim, out = self.opt, self.sim, self.out

        def snap():
            return [(np.array(a.solution, dtype=float), float(a.target.fitness), np.array(a.target.objectives, dtype=float)) for a in opt.pop]
        out["pop"] = snap() if opt.pop is not None else None
        out["evals"] = len([e for e in sim.log if e[0] == "eval"])
        r = type(opt).initialization(opt)
        if type(opt).initialization is seams.mealpy.Optimizer.initialization:
            out["after"] = snap()
        return r

    def __reduce__(self):       # must not travel into worker processes
        return (E._NullProbe, ())


def shrink(job):
    out = []
    if job["edit"] != "none":
        out.append(dict(job, edit="none"))
    if job["form"] != "arrays":
        out.append(dict(job, form="arrays"))
    return out + C.shrink_job(job)


def signature(job):
    return C.alg_signature(job) + job["form"] + job["edit"]
