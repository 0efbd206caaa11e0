"""C04: every reported agent is a real (solution, objectives, fitness) evaluation of this very solve."""
import numpy as np

from .. import engine as E, common as C, workload as W
from ..common import REAL, STUB, ASSUME

ID, TITLE = "C04", "Reported results are real evaluations"
RULE = ("a job = algorithm x constructor parameters x problem (variable types, objectives, direction) x mode x seed x environment seed; "
        "all drawn from VERIF_SEED; non-trivial = the objective was evaluated; distinct = different job")
CHUNK = 16


def jobs(seed, tier):
    n = {"quick": 8, "thorough": 60}[tier]
    js = C.sweep(seed, tier, ID, n, modes=("single", "swarm", "single", "swarm", "single", "thread"))
    k = {"quick": 1, "thorough": 6}[tier]
    js += C.sweep(seed + 7919, tier, ID, k, modes=("process",), epoch=2, pop=12)
    return js


def check_pairs(ctx, job, res, subject):
    seen = {}
    w = job["prob"].get("weights")
    for e in res.evals:
        objs = np.array(e[5], dtype=float).flatten()
        seen.setdefault(E.bits(e[4]), set()).add(objs.tobytes())

    def ok(a, where):
        if a is None or a.target is None:
            ctx.violate("agent-without-target", subject, f"{where}: {a}")
            return False
        o = np.array(a.target.objectives, dtype=float).flatten()
        s = seen.get(E.bits(a.solution))
        if s is None:
            ctx.violate("not-evaluated", subject, f"{where}: solution {C.E.short(a.solution)} was never given to the objective in this solve "
                        f"(objectives reported {o.tolist()})")
            return False
        if o.tobytes() not in s:
            ctx.violate("wrong-target", subject, f"{where}: solution {C.E.short(a.solution)} reported with objectives {o.tolist()}, "
                        f"but the objective returned {[np.frombuffer(x).tolist() for x in list(s)[:3]]}")
            return False
        f = C.fitness_of(o, w)
        g = a.target.fitness
        if not (np.isclose(f, g, rtol=1e-12, atol=0, equal_nan=True) or f == g):
            ctx.violate("wrong-fitness", subject, f"{where}: fitness {g} but weights x objectives = {f}")
            return False
        return True
    h = res.opt.history
    ok(res.best, "returned best")
    for name in ("list_global_best", "list_current_best", "list_global_worst", "list_current_worst"):
        for i, a in enumerate(getattr(h, name)):
            if not ok(a, f"history.{name}[{i}]"):
                break
    for i, pop in enumerate(h.list_population):
        for j, a in enumerate(pop):
            if not ok(a, f"history.list_population[{i}][{j}]"):
                break
    for j, a in enumerate(res.opt.pop or []):
        if not ok(a, f"final population[{j}]"):
            break


def run(ctx, job):
    res, sim = C.solve_once(ctx, job)
    if not res.ok():
        ctx.skip(f"{res.status} {res.exc_type}")
        return
    check_pairs(ctx, job, res, job["alg"])


shrink = C.shrink_job
signature = C.alg_signature
