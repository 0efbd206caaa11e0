"""C05: best tracking, including under corrupted evaluations."""
import copy
import json
import random

import numpy as np

from .. import engine as E, common as C, workload as W
from ..common import REAL, STUB, ASSUME

ID, TITLE = "C05", "The reported best never gets worse and is never beaten"
RULE = ("a job = algorithm x parameters x problem (min/max, plateaus, negative values, evaluations corrupted to NaN or the infinitely bad value) x mode x seed; "
        "the population is read at every epoch boundary; non-trivial = at least one epoch boundary was reached")
CHUNK = 16


def jobs(seed, tier):
    n = {"quick": 13, "thorough": 90}[tier]
    js = C.sweep(seed, tier, ID, n, modes=("single", "swarm", "single", "swarm", "thread"), mixed=0.1)
    for i, j in enumerate(js):
        r = random.Random(json.dumps(j, sort_keys=True, default=str))
        o = j["prob"]["obj"]
        k = r.random()
        if k < .2:
            o["bad"] = [r.choice(["nan", "inf"]), r.choice([0.2, 0.8, 1.5])]
        elif k < .4:
            pop = j["kw"].get("pop_size", 20)
            kind = r.choice(["nan", "nan", "inf" if j["prob"]["minmax"] == "min" else "-inf"])
            at = r.choice([sorted(r.sample(range(1, 4 * pop), r.randint(1, 6))), list(range(1, pop + 1)), list(range(1, r.randint(2, 60))), [1]])
            j["env"]["plan"] = {"nan_at": at, "nan_kind": kind}
        elif k < .5:
            o["kind"] = r.choice(["plateau", "const"])
    return js


def key(v, mm):
    """Smaller is better; NaN is worse than everything."""
    v = float(v)
    if np.isnan(v):
        return (1, 0.0)
    return (0, v if mm == "min" else -v)


def run(ctx, job):
    mm = job["prob"]["minmax"]
    pops = []

    def hook(tag, ep, opt, when):
        if when == "start" and not pops:
            pops.append([float(a.target.fitness) for a in opt.pop] + [float(opt.g_best.target.fitness)])
        if when == "end":
            pops.append([float(a.target.fitness) for a in opt.pop])
    res, sim = C.solve_once(ctx, job, hook=hook)
    faulty = bool(job["prob"]["obj"].get("bad") or job["env"].get("plan"))
    if not res.ok():
        ctx.skip(f"{res.status} {res.exc_type} {'(corrupted evaluations)' if faulty else ''}")
        if len(pops) < 2:
            return
    alg = job["alg"]
    h = res.opt.history
    ok = res.ok()
    off = 0 if ok else 1        # before track_optimize_process the lists still hold the initial entry
    gb = [float(a.target.fitness) for a in h.list_global_best][off:]
    cb = [float(a.target.fitness) for a in h.list_current_best][off:]
    gw = [float(a.target.fitness) for a in h.list_global_worst][off:]
    cw = [float(a.target.fitness) for a in h.list_current_worst][off:]
    n = min(len(gb), len(pops) - 1)
    best, worst = None, None
    kb = [min(key(v, mm) for v in p) for p in pops]
    kw = [max(key(v, mm) for v in p) for p in pops]
    best, worst = kb[0], kw[0]
    for e in range(n):
        g = key(gb[e], mm)
        best, worst = min(best, kb[e + 1]), max(worst, kw[e + 1])
        if e and g > key(gb[e - 1], mm):
            ctx.violate("best-got-worse", alg, f"global best fitness went from {gb[e - 1]} to {gb[e]} at epoch {e + 1} ({mm})")
        if g > best:
            kind = "bad-value-best" if C.is_bad(gb[e], mm) else "best-beaten"
            ctx.violate(kind, alg, f"epoch {e + 1}: global best {gb[e]} but the population has held a better fitness {best} ({mm})")
        if key(cb[e], mm) != kb[e + 1]:
            ctx.violate("current-best-wrong", alg, f"epoch {e + 1}: current best {cb[e]} but the population's best has key {kb[e + 1]} ({mm})")
        w = key(gw[e], mm)
        if e and w < key(gw[e - 1], mm):
            ctx.violate("worst-got-better", alg, f"global worst fitness went from {gw[e - 1]} to {gw[e]} at epoch {e + 1} ({mm})")
        if w < worst:
            ctx.violate("worst-missed", alg, f"epoch {e + 1}: global worst {gw[e]} but the population has held a worse fitness {worst} ({mm})")
        if key(cw[e], mm) != kw[e + 1]:
            ctx.violate("current-worst-wrong", alg, f"epoch {e + 1}: current worst {cw[e]} but the population's worst has key {kw[e + 1]} ({mm})")
    if ok and n:
        if E.agent_key(res.best) != E.agent_key(h.list_global_best[-1]):
            ctx.violate("returned-not-last", alg, f"returned {res.best.target.fitness}, last recorded global best {gb[-1]}")
        if res.opt.g_best is not None and E.agent_key(res.opt.g_best) != E.agent_key(res.best):
            ctx.violate("returned-not-gbest", alg, "optimizer.g_best differs from the returned agent")


def shrink(job):
    out = []
    pl = job["env"].get("plan")
    if pl and pl.get("nan_at"):
        at = pl["nan_at"]
        out.append(dict(job, env={k: v for k, v in job["env"].items() if k != "plan"}))
        if len(at) > 1:
            for h in (at[:len(at) // 2], at[len(at) // 2:]):
                out.append(dict(job, env=dict(job["env"], plan=dict(pl, nan_at=h))))
    return out + C.shrink_job(job)


signature = C.alg_signature
