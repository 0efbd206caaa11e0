"""C20: undefined, infinite or huge objective values at arbitrary evaluations never break a solve."""
import json
import random

import numpy as np

from .. import engine as E, common as C, workload as W
from ..common import REAL, STUB, ASSUME
from .c06 import feasible

ID, TITLE = "C20", "Undefined or infinite objective values never break a solve"
RULE = ("a job = algorithm x parameters x problem x mode x seed x corruption plan (which evaluations, counted over the solve, or which region of the space, "
        "return NaN, +inf, -inf or +-1e300); non-trivial = at least one corrupted value was delivered")
CHUNK = 16


def jobs(seed, tier):
    n = {"quick": 8, "thorough": 80}[tier]
    js = C.sweep(seed, tier, ID, n, modes=("single", "swarm", "single", "swarm", "thread"), mixed=0.2, multi=0.2)
    js += [j for j in C.sweep(seed + 7919, tier, ID, {"quick": 1, "thorough": 4}[tier], modes=("process",), epoch=2, pop=12) if C.parallelizable(j["alg"])]
    for j in js:
        r = random.Random(json.dumps(j, sort_keys=True, default=str))
        pop = j["kw"].get("pop_size", 20)
        if r.random() < .3 and j["mode"] != "process":
            j["prob"]["obj"]["bad"] = [r.choice(["nan", "inf"]), r.choice([0.2, 0.8, 1.5])]
        else:
            kind = r.choice(["nan", "nan", "inf", "-inf", "huge", "-huge"])
            at = r.choice([sorted(r.sample(range(1, 4 * pop), r.randint(1, 6))), (1, pop + 1), (1, r.randint(2, 60)), [1], (pop + 1, 10 ** 6), (1, 10 ** 6)])
            j["env"]["plan"] = {"nan_at" if isinstance(at, list) else "nan_span": list(at), "nan_kind": kind}
    return js


def run(ctx, job):
    counts = []

    def hook(tag, ep, o, when):
        if when == "end" or (when == "start" and not counts):
            counts.append((ep if when == "end" else 0, o.nfe_counter))
    res, sim = C.solve_once(ctx, job, hook=hook)
    alg = job["alg"]
    what = job["prob"]["obj"].get("bad") or (job["env"].get("plan") or {}).get("nan_kind")
    if not res.evals:
        ctx.skip(f"{res.status} {res.exc_type}")
        return
    if not any(not np.all(np.isfinite(np.array(e[5], dtype=float))) or np.any(np.abs(np.array(e[5], dtype=float)) > 1e200) for e in res.evals):
        ctx.skip("no corrupted value was delivered")
    if not res.ok():
        ctx.violate("broken-" + res.status, alg, f"{job['mode']}, values {what}: {res.status} {res.exc_type}: {(res.exc_msg or '')[:120]} @ {res.tb} after {len(res.evals)} evaluations")
        return
    n = len(res.opt.history.list_epoch_time)
    if n != res.opt.epoch:
        ctx.violate("stopped-early", alg, f"values {what}: {n} epochs were executed instead of {res.opt.epoch}")
    if counts and counts[-1][1] != len(res.evals):
        ctx.violate("miscounted", alg, f"values {what}: the solve accounts for {counts[-1][1]} evaluations, the objective was called {len(res.evals)} times")
    ref = W.make_vars(job["prob"]["vars"])
    lb = np.concatenate([v.lb for v in ref]).astype(float)
    ub = np.concatenate([v.ub for v in ref]).astype(float)
    for e in res.evals:
        m = feasible(e[4], lb, ub, None, None)
        if m:
            ctx.violate("infeasible-evaluated", alg, f"values {what}: evaluation {e[3]}: {m}")
            break
    m = feasible(res.best.solution, lb, ub, None, None)
    if m:
        ctx.violate("infeasible-reported", alg, f"values {what}: {m}")
    if E.bits(res.best.solution) not in {E.bits(e[4]) for e in res.evals}:
        ctx.violate("best-not-evaluated", alg, f"values {what}: the returned solution was never evaluated")


def shrink(job):
    out = []
    pl = job["env"].get("plan")
    if pl and pl.get("nan_at"):
        at = pl["nan_at"]
        if len(at) > 1:
            for h in (at[:len(at) // 2], at[len(at) // 2:]):
                out.append(dict(job, env=dict(job["env"], plan=dict(pl, nan_at=h))))
    if pl and pl.get("nan_span"):
        a, b = pl["nan_span"]
        b = min(b, 4096)
        if b - a > 1:
            for x, y in ((a, (a + b) // 2), ((a + b) // 2, b)):
                out.append(dict(job, env=dict(job["env"], plan=dict(pl, nan_span=[x, y]))))
    return out + C.shrink_job(job)


signature = C.alg_signature
