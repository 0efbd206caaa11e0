"""C06: only feasible candidates are evaluated or reported."""
import numpy as np

from .. import engine as E, common as C, workload as W
from ..common import REAL, STUB, ASSUME

ID, TITLE = "C06", "Only feasible candidates are ever evaluated"
RULE = ("a job = algorithm x constructor parameters x problem (mixed variable types) x mode x seed x environment; "
        "non-trivial = the objective was evaluated; distinct = different job")
CHUNK = 16


def jobs(seed, tier):
    n = {"quick": 10, "thorough": 80}[tier]
    js = C.sweep(seed, tier, ID, n, modes=("single", "swarm", "single", "swarm", "thread"), mixed=0.45, multi=0.1)
    k = {"quick": 1, "thorough": 5}[tier]
    js += C.sweep(seed + 7919, tier, ID, k, modes=("process",), epoch=2, pop=12, mixed=0.5)
    return js


def feasible(x, lb, ub, prob, spec):
    x = np.asarray(x)
    if x.ndim != 1 or len(x) != len(lb):
        return f"shape {x.shape} instead of ({len(lb)},)"
    try:
        xf = x.astype(float)
    except Exception:       # noqa: BLE001
        return f"not numeric: {x.tolist()}"
    if not np.all(np.isfinite(xf)):
        return f"not finite: {xf.tolist()}"
    if np.any(xf < lb) or np.any(xf > ub):
        k = int(np.argmax((xf < lb) | (xf > ub)))
        return f"coordinate {k} = {xf[k]!r} outside [{lb[k]!r}, {ub[k]!r}]"
    return None


def admissible(x, spec, variables, twins):
    """Independent statement of what a decoded value may be, per variable type."""
    i = 0
    for v, var, twin in zip(spec, variables, twins):
        n = var.n_vars
        part = np.asarray(x[i:i + n], dtype=float)
        i += n
        dec = var.decode(np.array(part))
        k = v[0]
        d = list(dec)
        if k in ("tbin", "tbool") and list(twin.decode(np.array(part))) != d:
            return f"{k} block {part.tolist()} decodes to {d} or to something else, at random"
        if k == "float":
            ok = all(l <= z <= u for z, l, u in zip(d, v[1], v[2]))
        elif k == "int":
            ok = all(float(z).is_integer() and l <= z <= u for z, l, u in zip(d, v[1], v[2]))
        elif k == "perm":
            want = list(v[2]) if len(v) > 2 else list(range(v[1]))
            ok = len(d) == len(want) and all(z in want for z in d) and all(z in d for z in want)
        elif k in ("bin", "tbin"):
            ok = all(z in (0, 1) for z in d)
            if k == "tbin" and not v[3]:
                ok = ok and np.sum(part) > 0
        elif k in ("bool", "tbool"):
            ok = all(z in (True, False) for z in d)
        elif k in ("cat", "str"):
            ok = all(z in s for z, s in zip(d, v[1]))
        elif k == "seq":
            ok = tuple(d[0]) in [tuple(s) for s in v[1]]
        else:
            ok = True
        if not ok:
            return f"{k} block {part.tolist()} decodes to {d}"
    return None


def run(ctx, job):
    res, sim = C.solve_once(ctx, job)
    if not res.evals:
        ctx.skip(f"{res.status} {res.exc_type}")
        return
    prob = res.opt.problem
    spec = job["prob"]["vars"]
    ref = W.make_vars(spec)
    for v in ref:
        v.seed = 1
    twins = W.make_vars(spec)
    for v in twins:
        v.seed = 2
    lb = np.concatenate([v.lb for v in ref]).astype(float)
    ub = np.concatenate([v.ub for v in ref]).astype(float)
    for e in res.evals:
        m = feasible(e[4], lb, ub, prob, spec) or admissible(e[4], spec, ref, twins)
        if m:
            ctx.violate("infeasible-evaluated", job["alg"], f"evaluation {e[3]}: {m}; candidate {E.short(e[4])}")
            break
    if res.ok():
        h = res.opt.history
        for where, agents in (("returned best", [res.best]), ("history", h.list_global_best + h.list_current_best + h.list_global_worst + h.list_current_worst),
                              ("snapshot", [a for p in h.list_population for a in p])):
            for a in agents:
                m = feasible(a.solution, lb, ub, prob, spec)
                if m:
                    ctx.violate("infeasible-reported", job["alg"], f"{where}: {m}")
                    break
    else:
        ctx.skip(f"after evaluations: {res.status} {res.exc_type}")


shrink = C.shrink_job
signature = C.alg_signature
