"""C02: thread and process modes are the swarm mode, whatever the schedule."""
import random
import json
from collections import Counter

import numpy as np

from .. import engine as E, common as C, workload as W
from ..common import REAL, STUB, ASSUME

ID, TITLE = "C02", "Parallel execution refines sequential execution"
RULE = ("a job = algorithm x parameters x problem x thread|process x workers x seed x schedule, compared against the sequential reference execution "
        "(swarm, or single for algorithms that do not support parallel execution); non-trivial = the objective was evaluated")
CHUNK = 10


def jobs(seed, tier):
    n = {"quick": 6, "thorough": 60}[tier]
    js = C.sweep(seed, tier, ID, n, modes=("thread",), epoch=3, mixed=0.15)
    for j in js:
        r = random.Random(json.dumps(j, sort_keys=True, default=str))
        if r.random() < .2:
            j["env"]["plan"] = {"stall_at": r.randint(1, 60), "stall": 4096.0}
        if r.random() < .15:
            j["n_workers"] = None
    k = {"quick": 1, "thorough": 8}[tier]
    js += [j for j in C.sweep(seed + 7919, tier, ID, k, modes=("process",), epoch=2, pop=12) if C.parallelizable(j["alg"]) or hash(j["seed"]) % 7 == 0]
    return js


def batches(res):
    """Multiset of (solution, objectives) evaluated between consecutive epoch boundaries."""
    out, cur = [], Counter()
    for e in res.log:
        if e[0] == "eval":
            cur[E.bits(e[4]) + b">" + E.bits(np.asarray(e[5], dtype=float))] += 1
        elif e[0] in ("epoch_start", "epoch_end"):
            out.append((e[0], e[2], cur))
            cur = Counter()
    return out


def run(ctx, job):
    par = C.parallelizable(job["alg"])
    ref, _ = C.solve_once(ctx, job, mode="swarm" if par else "single", n_workers=None, env={"lat": C.LAT_ZERO, "plan": {}, "lines": False})
    got, sim = C.solve_once(ctx, job)
    if not ref.ok() and ref.status == got.status and ref.exc_type == got.exc_type:
        ctx.skip(f"{ref.status} {ref.exc_type}")
        return
    a, b = E.outcome(ref, ordered=not par), E.outcome(got, ordered=not par)
    diff = [k for k in a if a.get(k) != b.get(k)]
    if diff:
        kind = "parallel-differs" if par else "fallback-differs-from-single"
        ctx.violate(kind, job["alg"], f"{job['mode']} with {job.get('n_workers')} workers, seed {job['seed']}: differs from the sequential reference in {diff}: "
                    f"{a} vs {b} {got.exc_msg or ''} {got.tb or ''}")
        return
    if ref.ok():
        x, y = batches(ref), batches(got)
        if x != y:
            k = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            ctx.violate("batch-differs", job["alg"], f"{job['mode']}: evaluations of segment {k} ({x[k][:2] if k < len(x) else '-'}) differ from the reference")
    if got.left:
        ctx.violate("workers-left", job["alg"], f"{len(got.left)} workers still alive after the solve returned")


def shrink(job):
    """The compared run stays a parallel one."""
    return [j for j in C.shrink_job(job) if j.get("mode") in ("thread", "process")]


signature = C.alg_signature
