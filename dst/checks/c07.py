"""C07: the accounted number of evaluations is the real one; the budget stops at the first boundary."""
import json
import random

from .. import engine as E, common as C, workload as W, seams
from ..common import REAL, STUB, ASSUME

ID, TITLE = "C07", "Function-evaluation accounting is exact"
RULE = ("a job = algorithm x parameters x problem x mode x workers x schedule x optional budget; real objective calls are counted by the simulator at each epoch boundary; "
        "non-trivial = at least one epoch boundary was reached")
CHUNK = 14


def jobs(seed, tier):
    n = {"quick": 9, "thorough": 90}[tier]
    js = C.sweep(seed, tier, ID, n, modes=("single", "swarm", "thread"), mixed=0.15)
    k = {"quick": 1, "thorough": 6}[tier]
    js += [j for j in C.sweep(seed + 7919, tier, ID, k, modes=("process",), epoch=2, pop=12) if C.parallelizable(j["alg"])]
    for j in js:
        r = random.Random(json.dumps(j, sort_keys=True, default=str))
        if r.random() < .6:
            pop = j["kw"].get("pop_size", 20)
            j["max_fe"] = max(10, r.choice([10, pop, pop + 1, 2 * pop, 2 * pop - 1, 3 * pop, r.randint(5, 8 * pop)]))
        j["term_obj"] = r.random() < .3
        j["start"] = r.random() < .15
    return js


def run(ctx, job):
    counts = []

    fe = job.get("max_fe")
    alg = job["alg"]
    with ctx.env(job["env"]) as sim:
        d, obj = W.build_problem(job["prob"], "s0")
        opt = W.make_optimizer(job["alg"], job["kw"])
        term = None
        if fe:
            term = seams.mealpy.Termination(log_to=None, max_fe=fe) if job.get("term_obj") else {"max_fe": fe}
        start = None
        if job.get("start"):
            p = W.problem_object(job["prob"], "gen")
            p.set_seed(5)
            start = [p.generate_solution() for _ in range(opt.pop_size)]

        def hook(tag, ep, o, when):
            if when == "end" or (when == "start" and not counts):
                counts.append((ep if when == "end" else 0, sum(1 for e in sim.log if e[0] in ("eval", "raise") and e[1] == tag), o.nfe_counter))
        sim.evolve_hook = hook
        res = E.run_solve(opt, d, job, "s0", term=term, start=start)
        sim.drain()
    if not counts:
        ctx.skip(f"{res.status} {res.exc_type}")
        return
    for ep, real, acc in counts:
        if real != acc:
            ctx.violate("miscounted", alg, f"{job['mode']}: at the end of epoch {ep} the solve accounts for {acc} evaluations, the objective was called {real} times "
                        f"(all boundaries: {counts[:6]})")
            break
    if not res.ok():
        ctx.skip(f"after some epochs: {res.status} {res.exc_type}")
        return
    ends = [c for c in counts if c[0] > 0]
    last = ends[-1][0] if ends else 0
    if fe:
        want = next((ep for ep, real, acc in ends if real >= fe), opt.epoch)
        if want != last:
            ctx.violate("budget", alg, f"{job['mode']}: max_fe={fe}: ended after epoch {last}, but the first boundary with {fe} real calls is epoch {want} ({counts[:8]})")
        if not ends or (ends[-1][1] < fe and last != opt.epoch):
            ctx.violate("budget", alg, f"max_fe={fe}: stopped at epoch {last} of {opt.epoch} with {ends[-1][1] if ends else 0} real calls")


def shrink(job):
    out = []
    if job.get("max_fe"):
        out.append({k: v for k, v in job.items() if k != "max_fe"})
    if job.get("start"):
        out.append(dict(job, start=False))
    return out + C.shrink_job(job)


def signature(job):
    return C.alg_signature(job) + str(job.get("max_fe"))
