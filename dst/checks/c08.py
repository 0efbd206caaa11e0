"""C08: stopping criteria on a virtual clock, and bounded termination of every fault-free solve."""
import json
import random

import numpy as np

from .. import engine as E, common as C, workload as W, seams
from ..common import REAL, STUB, ASSUME

ID, TITLE = "C08", "A solve stops at the first epoch boundary where a criterion holds"
RULE = ("a job = algorithm x parameters x problem x mode x criteria combination x evaluation latencies, stalls and wall-clock jumps; a reference model of the criteria "
        "replays the recorded boundaries (virtual time, real calls, best fitness); non-trivial = at least one epoch boundary was reached")
CHUNK = 16


def gen_term(r, pop):
    t = {}
    for _ in range(r.choice([1, 1, 2, 3])):
        k = r.choice(["max_epoch", "max_fe", "max_time", "max_time", "max_early_stop"])
        if k == "max_epoch":
            t[k] = r.choice([1, 2, 3, 5, 100])
        elif k == "max_fe":
            t[k] = max(10, r.choice([10, pop, 2 * pop, r.randint(5, 6 * pop)]))
        elif k == "max_time":
            t[k] = r.choice([0.25, 0.5, 1.0, 4.0, 16.0, 64.0, 100.0, 1000.0, r.randint(1, 200) * 0.125])
        else:
            t[k] = r.choice([1, 2, 3])
            if r.random() < .5:
                t["epsilon"] = r.choice([0.0, 1e-6, 0.5, 10.0, 1e9])
    return t


def jobs(seed, tier):
    n = {"quick": 13, "thorough": 90}[tier]
    js = C.sweep(seed, tier, ID, n, modes=("single", "swarm", "single", "thread", "swarm"), mixed=0.2)
    k = {"quick": 15, "thorough": 300}[tier]
    r0 = random.Random(f"{ID}/proc/{seed}")
    names = [a for a in W.algorithms() if C.parallelizable(a)]
    js += [C.gen_job(r0, r0.choice(names), "process", epoch=3, pop=12) for _ in range(k)]
    js += C.corner(seed, ID, {"quick": 3, "thorough": 40}[tier])
    for j in js:
        r = random.Random(json.dumps(j, sort_keys=True, default=str))
        pop = j["kw"].get("pop_size", 20)
        j["env"]["lat"] = r.choice([C.LAT_SMALL, C.LAT_SMALL, C.LAT_HEAVY, C.LAT_ZERO])
        plan = {}
        if r.random() < .5:
            plan["clock_jumps"] = True
        if r.random() < .3:
            plan.update(stall_at=r.randint(1, 4 * pop), stall=r.choice([8.0, 512.0, 65536.0]))
        if r.random() < .3:
            plan.update(evolve_stall=r.choice([0.25, 8.0, 1024.0]))
        if plan:
            j["env"]["plan"] = plan
        if r.random() < .8:
            j["term"] = gen_term(r, pop)
            j["term_obj"] = r.random() < .3
            if r.random() < .2:
                j["prob"]["obj"]["kind"] = r.choice(["plateau", "const"])
            elif r.random() < .06:      # regions without a proper value, or nothing but such a region
                j["prob"]["obj"]["bad"] = [r.choice(["inf", "inf", "nan"]), r.choice([-99.0, -99.0, 1.5, 0.2])]
            if "max_early_stop" in j["term"] and r.random() < .3 and j["alg"] not in W.HEAVY and j["mode"] != "process" and "epoch" not in W.SPECIAL.get(j["alg"], {}):
                j["term"]["max_early_stop"] = r.choice([4, 5, 8, 12])
                j["kw"]["epoch"] = r.choice([10, 20, 30])
                j["prob"]["obj"]["kind"] = r.choice([j["prob"]["obj"]["kind"], "plateau"])
    return js


def run(ctx, job):
    t = job.get("term")
    alg = job["alg"]
    best0 = []

    def hook(tag, ep, o, when):
        if when == "start" and not best0:
            best0.append(float(o.g_best.target.fitness))
    with ctx.env(job["env"]) as sim:
        d, obj = W.build_problem(job["prob"], "s0")
        opt = W.make_optimizer(job["alg"], job["kw"])
        sim.evolve_hook = hook
        term = None
        if t:
            term = seams.mealpy.Termination(log_to=None, **t) if job.get("term_obj") else dict(t)
        sim.sleep(0.5)          # the caller does something else between creating the criteria and solving
        t0 = sim.now
        res = E.run_solve(opt, d, job, "s0", term=term)
        left = sim.drain()
        if sim.wall_jump:
            sim.probe("solve_with_wall_jump")
    if res.status in ("deadlock", "stuck", "hang"):
        ctx.violate("never-returns", alg, f"{job['mode']}: {res.status}: {res.exc} after {len(res.evals)} evaluations, {sum(1 for e in res.log if e[0] == 'epoch_end')} epochs")
        return
    if not res.ok():
        ctx.violate(f"crash-{res.exc_type}@{res.site}", alg, f"{job['mode']}, {job['kw']}: fault-free solve raised {res.exc_type}: {res.exc_msg}\n{res.tb}")
        return
    if left:
        ctx.violate("workers-left", alg, f"{len(left)} workers alive after the solve returned")
    ends = [e for e in res.log if e[0] == "epoch_end"]
    h = res.opt.history
    fits = best0 + [float(v) for v in h.list_global_best_fit]
    n_epochs = len(h.list_epoch_time)
    if len(ends) != n_epochs or len(fits) != n_epochs + 1:
        ctx.violate("epochs-lost", alg, f"{len(ends)} epochs ran, history has {n_epochs}")
        return
    calls, want, why = 0, opt.epoch, "configured epochs"
    if t:
        eps = t.get("epsilon", 1e-10)
        es = 0
        it = iter(res.log)
        k = 0
        for e in it:
            if e[0] == "eval":
                calls += 1
            elif e[0] == "epoch_end":
                k += 1
                es = es + 1 if unchanged(fits[k], fits[k - 1], eps) else 0
                crit = []
                if "max_epoch" in t and k >= t["max_epoch"]:
                    crit.append("max_epoch")
                if "max_fe" in t and calls >= t["max_fe"]:
                    crit.append("max_fe")
                if "max_time" in t and e[3] - t0 >= t["max_time"]:
                    crit.append("max_time")
                if "max_early_stop" in t and es >= t["max_early_stop"]:
                    crit.append("max_early_stop")
                if crit:
                    want, why = k, crit
                    for c in crit:
                        ctx.probes["stopped_by_" + c] = ctx.probes.get("stopped_by_" + c, 0) + 1
                    break
        else:
            if n_epochs < opt.epoch:
                want, why = ">" + str(n_epochs), "no criterion holds at any executed boundary"
    if want != n_epochs:
        ctx.violate("wrong-stop", alg, f"{job['mode']}: criteria {t}: ended after epoch {n_epochs} of {opt.epoch}, expected {want} ({why}); "
                    f"boundary times {[e[3] - t0 for e in ends][:8]}, best {fits[:8]}")


def unchanged(a, b, eps):
    return bool(a == b or (np.isnan(a) and np.isnan(b)) or abs(a - b) <= eps)


def shrink(job):
    out = []
    t = job.get("term")
    if t:
        for k in t:
            t2 = {a: b for a, b in t.items() if a != k}
            if any(a.startswith("max") for a in t2):
                out.append(dict(job, term=t2))
        out.append({k: v for k, v in job.items() if k != "term"})
    if job["env"].get("plan"):
        for k in job["env"]["plan"]:
            out.append(dict(job, env=dict(job["env"], plan={a: b for a, b in job["env"]["plan"].items() if a != k})))
    return out + C.shrink_job(job)


def signature(job):
    return C.alg_signature(job) + str(job.get("term")) + str(job["env"].get("plan"))
