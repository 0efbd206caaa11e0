"""C11: solves running concurrently in one process do not disturb each other."""
import copy
import json
import random

from .. import common as C, engine as E, kernel, seams, workload as W
from ..common import REAL, STUB, ASSUME

ID, TITLE = "C11", "Solves running concurrently in one process do not disturb each other"
RULE = ("a job = 2-3 caller threads, each with its own optimizer (same or different class), problem, mode and seed, interleaved at source lines, locks and evaluations; "
        "each outcome is compared with the same solve run alone; non-trivial = control switched between the callers while both were solving")
CHUNK = 8
ISOLATE = True


def actor(r, alg, mode, **kw):
    j = C.gen_job(r, alg, mode, **kw)
    a = {k: j[k] for k in ("alg", "kw", "prob", "mode", "seed", "n_workers") if k in j}
    if r.random() < .25:
        a["term"] = r.choice([{"max_epoch": 1}, {"max_epoch": 2}, {"max_fe": r.choice([20, 45])}, {"max_early_stop": 1}])
    a["repeat"] = r.random() < .15
    return a


def jobs(seed, tier):
    per = {"quick": 4, "thorough": 40}[tier]
    names = list(W.algorithms())
    js = []
    for rep in range(per):
        for alg in names:
            r = random.Random(f"{ID}/{seed}/{rep}/{alg}")
            modes = ["single", "swarm", "thread"] if C.parallelizable(alg) else ["single", "swarm"]
            kw = {"epoch": r.choice([2, 3]), "pop": r.choice([8, 10, 12]), "multi": 0.2, "mixed": 0.15}
            acts = [actor(r, alg, r.choice(modes), **kw)]
            for _ in range(r.choice([1, 1, 1, 2])):
                other = alg if r.random() < .6 else r.choice(names)
                if r.random() < .25 and other == alg:       # the very same configuration, another seed
                    a = copy.deepcopy(acts[0])
                    a["seed"] = a["seed"] + r.choice([0, 1])
                    acts.append(a)
                else:
                    acts.append(actor(r, other, r.choice(modes if other == alg else ["single", "swarm"]), **kw))
            if r.random() < .2:         # all problems over the same variables
                vs = W.gen_mixed_vars(r) if r.random() < .4 else [[r.choice(["tbin", "tbin"]), r.randint(4, 12), r.choice(W.TF), True]]
                for a in acts:
                    a["prob"]["vars"] = copy.deepcopy(vs)
                    a["prob"].pop("single_bound", None)
            if r.random() < .25:         # problems that are easily confused
                for a in acts[1:]:
                    a["prob"] = W.sibling(r, acts[0]["prob"])
            env = C.gen_env(r, True)
            env["lines"] = r.random() < .8
            if r.random() < .4:
                env["lat"] = C.LAT_ZERO
            if len({json.dumps(a["prob"]["vars"]) for a in acts}) == 1:
                env["lines"], env["preempt"], env["lat"] = True, r.choice([.25, .6]), r.choice([C.LAT_ZERO, C.LAT_ZERO, C.LAT_SMALL])
            js.append({"algs": [a["alg"] for a in acts], "actors": acts, "env": env, "env_seed": r.getrandbits(40)})
    for i in range({"quick": 200, "thorough": 3000}[tier]):     # the objective of one solve runs another one
        r = random.Random(f"{ID}/n/{seed}/{i}")
        alg = r.choice(names)
        kw = {"epoch": 2, "pop": r.choice([8, 10, 12]), "multi": 0.2, "mixed": 0.15}
        acts = [actor(r, alg, r.choice(["single", "swarm", "thread"] if C.parallelizable(alg) else ["single", "swarm"]), **kw)]
        inner = alg if r.random() < .6 and alg not in W.HEAVY else r.choice([a for a in names if a not in W.HEAVY])
        acts.append(dict(actor(r, inner, r.choice(["single", "single", "swarm"]), **dict(kw, epoch=1, pop=8)), term=None, repeat=False))
        if r.random() < .4:
            acts[1]["prob"] = W.sibling(r, acts[0]["prob"])
        js.append({"algs": [a["alg"] for a in acts], "actors": acts, "nested": sorted({r.randint(1, 40) for _ in range(r.choice([1, 2, 4]))}),
                   "env": dict(C.gen_env(r, True), lines=r.random() < .5), "env_seed": r.getrandbits(40)})
    for i in range({"quick": 12, "thorough": 300}[tier]):
        r = random.Random(f"{ID}/p/{seed}/{i}")
        light = [a for a in names if C.parallelizable(a) and a not in W.HEAVY]
        acts = [actor(r, r.choice(light), m, epoch=1, pop=8, multi=0.2, mixed=0.1) for m in ("process", r.choice(["single", "thread", "process"]))]
        js.append({"algs": [a["alg"] for a in acts], "actors": acts, "env": C.gen_env(r, True), "env_seed": r.getrandbits(40)})
    return js


def one(a, tag, on_eval=None):
    d, obj = W.build_problem(a["prob"], tag)
    obj.on_eval = on_eval
    opt = W.make_optimizer(a["alg"], a["kw"])
    res = E.run_solve(opt, d, a, tag, term=dict(a["term"]) if a.get("term") else None)
    if a.get("repeat") and res.ok():
        res = E.run_solve(opt, d, a, tag, term=dict(a["term"]) if a.get("term") else None)
    return res


def run(ctx, job):
    th = seams.SIMMODS["threading"]
    acts = job["actors"]
    out = {}
    ref = [ctx.pristine(lambda i=i, a=a: alone(ctx, job, i, a)) for i, a in enumerate(acts)]
    if job.get("nested"):
        nested(ctx, job, ref)
        return
    with ctx.env(job["env"]) as sim:
        sim.plan["max_evals"] = 60000

        def caller(i):
            out[i] = one(acts[i], f"a{i}")
        ts = [th.Thread(target=caller, args=(i,), name=f"caller{i}", daemon=True) for i in range(len(acts))]
        stuck = None
        try:
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        except (kernel.SimDeadlock, kernel.SimStuck, E.HardHang) as e:
            stuck = e
        sim.drain()
        got = {i: E.outcome(r, ordered(acts[i])) for i, r in out.items()}
        inter = interleaved(sim.log)
    if not inter:
        ctx.skip("not interleaved")
    if stuck is not None or len(got) < len(acts):
        if all(r["status"] == "ok" for r in ref):
            ctx.violate("never-ends", "+".join(sorted(set(job["algs"]))), f"concurrent callers {desc(acts)} never end: {stuck!r}; alone each of them does")
        return
    for i, a in enumerate(acts):
        x, y = got[i], ref[i]
        diff = [k for k in y if x.get(k) != y.get(k)]
        if diff:
            ctx.violate("disturbed", a["alg"], f"caller {i} of {desc(acts)} differs in {diff} from the same solve alone: {x} vs {y} {out[i].exc_msg or ''} {out[i].tb or ''}")


def nested(ctx, job, ref):
    """The first solve's objective runs the second one during some evaluations."""
    outer, inner = job["actors"]
    got = []
    n = [0]
    with ctx.env(job["env"]) as sim:
        sim.plan["max_evals"] = 60000

        def on_eval():
            n[0] += 1
            if n[0] in job["nested"]:
                k = len(got)
                got.append(None)
                got[k] = one(inner, "a1" + f".{k}")
        try:
            res = one(outer, "a0", on_eval)
        except (kernel.SimDeadlock, kernel.SimStuck, E.HardHang) as e:
            ctx.violate("never-ends", "+".join(sorted(set(job["algs"]))), f"{desc(job['actors'])}, the second inside the objective of the first: {e!r}")
            return
        sim.drain()
        x = E.outcome(res, ordered(outer))
        ys = [E.outcome(r, ordered(inner)) for r in got if r is not None]
    if not ys:
        ctx.skip("not interleaved")
        return
    diff = [k for k in ref[0] if x.get(k) != ref[0].get(k)]
    if diff:
        ctx.violate("disturbed", outer["alg"], f"{desc(job['actors'])}, the second inside the objective of the first, which differs in {diff} from the same solve alone: "
                    f"{x} vs {ref[0]} {res.exc_msg or ''} {res.tb or ''}")
    for y, r in zip(ys, got):
        diff = [k for k in ref[1] if y.get(k) != ref[1].get(k)]
        if diff:
            ctx.violate("disturbed", inner["alg"], f"{desc(job['actors'])}, the second inside the objective of the first; it differs in {diff} from the same solve alone: "
                        f"{y} vs {ref[1]} {r.exc_msg or ''} {r.tb or ''}")
            break


def alone(ctx, job, i, a):
    with ctx.env(dict(job["env"], plan={}, lines=False)) as sim:
        r = one(a, f"a{i}")
        sim.drain()
        return E.outcome(r, ordered(a))


def ordered(a):
    return a["mode"] in C.SEQ_MODES or not C.parallelizable(a["alg"])


def desc(acts):
    return [(a["alg"], a["mode"], a["seed"]) for a in acts]


def interleaved(log):
    tags = [e[1] for e in log if e[0] == "eval"]
    sw = sum(1 for a, b in zip(tags, tags[1:]) if a != b)
    return sw > len(set(tags)) - 1


def shrink(job):
    out = []
    acts = job["actors"]
    if len(job.get("nested") or ()) > 1:
        out += [dict(job, nested=[k]) for k in job["nested"]]
    if len(acts) > 2:
        for i in range(len(acts)):
            a = acts[:i] + acts[i + 1:]
            out.append(dict(job, actors=a, algs=[x["alg"] for x in a]))
    for i, a in enumerate(acts):
        cands = []
        for k in ("term", "repeat"):
            if a.get(k):
                cands.append({x: v for x, v in a.items() if x != k})
        cands += [{k: v for k, v in j.items() if k not in ("env", "env_seed")} for j in C.shrink_job(dict(a, env={}, env_seed=0))]
        for c in cands:
            b = acts[:i] + [c] + acts[i + 1:]
            out.append(dict(job, actors=b))
    if job["env"].get("lines"):
        out.append(dict(job, env={**job["env"], "lines": False}))
    if tuple(job["env"].get("lat", ())) != C.LAT_ZERO:
        out.append(dict(job, env={**job["env"], "lat": C.LAT_ZERO}))
    return out


def signature(job):
    return json.dumps({k: v for k, v in job.items() if k != "env"}, sort_keys=True, default=str)
