"""C03: an optimizer that has a past behaves like a fresh one."""
import copy
import json
import pickle
import random

from .. import engine as E, common as C, workload as W, kernel, seams
from ..common import REAL, STUB, ASSUME

ID, TITLE = "C03", "An optimizer can be reused after any earlier solve"
RULE = ("a job = algorithm x parameters x history of 1-3 earlier solves (problems, modes, seeds, terminations; some rejected for invalid arguments, some aborted at a chosen evaluation by an exception, "
        "an interrupt or a dead worker) x final seeded solve, compared with a fresh instance; non-trivial = at least one earlier solve evaluated the objective")
CHUNK = 12
ISOLATE = True

INVALID = ["mode", "workers", "term-zero", "term-unknown", "term-type", "start-shape", "start-rows", "problem-none", "no-obj", "no-bounds"]
KINDS = ["ValueError", "InjectedError", "KeyboardInterrupt", "MemoryError", "SystemExit", "StopIteration"]


def gen_prior(r, job):
    p = {"prob": r.choice([copy.deepcopy, copy.deepcopy, lambda p: W.sibling(r, p), lambda p: W.gen_problem(r), lambda p: W.gen_problem(r)])(job["prob"]), "mode": r.choice(["single", "swarm", "swarm", "thread"]),
         "seed": r.choice([None, job["seed"], r.randint(0, 999)]), "n_workers": None, "term": None, "abort": None}
    if r.random() < .35:
        p["term"] = r.choice([{"max_epoch": 1}, {"max_fe": r.choice([20, 45])}, {"max_early_stop": 1}, {"max_time": 0.5}])
    if r.random() < .6:
        p["abort"] = [r.choice([1, 2, r.randint(3, 60), r.randint(10, 40), r.randint(20, 120)]), r.choice(KINDS)]
    if r.random() < .15:
        p["invalid"] = r.choice(INVALID)        # a call that is rejected
    return p


def invalid(kind, pd, p, t):
    """The arguments of a call that an optimizer has to reject (problem, scenario, termination, starting solutions)."""
    p, start = dict(p), None
    if kind == "mode":
        p["mode"] = "nope"
    elif kind == "workers":
        p.update(mode="thread", n_workers=-3)
    elif kind == "term-zero":
        t = {"max_epoch": 0}
    elif kind == "term-unknown":
        t = {"max_tries": 3}
    elif kind == "term-type":
        t = 17
    elif kind == "start-shape":
        start = [[0.0] * 40]
    elif kind == "start-rows":
        start = "abc"
    elif kind == "problem-none":
        pd = None
    elif isinstance(pd, dict):
        pd = {k: v for k, v in pd.items() if k != {"no-obj": "obj_func", "no-bounds": "bounds"}[kind]}
    return pd, p, t, start


def jobs(seed, tier):
    n = {"quick": 12, "thorough": 90}[tier]
    js = C.sweep(seed, tier, ID, n, modes=("single", "swarm", "single", "thread"), epoch=3, multi=0.2)
    k = {"quick": 20, "thorough": 400}[tier]
    names = [a for a in W.algorithms() if C.parallelizable(a)]
    r0 = random.Random(f"{ID}/proc/{seed}")
    for i in range(k):
        j = C.gen_job(r0, r0.choice(names), "swarm", epoch=2, pop=12)
        j["force_process"] = True
        js.append(j)
    for j in js:
        r = random.Random(json.dumps(j, sort_keys=True, default=str))
        if not j.get("force_process"):
            j["kw"] = W.gen_kwargs(r, j["alg"], vary=0.5, epoch=r.choice([2, 3, 3, 5, 9] if j["alg"] not in W.HEAVY else [2, 3]), pop=j["kw"].get("pop_size"))
        j["prior"] = [gen_prior(r, j) for _ in range(r.choice([1, 1, 2, 3]))]
        if j.pop("force_process", None):
            j["prior"] = [dict(gen_prior(r, j), mode="process", n_workers=2, abort=[r.randint(1, 30), r.choice(["die", "ValueError"])])]
        if r.random() < .3:
            j["term"] = r.choice([{"max_epoch": 2}, {"max_fe": 50}, {"max_early_stop": 2}, {"max_time": 0.3125}])
            if "max_time" in j["term"]:
                if j["mode"] in C.SEQ_MODES:
                    j["env"] = dict(j["env"], lat=(2.0 ** -7,))       # every call takes the same, exactly representable time
                else:
                    j["term"] = {"max_fe": 50}
        if r.random() < .1:
            j["clone"] = r.choice(["deepcopy", "pickle"])
        j["share_problem"] = r.random() < .35       # the same Problem instance before and after
        j["share_term"] = bool(j.get("term")) and r.random() < .5
    return js


def final(job, opt, d, term):
    res = E.run_solve(opt, d, job, "fin", term=term)
    return res


def run(ctx, job):
    ordered = job["mode"] in C.SEQ_MODES or not C.parallelizable(job["alg"])
    m = seams.mealpy
    b = ctx.pristine(lambda: fresh(ctx, job, ordered))
    with ctx.env(job["env"]) as sim:
        opt = W.make_optimizer(job["alg"], job["kw"])
        d, obj = W.build_problem(job["prob"], "fin")
        shared = None
        term = dict(job["term"]) if job.get("term") else None
        if job.get("share_term"):
            term = m.Termination(log_to=None, **job["term"])
        if job.get("share_problem"):
            shared = m.Problem(**d) if isinstance(d, dict) else d
        before = 0
        told = []
        for i, p in enumerate(job["prior"]):
            tag = f"p{i}"
            if shared is not None:
                pd = shared
                obj.tag = tag
            else:
                pd, _ = W.build_problem(p["prob"], tag)
            if p["abort"]:
                sim.plan["raise_at"], sim.plan["raise_kind"] = sim.neval + p["abort"][0], p["abort"][1]
            t = term if job.get("share_term") else (dict(p["term"]) if p["term"] else None)
            n0 = sim.neval
            start = None
            if p.get("invalid"):
                pd, p, t, start = invalid(p["invalid"], pd, p, t)
            r = E.run_solve(opt, pd, p, tag, term=t, start=start, probe=False)
            sim.drain()
            before += sim.neval - n0
            told.append((r.status, r.exc_type, sim.neval - n0))
            for k in ("raise_at", "raise_kind"):
                sim.plan.pop(k, None)
            if r.status not in ("ok", "exc"):
                ctx.skip("earlier solve " + r.status)
                return
        if not before:
            ctx.skip("earlier solves evaluated nothing")
        if shared is not None:
            obj.tag = "fin"
        sim.sleep(0.5)          # time passes between two solves
        if job.get("clone"):
            try:
                opt = copy.deepcopy(opt) if job["clone"] == "deepcopy" else pickle.loads(pickle.dumps(opt))
            except (TypeError, AttributeError, pickle.PicklingError) as e:      # no copy, nothing to compare
                ctx.skip(f"not copied: {type(e).__name__}")
                return
        got = final(job, opt, shared if shared is not None else d, term)
        sim.drain()
        a = E.outcome(got, ordered)
    diff = [k for k in b if a.get(k) != b.get(k)]
    if b["status"] == "exc" and a["status"] == "exc":
        ctx.skip("exception in both")
    if diff:
        ctx.violate("state-leaks", job["alg"], f"after {told} the next solve (mode {job['mode']}, seed {job['seed']}) differs from a fresh instance in {diff}: "
                    f"reused {a} fresh {b} {got.exc_msg or ''} {got.tb or ''}")


def fresh(ctx, job, ordered):
    """The last solve by a fresh instance, in a process that has done nothing else."""
    m = seams.mealpy
    with ctx.env(dict(job["env"], plan={})) as sim:
        opt = W.make_optimizer(job["alg"], job["kw"])
        d, obj = W.build_problem(job["prob"], "fin")
        ref = final(job, opt, m.Problem(**d) if job.get("share_problem") and isinstance(d, dict) else d, dict(job["term"]) if job.get("term") else None)
        sim.drain()
        return E.outcome(ref, ordered)


def shrink(job):
    out = []
    for i in range(len(job["prior"])):
        if len(job["prior"]) > 1:
            j = copy.deepcopy(job)
            del j["prior"][i]
            out.append(j)
        for ch in ({"abort": None}, {"invalid": None}, {"term": None}, {"mode": "single"}):
            if any(job["prior"][i].get(k) != v for k, v in ch.items()):
                j = copy.deepcopy(job)
                j["prior"][i].update(ch)
                out.append(j)
    for k in ("share_problem", "share_term", "clone"):
        if job.get(k):
            j = copy.deepcopy(job)
            j[k] = False
            out.append(j)
    if job.get("term"):
        j = copy.deepcopy(job)
        j.pop("term")
        j["share_term"] = False
        out.append(j)
    return out + C.shrink_job(job)


signature = C.alg_signature
