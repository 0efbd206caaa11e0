"""C21: inputs handed to a solve stay the caller's, and can be handed to any number of other solves."""
import copy
import json
import random

import numpy as np

from .. import campaign as K, common as C, engine as E, kernel, seams, workload as W
from ..common import REAL, STUB, ASSUME

ID, TITLE = "C21", "Inputs can be shared by any number of solves and stay as the caller made them"
RULE = ("a job = one problem description (dictionary, Problem object, user subclass, or the variables alone), optionally one termination and one set of starting solutions, handed to 2-4 solves by "
        "other optimizers (some aborted or rejected) and to tuning and multi-task runs in between; each completed seeded solve is compared with the same solve on fresh inputs in a fresh process, and the inputs "
        "are fingerprinted after every step; non-trivial = at least two solves evaluated the shared description")
CHUNK = 10
ISOLATE = True
KINDS = ["ValueError", "InjectedError", "KeyboardInterrupt", "MemoryError", "SystemExit", "StopIteration"]


def jobs(seed, tier):
    per = {"quick": 4, "thorough": 40}[tier]
    names = list(W.algorithms())
    js = []
    for rep in range(per):
        for alg in names:
            r = random.Random(f"{ID}/{seed}/{rep}/{alg}")
            prob = W.gen_problem(r, 0.35, 0.3)
            if r.random() < .07:
                prob = C.corner_problem(r, prob)
            share = r.choice(["desc", "desc", "desc", "vars"])
            if share == "desc":
                prob["form"] = r.choice([None, None, "class", "object"])
            starts = r.random() < .3
            pop = r.choice([10, 12])
            steps = []
            n = r.choice([2, 2, 3, 4])
            for i in range(n):
                a = alg if i == n - 1 else r.choice([alg, r.choice(names), r.choice(names)])
                modes = ["single", "single", "swarm"] + (["thread"] if C.parallelizable(a) else [])
                s = {"alg": a, "kw": W.gen_kwargs(r, a, vary=.2, epoch=r.choice([1, 2, 3]), pop=pop), "mode": r.choice(modes), "n_workers": r.choice([None, 2, 3]),
                     "seed": r.choice([0, 1, 7, r.randint(0, 9999)])}
                if i < n - 1:
                    if r.random() < .35:
                        s["abort"] = [r.choice([1, 3, r.randint(5, 40)]), r.choice(KINDS)]
                    elif r.random() < .15 and "pop_size" in W.make_optimizer(a, s["kw"]).parameters:
                        s["campaign"] = r.choice(["tuner", "multitask"])
                        s["n_jobs"] = r.choice([None, None, 2])
                steps.append(s)
            job = {"algs": sorted({s["alg"] for s in steps}), "steps": steps, "prob": prob, "share": share, "env": C.gen_env(r, True), "env_seed": r.getrandbits(40)}
            job["env"]["lines"] = False
            if r.random() < .4:
                job["term"] = r.choice([{"max_epoch": 2}, {"max_fe": r.choice([15, 45])}, {"max_early_stop": 1}, {"max_early_stop": 2, "epsilon": 0.5}, {"max_time": 0.5, "max_epoch": 3}])
                job["term_as"] = r.choice(["dict", "object"])
                if "max_time" in job["term"]:
                    job["env"]["lat"] = (2.0 ** -7,)
                    for s in steps:
                        s["mode"] = "single" if s["mode"] == "thread" else s["mode"]
            if starts:
                job["starts"] = r.choice(["lists", "arrays", "matrix", "tuple", "ints"])
                job["gen"] = r.randint(0, 10 ** 6)
            js.append(job)
    return js


class Inputs:
    """One problem description, termination and set of starting solutions; `desc(tag)` is what a solve is given."""

    def __init__(self, job):
        self.job = job
        p = job["prob"]
        q = {k: v for k, v in p.items() if k != "form"} if p.get("form") == "object" or job["share"] == "vars" else p
        self.raw = copy.deepcopy(p["vars"])         # the arrays the variables are made from
        for v in self.raw:
            if v[0] in ("float", "int"):
                t = float if v[0] == "float" or job["env_seed"] % 2 else int
                v[1], v[2] = np.array(v[1], dtype=t), np.array(v[2], dtype=t)
        self.given = fp(self.raw)                   # before anything of the library has seen them
        self.d, self.obj = W.build_problem(dict(q, vars=self.raw), "x")
        if p.get("form") == "object" and job["share"] == "desc":
            self.d = seams.mealpy.Problem(**self.d)
        t = job.get("term")
        self.term = None if not t else dict(t) if job["term_as"] == "dict" else seams.mealpy.Termination(log_to=None, **t)
        self.start = {}

    def desc(self, tag):
        if self.job["share"] == "vars":         # another dictionary around the same variable objects
            d, self.obj = W.build_problem({k: v for k, v in self.job["prob"].items() if k != "form"}, tag)
            d["bounds"] = self.d["bounds"]
            return d
        self.obj.tag = tag
        return self.d

    def starts(self, pop_size):
        if not self.job.get("starts"):
            return None
        if pop_size not in self.start:
            p = W.problem_object({k: v for k, v in self.job["prob"].items() if k != "form"}, "gen")
            p.set_seed(self.job["gen"])
            rows = [np.asarray(p.correct_solution(p.generate_solution()), dtype=float) for _ in range(pop_size)]
            f = self.job["starts"]
            if f == "ints" and not all(np.all(r == np.rint(r)) for r in rows):
                f = "lists"
            self.start[pop_size] = {"lists": lambda: [r.tolist() for r in rows], "arrays": lambda: rows, "matrix": lambda: np.array(rows),
                                    "tuple": lambda: tuple(tuple(r) for r in rows), "ints": lambda: [[int(v) for v in r] for r in rows]}[f]()
        return self.start[pop_size]

    def prints(self):
        """The caller's own dictionaries, lists and arrays."""
        out = {"termination": fp(self.term), "starting solutions": fp(self.start), "bounds": fp(self.raw)}
        if isinstance(self.d, dict):
            out["problem"] = fp({k: v for k, v in self.d.items() if k != "obj_func"})
        return out


def fp(x):
    if isinstance(x, dict):
        return {str(k): fp(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [fp(v) for v in x]
    if isinstance(x, np.ndarray):
        return [str(x.dtype), x.shape, x.tolist()]
    if isinstance(x, (int, float, str, bool, type(None), np.generic)):
        return repr(x)
    return id(x)


def solve(s, inp, tag):
    opt = W.make_optimizer(s["alg"], s["kw"])
    return opt, E.run_solve(opt, inp.desc(tag), s, tag, term=inp.term, start=inp.starts(opt.pop_size), probe=False)


def ordered(s):
    return s["mode"] in C.SEQ_MODES or not C.parallelizable(s["alg"])


def fresh(ctx, job, i):
    s = job["steps"][i]
    with ctx.env(dict(job["env"], plan={})) as sim:
        _, r = solve(s, Inputs(job), f"p{i}")
        sim.drain()
        return E.outcome(r, ordered(s)), f"{r.exc_msg or ''}"


def run(ctx, job):
    steps = job["steps"]
    judged = [i for i, s in enumerate(steps) if not s.get("abort") and not s.get("campaign")]
    ref = {i: ctx.pristine(lambda i=i: fresh(ctx, job, i)) for i in judged}
    told = []
    with ctx.env(job["env"]) as sim:
        inp = Inputs(job)
        for s in steps:
            if not s.get("campaign"):
                inp.starts(W.make_optimizer(s["alg"], s["kw"]).pop_size)
        before = dict(inp.prints(), bounds=inp.given)
        used = 0
        for i, s in enumerate(steps):
            tag = f"p{i}"
            n0 = sim.neval
            if s.get("abort"):
                sim.plan["raise_at"], sim.plan["raise_kind"] = sim.neval + s["abort"][0], s["abort"][1]
            if s.get("campaign"):
                campaign(s, inp, tag)
                told.append(s["campaign"])
            else:
                opt, r = solve(s, inp, tag)
                told.append(f"{s['alg']} {s['mode']} {r.status}")
            left = sim.drain()
            for k in ("raise_at", "raise_kind"):
                sim.plan.pop(k, None)
            used += sim.neval > n0
            now = inp.prints()
            diff = [k for k in before if before[k] != now.get(k)]
            if diff:
                ctx.violate("inputs-modified", diff[0].replace(" ", "-"), f"step {i} {told[-1]} changed the caller's {diff}: {[(before[k], now.get(k)) for k in diff]}")
                before = now
            if i in ref:
                a, (b, bmsg) = E.outcome(r, ordered(s)), ref[i]
                if b["status"] == "exc" and a["status"] == "exc":
                    ctx.skip("exception in both")
                elif any(a.get(k) != b.get(k) for k in b):
                    diff = [k for k in b if a.get(k) != b.get(k)]
                    ctx.violate("shared-inputs", s["alg"], f"the inputs ({job['share']}, {job['prob'].get('form') or 'dict'}) were used by {told[:-1]}; the solve by {s['alg']} (mode {s['mode']}, seed {s['seed']}) differs in {diff} "
                                f"from one on fresh inputs: {a} vs {b} {r.exc_msg or ''} {r.tb or ''} {bmsg}")
        if used < 2:
            ctx.skip("used once")


def campaign(s, inp, tag):
    m = seams.mealpy
    opt = W.make_optimizer(s["alg"], s["kw"])
    try:
        with K.Scratch() as path:
            if s["campaign"] == "tuner":
                m.Tuner(opt, {"pop_size": [s["kw"].get("pop_size", 10), 14]}).execute(problem=inp.desc(tag), termination=inp.term, n_trials=2, n_jobs=s["n_jobs"], mode="single", verbose=False)
            else:
                m.Multitask(algorithms=[opt], problems=[inp.desc(tag)], terminations=[inp.term] if inp.term is not None else None).execute(n_trials=2, n_jobs=s["n_jobs"], save_path=path, verbose=False)
    except (kernel.SimDeadlock, kernel.SimStuck, E.HardHang, Exception):    # noqa: BLE001  campaigns are judged elsewhere
        pass


def shrink(job):
    out = []
    st = job["steps"]
    if len(st) > 1:
        for i in range(len(st)):
            out.append(dict(job, steps=st[:i] + st[i + 1:], algs=sorted({s["alg"] for s in st[:i] + st[i + 1:]})))
    for k in ("starts", "term"):
        if job.get(k):
            out.append({a: b for a, b in job.items() if a not in (k, k + "_as")})
    for i, s in enumerate(st):
        cands = []
        if s["mode"] != "single":
            cands.append(dict(s, mode="single"))
        if s.get("abort"):
            cands.append({k: v for k, v in s.items() if k != "abort"})
        if s.get("n_jobs"):
            cands.append(dict(s, n_jobs=None))
        for j in C.shrink_job({"alg": s["alg"], "kw": s["kw"]}):
            cands.append(dict(s, kw=j["kw"]))
        out += [dict(job, steps=st[:i] + [c] + st[i + 1:]) for c in cands]
    for j in C.shrink_job({"prob": job["prob"]}):
        out.append(dict(job, prob=j["prob"]))
    return out


def signature(job):
    return json.dumps({k: v for k, v in job.items() if k != "env"}, sort_keys=True, default=str)
