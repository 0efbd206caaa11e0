"""Tuning and multi-task campaigns: generators, builders, and a recorder of every solve they perform."""
import copy
import inspect
import json
import os
import pickle
import random
import shutil
import tempfile

import numpy as np

from . import common as C, engine as E, kernel, seams, workload as W


# ------------------------------------------------------------------ recorder
def problem_tag(p):
    if isinstance(p, dict):
        return p["obj_func"].tag
    return p.rec.tag if hasattr(p, "rec") else p.obj_func.tag


class Recorder:
    """Wraps Optimizer.solve for the whole campaign: draws the seed a caller left open and logs what was asked and what came out.

    The wrapper runs in the simulated worker processes too; its log entries come back with the task's result."""

    def __enter__(self):
        cls = self.cls = seams.mealpy.Optimizer
        orig = self.orig = cls.solve

        def solve(opt, problem=None, mode="single", n_workers=None, termination=None, starting_solutions=None, seed=None):
            sim = kernel.SIM
            if seed is None:
                seed = sim.choose("trial_seed", 1 << 20)
            term = termination if termination is None or isinstance(termination, dict) else dict(getattr(termination, "_dst_spec", {"?": 1}))
            rec = {"oid": getattr(opt, "_dst_id", 0), "trial": getattr(opt, "_dst_trial", None), "cls": type(opt).__name__, "params": dict(opt.get_parameters()), "tag": problem_tag(problem),
                   "mode": mode, "n_workers": n_workers, "term": term, "seed": seed, "problem_is_dict": isinstance(problem, dict)}
            n0 = sum(1 for e in sim.log if e[0] == "eval")
            try:
                g = orig(opt, problem, mode=mode, n_workers=n_workers, termination=termination, starting_solutions=starting_solutions, seed=seed)
            except BaseException as e:      # noqa: BLE001
                rec["exc"] = type(e).__name__
                sim.log.append(("solve", rec["tag"], rec))
                raise
            rec.update(fit=float(g.target.fitness), conv=[float(v) for v in opt.history.list_global_best_fit], best=E.agent_key(g),
                       n=sum(1 for e in sim.log if e[0] == "eval") - n0)
            sim.log.append(("solve", rec["tag"], rec))
            return g
        cls.solve = solve
        self.runs = []
        for owner, who in ((seams.mealpy.Tuner, lambda self, a: self.algorithm), (seams.mealpy.Multitask, lambda self, a: a["optimizer"])):
            run = owner.__dict__.get("__run__")
            if run is not None:
                self.runs.append((owner, run))
                owner.__run__ = numbered(run, who)
        return self

    def __exit__(self, *a):
        self.cls.solve = self.orig
        for owner, run in self.runs:
            owner.__run__ = run
        return False

    def entries(self, sim, first=0):
        return [e[2] for e in sim.log[first:] if e[0] == "solve"]


def numbered(run, who):
    """`run` for one trial, leaving the trial's number on the optimizer where the solve recorder finds it."""
    sig = inspect.signature(run)

    def wrapper(self, *args, **kw):
        opt = None
        try:
            a = sig.bind(self, *args, **kw).arguments
            opt = who(self, a)
            opt._dst_trial = a.get("id_trial")
        except Exception:       # noqa: BLE001  another signature: the number stays unknown
            pass
        try:
            return run(self, *args, **kw)
        finally:
            if opt is not None:
                opt.__dict__.pop("_dst_trial", None)
    wrapper.__name__, wrapper.__qualname__ = run.__name__, run.__qualname__
    return wrapper


class Scratch:
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix=f"dst-{os.getpid()}-")
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)
        return False


# ------------------------------------------------------------------ tuning
def gen_grid(r, alg, kw):
    """A grid whose configurations are all accepted by the constructor."""
    for _ in range(12):
        grid = {}
        keys = []
        sp = W.SPECIAL.get(alg, {})
        if "epoch" not in sp and r.random() < .6:
            keys.append("epoch")
        if "pop_size" not in sp and "pop_size" in W.make_optimizer(alg, kw).parameters and r.random() < .6:
            keys.append("pop_size")
        ps = [p for p in W.param_space(alg) if p[1] not in sp]
        own = set(W.make_optimizer(alg, kw).parameters)
        ps = [p for p in ps if p[1] in own]
        r.shuffle(ps)
        for p in ps[:r.choice([0, 1, 1, 2])]:
            keys.append(p[1])
        if not keys:
            keys = ["epoch"] if "epoch" not in sp else ["pop_size"]
        r.shuffle(keys)
        for k in keys:
            if k == "epoch":
                grid[k] = r.sample([1, 2, 3, 4], r.choice([1, 2]))
            elif k == "pop_size":
                grid[k] = r.sample([10, 12, 15, 16, 20], r.choice([1, 2, 2]))
            else:
                vals = []
                for _ in range(8):
                    kk = W.gen_kwargs(r, alg, vary=1.0)
                    if k in kk and kk[k] not in vals:
                        vals.append(kk[k])
                d = dict((p[1], p[2]) for p in ps).get(k)
                if d is not None and d not in vals:
                    vals.append(d)
                grid[k] = vals[:r.choice([1, 2, 3])] or [d]
        confs = expand(grid)
        if not 1 <= len(confs) <= 8 or len({json.dumps(c, sort_keys=True) for c in confs}) != len(confs):
            continue
        try:
            for c in confs:
                W.make_optimizer(alg, {**kw, **c})
        except Exception:       # noqa: BLE001
            continue
        if r.random() < .12 and len(confs) <= 4:        # a setting that is listed twice
            k = r.choice(list(grid))
            v = r.choice(grid[k])
            grid[k].append(v)
        return grid
    return {"epoch": [1, 2]} if "epoch" not in W.SPECIAL.get(alg, {}) else {"pop_size": [20]}


def expand(grid):
    out = [{}]
    for k, vs in grid.items():
        out = [{**c, k: v} for c in out for v in vs]
    return out


def gen_term(r):
    return r.choice([{"max_epoch": 1}, {"max_epoch": 2}, {"max_fe": r.choice([20, 45])}, {"max_early_stop": 1}, {"max_time": 0.5}])


def gen_tuner(r, alg):
    kw = W.gen_kwargs(r, alg, vary=0.2, epoch=r.choice([1, 2, 3]), pop=r.choice([10, 12, 15]))
    job = {"kind": "tuner", "alg": alg, "kw": kw, "grid": gen_grid(r, alg, kw), "prob": W.gen_problem(r, 0.15, 0.2),
           "mode": r.choice(["single", "single", "swarm", "thread"]), "n_workers": r.choice([2, 3, None]), "n_trials": r.choice([1, 2, 2, 3]),
           "n_jobs": r.choice([None, None, 1, 2, 2, 3]), "term": gen_term(r) if r.random() < .3 else None, "instance": r.random() < .3,
           "np_grid": r.random() < .2, "export": r.choice(["csv", "json", "dataframe"]), "verbose": r.random() < .3,
           "env": C.gen_env(r, True), "env_seed": r.getrandbits(40)}
    return job


def build_tuner(job, tag="t"):
    m = seams.mealpy
    d, obj = W.build_problem(job["prob"], tag)
    if isinstance(d, dict) and job.get("instance"):
        d = m.Problem(**d)
    grid = copy.deepcopy(job["grid"])
    if job.get("np_grid"):
        grid = {k: np.array(v) if not isinstance(v[0], (str, bool)) else tuple(v) for k, v in grid.items()}
    opt = W.make_optimizer(job["alg"], job["kw"])
    return m.Tuner(opt, grid), d, obj


def run_tuner(job, tuner, d):
    term = copy.deepcopy(job["term"])
    tuner.execute(problem=d, termination=term, n_trials=job["n_trials"], n_jobs=job["n_jobs"], mode=job["mode"], n_workers=job["n_workers"],
                  verbose=job.get("verbose", False))


# ------------------------------------------------------------------ multi-task
MODES = ["single", "swarm", "thread"]


def gen_assignment(r, n, m, make):
    """None | [x] | n | m | n*m values, and the assignment [i][j] it means."""
    forms = ["none", "one", "nm"]
    if n != m:
        forms += ["n", "m"]
    elif m == 1 or n == m:
        forms += ["n"]
    f = r.choice(forms)
    if f == "none":
        return None, [[None] * m for _ in range(n)]
    if f == "one":
        v = make()
        return [v], [[v] * m for _ in range(n)]
    if f == "n" or (f == "nm" and n * m in (1, n)):
        vs = [make() for _ in range(n)]
        return vs, [[vs[i]] * m for i in range(n)]
    if f == "m" or (f == "nm" and n * m == m):
        vs = [make() for _ in range(m)]
        return vs, [list(vs) for _ in range(n)]
    vs = [make() for _ in range(n * m)]
    return vs, [vs[i * m:(i + 1) * m] for i in range(n)]


def gen_multitask(r, algs):
    n, m = r.choice([1, 2, 2, 3]), r.choice([1, 2, 2, 3])
    names = [r.choice(algs) for _ in range(n)]
    if n > 1 and r.random() < .25:
        names[1] = names[0]
    probs = [W.gen_problem(r, 0.1, 0.2) for _ in range(m)]
    for j, p in enumerate(probs):
        p["name"] = f"Q{j}"
    if m > 1 and r.random() < .25:
        probs[1]["name"] = probs[0]["name"]
    elif r.random() < .25:
        for p, x in zip(probs, r.choice([["Q0", "Q0_2", "Q0"], ["Q0", "Q0", "Q0_2"], ["F 1", "f1", "F1"], ["F1", "F10", "F1_2"], ["q.0", "q.1", "q"], ["trial_1", "Q", "q"]])):
            p["name"] = x
    if m > 1 and r.random() < .2:
        probs[1] = dict(W.sibling(r, probs[0]), name=probs[1]["name"])
    onames = None
    if r.random() < .15:
        onames = r.choice([["A", "A_2", "A"], ["A", "A", "A_2"], ["x y", "X y", "a.b"]])[:n]
    terms, ta = gen_assignment(r, n, m, lambda: gen_term(r))
    modes, ma = gen_assignment(r, n, m, lambda: r.choice(MODES))
    many = r.random() < .08         # trial numbers with two digits
    return {"kind": "multitask", "algs": names, "onames": onames, "kws": [W.gen_kwargs(r, a, vary=0.3, epoch=r.choice([1, 2, 3]), pop=r.choice([10, 12, 15])) for a in names],
            "probs": probs, "terms": terms, "term_of": ta, "modes": modes, "mode_of": ma, "instance": [r.random() < .3 for _ in probs],
            "term_instance": r.random() < .3, "n_trials": r.choice([10, 11]) if many else r.choice([1, 2, 2, 3]), "n_jobs": r.choice([None, None, 1, 2, 2, 3]), "n_workers": r.choice([2, 3, None]),
            "save_as": r.choice(["csv", "json", "dataframe"]), "save_convergence": r.random() < .85, "as_tuple": r.random() < .5, "verbose": r.random() < .3,
            "env": C.gen_env(r, True), "env_seed": r.getrandbits(40)}


def optimizer_names(job):
    return job.get("onames") or job["algs"]


def build_multitask(job, log=None):
    m = seams.mealpy
    opts = []
    for i, (a, k) in enumerate(zip(job["algs"], job["kws"])):
        o = W.make_optimizer(a, dict(k, name=job["onames"][i]) if job.get("onames") else k)
        o._dst_id = i
        opts.append(o)
    probs = []
    for j, p in enumerate(job["probs"]):
        d, _ = W.build_problem(p, f"q{j}")
        if isinstance(d, dict) and job["instance"][j]:
            d = m.Problem(**d)
        probs.append(d)
    terms = copy.deepcopy(job["terms"])
    if terms is not None and job.get("term_instance"):
        out = []
        for t in terms:
            x = m.Termination(log_to=None, **t)
            x._dst_spec = dict(t)
            out.append(x)
        terms = out
    modes = copy.deepcopy(job["modes"])
    f = tuple if job.get("as_tuple") else list
    return m.Multitask(algorithms=f(opts), problems=f(probs), terminations=None if terms is None else f(terms), modes=None if modes is None else f(modes),
                       n_workers=job["n_workers"])


def run_multitask(job, mt, path):
    mt.execute(n_trials=job["n_trials"], n_jobs=job["n_jobs"], save_path=path, save_as=job["save_as"], save_convergence=job["save_convergence"],
               verbose=job.get("verbose", False))


# ------------------------------------------------------------------ reading tables back
def read_table(path):
    """{column: [values]} of an exported table; JSON and CSV are parsed with the standard library."""
    if path.endswith(".csv"):
        import csv
        with open(path, newline="") as f:
            rows = list(csv.reader(f))
        if not rows:
            return {}
        return {h: [num(r[k]) for r in rows[1:]] for k, h in enumerate(rows[0])} if len(set(rows[0])) == len(rows[0]) else {"duplicate columns": rows[0]}
    if path.endswith(".json"):
        with open(path) as f:
            d = json.load(f)
        return {c: [num(v[k]) for k in sorted(v, key=int)] for c, v in d.items()}
    with open(path, "rb") as f:
        df = pickle.load(f)
    return {str(c): [num(v) for v in df[c].tolist()] for c in df.columns}


def num(v):
    if v is None:
        return float("nan")
    if isinstance(v, str):
        if v == "":
            return float("nan")
        try:
            return float(v)
        except ValueError:
            return v
    return v


def same_value(a, b, tol=0.0):
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return a == b
    if np.isnan(a) and np.isnan(b):
        return True
    if a == b:
        return True
    return tol > 0 and abs(a - b) <= tol * (1 + abs(b))


JSON_TOL = 1e-13


def same_run(e, ref):
    """With a time limit two runs may stop at different epochs; what they have in common must agree."""
    if e["term"] and "max_time" in e["term"]:
        n = min(len(e["conv"]), len(ref["conv"]))
        return n > 0 and all(same_value(a, b) for a, b in zip(e["conv"][:n], ref["conv"][:n]))
    return same_value(ref["fit"], e["fit"]) and len(e["conv"]) == len(ref["conv"]) and all(same_value(a, b) for a, b in zip(e["conv"], ref["conv"])) and ref["best"] == e["best"]


def resolve_fresh(ctx, job, alg, kw, prob, rec, env=None, n_workers=None, instance=False):
    """What the solve described by `rec` gives when it is run alone, by a fresh optimizer, in another environment."""
    with ctx.env(dict(job["env"], plan={})) as sim:
        d, _ = W.build_problem(prob, rec["tag"])
        opt = W.make_optimizer(alg, kw)
        res = E.run_solve(opt, d, {"mode": rec["mode"], "n_workers": rec["n_workers"], "seed": rec["seed"]}, rec["tag"], term=copy.deepcopy(rec["term"]), probe=False)
        sim.drain()
        if not res.ok():
            return res.status, None
        return res.status, {"fit": float(res.best.target.fitness), "conv": [float(v) for v in opt.history.list_global_best_fit], "best": E.agent_key(res.best)}
