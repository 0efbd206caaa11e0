"""C12: the tuner runs every trial once, with exactly the configuration's parameters, and reports the true best."""
import copy
import json
import os
import random
from collections import Counter

import numpy as np

from .. import campaign as K, common as C, engine as E, kernel, seams, workload as W
from ..common import REAL, STUB, ASSUME

ID, TITLE = "C12", "The tuner runs every trial once and reports the true best configuration"
RULE = ("a job = algorithm x base parameters x parameter grid x problem (min/max, dict/instance) x trials x jobs x mode x schedule; every trial is re-run alone by a "
        "fresh instance; or a set_parameters history compared with a fresh instance; non-trivial = at least two trials or configurations")
CHUNK = 6
ISOLATE = True
ASSUME = ASSUME + ["the seed a tuner leaves open is drawn by the simulator (it stands for the operating system's entropy)"]


def jobs(seed, tier):
    per = {"quick": 4, "thorough": 32}[tier]
    js = []
    for rep in range(per):
        for alg in W.algorithms():
            r = random.Random(f"{ID}/{seed}/{rep}/{alg}")
            if alg in W.HEAVY and rep % 4:
                continue
            if rep % 2 == 0:
                js.append(K.gen_tuner(r, alg))
                if alg in W.HEAVY:
                    js[-1].update(mode="single", n_jobs=None)
            else:
                kw = W.gen_kwargs(r, alg, vary=0.5, epoch=3)
                seq = [W.gen_kwargs(r, alg, vary=1.0, epoch=r.choice([2, 3])) for _ in range(r.choice([1, 2]))]
                js.append({"kind": "set", "alg": alg, "kw": kw, "seq": seq, "prob": W.gen_problem(r, 0.1, 0.2), "mode": r.choice(["single", "swarm"]),
                           "seed": r.randint(0, 9999), "solve_first": r.random() < .5, "env": C.gen_env(r), "env_seed": r.getrandbits(40)})
    for i in range({"quick": 150, "thorough": 2000}[tier]):      # ranking: many small tables
        r = random.Random(f"{ID}/rank/{seed}/{i}")
        j = K.gen_tuner(r, r.choice(["OriginalPSO", "BaseGA", "OriginalDE", "OriginalGWO", "OriginalWOA", "OriginalHC"]))
        j["grid"] = {"epoch": r.sample([1, 2, 3, 4], r.choice([2, 3])), "pop_size": r.sample([10, 12, 15], 2)}
        j["prob"]["obj"]["kind"] = r.choice(["plateau", "plateau", "const", "sphere", "neg", "lin"])
        j["rank"] = True
        if r.random() < .2:         # trial numbers with two digits
            j["grid"] = {"epoch": r.sample([1, 2], 2)}
            j["n_trials"] = r.choice([10, 11, 12])
        js.append(j)
    return js


def run(ctx, job):
    with ctx.zygote() as zyg:
        run_set(ctx, job, zyg) if job["kind"] == "set" else run_tune(ctx, job, zyg)


def constructed(ctx, job, alg, full):
    """What a solve gives by an instance constructed with these parameters."""
    with ctx.env(dict(job["env"], plan={})) as sim:
        d, _ = W.build_problem(job["prob"], "a")
        ref = E.run_solve(W.make_optimizer(alg, dict(full)), d, job, "a", probe=False)
        return ref.status, E.outcome(ref)


def run_set(ctx, job, zyg):
    """An optimizer whose parameters are changed behaves like one constructed with them."""
    alg = job["alg"]
    with ctx.env(job["env"]) as sim:
        opt = W.make_optimizer(alg, job["kw"])
        if job["solve_first"]:
            d, _ = W.build_problem(job["prob"], "p")
            r0 = E.run_solve(opt, d, {"mode": job["mode"], "seed": 5}, "p", probe=False)
            if not r0.ok():
                ctx.skip("first solve " + r0.status)
                return
        # the constructor may have normalised what it was given (e.g. ordered a minimum and a maximum): changes start from its result
        full = {k: opt.get_parameters().get(k, v) for k, v in job["kw"].items()}
        for kw in job["seq"]:
            own = {k: v for k, v in kw.items() if k in opt.parameters}
            opt.set_parameters(copy.deepcopy(own))
            full.update(kw if set(own) == set(kw) else own)
        try:
            fresh = W.make_optimizer(alg, dict(full)).parameters
        except Exception as e:      # noqa: BLE001
            ctx.skip("combination rejected by the constructor")
            return
        for k, v in full.items():
            # a constructor may normalise a value (e.g. order a minimum and a maximum): its result is as good as the given value
            now = opt.get_parameters()
            if k in now and not K.same_value(now[k], v) and not K.same_value(now[k], fresh.get(k, v)):
                ctx.violate("parameter-not-set", alg, f"set_parameters({job['seq']}) leaves {k} = {opt.get_parameters()[k]!r}")
                return
        d, _ = W.build_problem(job["prob"], "a")
        got = E.run_solve(opt, d, job, "a", probe=False)
        a = E.outcome(got)
    status, b = zyg.call(constructed, job, alg, full)
    diff = [k for k in b if a.get(k) != b.get(k)]
    if diff:
        if status == "exc" and got.status == "exc":
            ctx.skip("exception in both")
            return
        ctx.violate("parameters-not-in-effect", alg, f"constructed with {job['kw']} then set_parameters {job['seq']}: differs in {diff} from an instance constructed with {full}: "
                    f"{a} vs {b} {got.exc_msg or ''} {got.tb or ''}")


def run_tune(ctx, job, zyg):
    alg = job["alg"]
    with K.Recorder() as rec, K.Scratch() as path:
        with ctx.env(job["env"]) as sim:
            tuner, d, obj = K.build_tuner(job)
            status, exc = "ok", None
            try:
                K.run_tuner(job, tuner, d)
            except (kernel.SimDeadlock, kernel.SimStuck, E.HardHang) as e:
                status, exc = type(e).__name__, e
            except kernel.SimAbort:
                raise
            except BaseException as e:      # noqa: BLE001
                status, exc = "exc", e
            sim.drain()
            ents = rec.entries(sim)
            if status != "ok":
                if any("exc" in e for e in ents):
                    ctx.skip(f"a trial ends with {exc!r}"[:80])
                else:
                    ctx.violate("tuner-fails", where(exc), f"tuning {alg} {job['grid']} n_trials={job['n_trials']} n_jobs={job['n_jobs']}: {status} {exc!r}")
                return
            first = len(sim.log)
            judge(ctx, job, tuner, ents)
            export(ctx, job, tuner, path)
            try:
                g = tuner.resolve(mode=job["mode"], n_workers=job["n_workers"], termination=copy.deepcopy(job["term"]))
                sim.drain()
                e2 = rec.entries(sim, first)
                best = dict(tuner.best_params)
                if len(e2) != 1 or any(not K.same_value(e2[0]["params"].get(k), v) for k, v in best.items()):
                    ctx.violate("resolve-other-configuration", "tuner", f"resolve() solved with {[x['params'] for x in e2]}, the best configuration is {best}")
                elif float(g.target.fitness) != e2[0]["fit"]:
                    ctx.violate("resolve-result", "tuner", "resolve() returned another agent than its solve")
                ents = ents + e2
                ba = tuner.best_algorithm
                if any(not K.same_value(ba.get_parameters().get(k), v) for k, v in best.items()):
                    ctx.violate("best-algorithm", "tuner", f"best_algorithm has {ba.get_parameters()}, the best configuration is {best}")
            except Exception as e:      # noqa: BLE001
                ctx.violate("resolve-fails", where(e), f"resolve() raised {e!r}")
        r = random.Random(job["env_seed"])
        pick = ents if len(ents) <= 4 else [ents[0], ents[-1]] + r.sample(ents[1:-1], 2)
        if job.get("rank"):
            pick = pick[:1]
    for e in pick:
        conf = {k: e["params"][k] for k in job["grid"]}
        res, ref = zyg.call(K.resolve_fresh, job, alg, {**job["kw"], **{k: plain(v) for k, v in conf.items()}}, job["prob"], e)
        if ref is None:
            ctx.skip(f"the trial alone: {res}")
        elif not K.same_run(e, ref):
            ctx.violate("trial-differs-from-configuration", alg, f"trial with {conf} (mode {e['mode']}, seed {e['seed']}, n_jobs {job['n_jobs']}): fitness {e['fit']} {e['conv']}, "
                        f"a fresh optimizer with these parameters gives {ref['fit']} {ref['conv']}")


def plain(v):
    return v.item() if isinstance(v, np.generic) else v


def where(exc):
    import traceback
    fr = [f for f in traceback.extract_tb(exc.__traceback__) if f.filename.startswith(seams.REPO)] if exc is not None else []
    return f"{fr[-1].name}:{type(exc).__name__}" if fr else type(exc).__name__


def number(v):
    """2 and 2.0 are the same setting (a constructor may turn one into the other), True is not 1."""
    v = plain(v)
    return float(v) if isinstance(v, int) and not isinstance(v, bool) else v


def ck(c):
    return json.dumps({k: number(v) for k, v in c.items()}, sort_keys=True, default=str)


def judge(ctx, job, tuner, ents):
    confs = K.expand(job["grid"])
    n = job["n_trials"]
    by = Counter()
    fits = {}
    for e in ents:
        key = ck({k: e["params"].get(k) for k in job["grid"]})
        by[key] += 1
        fits.setdefault(key, []).append(e)
        if e["mode"] != job["mode"]:
            ctx.violate("trial-mode", "tuner", f"a trial ran in mode {e['mode']}, asked for {job['mode']}")
        if e["term"] != job["term"]:
            ctx.violate("trial-termination", "tuner", f"a trial ran with termination {e['term']}, asked for {job['term']}")
        if e["n_workers"] != job["n_workers"]:
            ctx.violate("trial-workers", "tuner", f"a trial ran with n_workers {e['n_workers']}, asked for {job['n_workers']}")
    want = Counter(ck(c) for c in confs)        # a grid may list a setting twice
    if by != Counter({k: n * m for k, m in want.items()}):
        ctx.violate("trials-not-once", "tuner", f"solves per configuration {dict(by)}, expected {n} for each of {sorted(want.elements())}")
        return
    df = tuner.df_fit
    cols = [f"trial_{t}" for t in range(1, n + 1)]
    seen = Counter()
    table, held = [], {}
    for _, row in df.iterrows():
        key = ck(row["params"])
        seen[key] += 1
        rec = sorted(e["fit"] for e in fits.get(key, []))
        got = sorted(float(row[c]) for c in cols)
        held.setdefault(key, []).extend(got)
        if seen[key] == want[key] and rec != sorted(held[key]):
            ctx.violate("recorded-results", "tuner", f"configuration {key}: the table holds {sorted(held[key])}, its trials gave {rec}")
        ids = [e["trial"] for e in fits.get(key, [])]
        if want[key] == 1 and None not in ids and len(set(ids)) == n and rec == got:
            lo = min(ids)
            for e in fits[key]:
                if float(row[f"trial_{e['trial'] - lo + 1}"]) != e["fit"]:
                    ctx.violate("trial-number", "tuner", f"configuration {key}: trial {e['trial'] - lo + 1} gave {e['fit']}, its column holds {row[f'trial_{e['trial'] - lo + 1}']} (n_jobs {job['n_jobs']})")
                    break
        if not np.isclose(float(row["trial_mean"]), np.mean(got), rtol=1e-9, atol=1e-300) and np.isfinite(np.sum(got)):
            ctx.violate("mean", "tuner", f"configuration {key}: trial_mean {row['trial_mean']}, the trials are {got}")
        table.append((key, float(row["trial_mean"]), got))
    if seen != want:
        ctx.violate("rows", "tuner", f"rows per configuration {dict(seen)}")
    # per-epoch table
    lt = {}
    for _, row in tuner.df_loss.iterrows():
        key = ck({k: row[k] for k in job["grid"]})
        lt.setdefault(loose(key), []).append((int(row["trial"]), [float(row[c]) for c in tuner.df_loss.columns if isinstance(c, (int, np.integer)) and not isnan(row[c])]))
    for key, es in fits.items():
        rows = lt.get(loose(key), [])
        if sorted(t for t, _ in rows) not in (sorted(list(range(n)) * want[key]), sorted(list(range(1, n + 1)) * want[key])):
            ctx.violate("loss-trials", "tuner", f"configuration {key}: convergence rows for trials {sorted(t for t, _ in rows)}")
        elif sorted(l for _, l in rows) != sorted([v for v in e["conv"] if not isnan(v)] for e in es):
            ctx.violate("loss-values", "tuner", f"configuration {key}: convergence table {rows}, trials gave {[e['conv'] for e in es]}")
        elif want[key] == 1:
            base = min(t for t, _ in rows)
            row = df[df["params"].map(ck) == key].iloc[0]
            ids = [e["trial"] for e in es]
            if None not in ids and len(set(ids)) == n:
                by_no = {e["trial"] - min(ids): [v for v in e["conv"] if not isnan(v)] for e in es}
                for t, l in rows:
                    if by_no[t - base] != l:
                        ctx.violate("trial-number", "tuner", f"configuration {key}: the convergence of trial {t - base + 1} is recorded as {l}, the trial gave {by_no[t - base]}")
                        break
            for t, l in rows:
                if l and float(row[f"trial_{t - base + 1}"]) != l[-1]:
                    ctx.violate("trial-attribution", "tuner", f"configuration {key}, trial {t - base + 1}: fitness {row[f'trial_{t - base + 1}']} but its convergence ends with {l[-1]}")
    # ranking
    if not all(np.isfinite(v) for _, _, g in table for v in g):
        ctx.skip("no proper value")
        return
    mm = job["prob"]["minmax"]
    means = {}
    for k, m, _ in table:
        means[k] = m if k not in means else min(means[k], m) if mm == "min" else max(means[k], m)
    best = min(means.values()) if mm == "min" else max(means.values())
    bk = ck(tuner.best_params)
    if bk not in want:
        ctx.violate("best-params", "tuner", f"best_params {bk} is not a configuration")
        return
    tol = 1e-12 * (1 + abs(best))
    if abs(means[bk] - best) > tol:
        ctx.violate("best-not-best", mm, f"best_params {bk} has mean {means[bk]}, the best mean ({mm}) is {best}: {means}")
    else:
        sd = {}
        for k, m, g in table:
            if m == means[k]:
                sd[k] = min(sd.get(k, np.inf), np.std(g, ddof=1) if n > 1 else 0.0)
        ties = [k for k in means if means[k] == means[bk]]
        smallest = min(sd[k] for k in ties)
        if sd[bk] - smallest > 1e-9 * (1 + smallest) + 1e-7 * abs(best):
            ctx.violate("tie-spread", mm, f"best_params {bk} has spread {sd[bk]}, {[(k, sd[k]) for k in ties]} have the same mean")
    if not K.same_value(tuner.best_score, means[bk]):
        ctx.violate("best-score", "tuner", f"best_score {tuner.best_score}, mean of the best configuration {means[bk]}")
    if bk not in [ck(p) for p in tuner.best_row["params"].tolist()] or abs(float(tuner.best_row["trial_mean"].values[0]) - means[bk]) > tol:
        ctx.violate("best-row", "tuner", f"best_row {tuner.best_row.to_dict()} does not belong to {bk}")


def isnan(v):
    try:
        return bool(np.isnan(v))
    except TypeError:
        return False


def loose(key):
    """pandas turns integers into floats in a mixed row."""
    return json.dumps({k: (float(v) if isinstance(v, (int, float)) and not isinstance(v, bool) else str(v)) for k, v in json.loads(key).items()}, sort_keys=True)


def export(ctx, job, tuner, path):
    ext = job["export"]
    tuner.export_results(save_path=os.path.join(path, "r"), file_name=f"fit.{ext}")
    suf = {"csv": "csv", "json": "json", "dataframe": "pkl"}[ext]
    check_table(ctx, tuner.df_fit, os.path.join(path, "r", f"fit.{suf}"), ext, "export_results")
    if job.get("rank") or job["env_seed"] % 5 == 0:
        with NoPlots():
            tuner.export_figures(save_path=os.path.join(path, "f"), file_name=f"loss.{ext}", exts=())
        check_table(ctx, tuner.df_loss, os.path.join(path, "f", f"loss.{suf}"), ext, "export_figures")


class NoPlots:
    """Figures are not tables: drawing goes to objects that accept anything (C22 looks at figures)."""

    def __enter__(self):
        import types
        from unittest.mock import MagicMock
        import pandas as pd
        import matplotlib.pyplot as plt
        any_ = MagicMock()
        self.saved = [(o, n, getattr(o, n)) for o, n in [(pd.DataFrame, "plot"), (pd.Series, "plot")] + [(plt, n) for n, f in vars(plt).items() if isinstance(f, types.FunctionType) and not n.startswith("_")]]
        for o, n, _ in self.saved:
            setattr(o, n, any_)
        plt.subplots = lambda *a, **k: (any_, any_)

    def __exit__(self, *a):
        for o, n, f in self.saved:
            setattr(o, n, f)
        return False


def check_table(ctx, df, file, ext, what):
    try:
        got = K.read_table(file)
    except Exception as e:      # noqa: BLE001
        ctx.violate("export-unreadable", what, f"{what} as {ext}: {e!r}")
        return
    tol = K.JSON_TOL if ext == "json" else 0.0
    for c in df.columns:
        want = df[c].tolist()
        have = got.get(str(c))
        if have is None or len(have) != len(want):
            ctx.violate("export-column", what, f"{what} as {ext}: column {c} has {None if have is None else len(have)} of {len(want)} values")
            return
        for a, b in zip(have, want):
            if isinstance(b, dict):
                if ext == "csv":
                    ok = a == str(b)
                else:
                    ok = set(a) == set(b) and all(K.same_value(a[k], b[k], tol) for k in b)
            elif isinstance(b, float) and not np.isfinite(b) and ext == "json":
                ok = True       # JSON has no infinity
            elif isinstance(b, bool) or isinstance(b, np.bool_):
                ok = str(a) == str(b)
            else:
                ok = K.same_value(a, b, tol)
            if not ok:
                ctx.violate("export-value", what, f"{what} as {ext}: column {c} holds {a!r}, recorded {b!r}")
                return


def shrink(job):
    out = []
    if job["kind"] == "set":
        if len(job["seq"]) > 1:
            for i in range(len(job["seq"])):
                out.append(dict(job, seq=job["seq"][:i] + job["seq"][i + 1:]))
        base = W.base_kwargs(job["alg"])
        for i, kw in enumerate(job["seq"]):
            for k in kw:
                if k not in base and k in kw:
                    s = copy.deepcopy(job["seq"])
                    del s[i][k]
                    out.append(dict(job, seq=s))
        if job["solve_first"]:
            out.append(dict(job, solve_first=False))
        return out + C.shrink_job(job)
    for k, v in (("n_jobs", None), ("n_jobs", 2), ("mode", "single"), ("term", None), ("n_trials", 1), ("n_trials", 2), ("n_trials", 3), ("instance", False), ("np_grid", False),
                 ("export", "csv"), ("verbose", False)):
        if job[k] != v and not (k == "n_jobs" and v == 2 and job[k] in (None, 1)) and not (k == "n_trials" and v > 1 and job[k] < v):
            out.append(dict(job, **{k: v}))
    for k, vs in job["grid"].items():
        if len(job["grid"]) > 1:
            out.append(dict(job, grid={a: b for a, b in job["grid"].items() if a != k}))
        if len(vs) > 1:
            for i in range(len(vs)):
                out.append(dict(job, grid={**job["grid"], k: vs[:i] + vs[i + 1:]}))
    return out + [j for j in C.shrink_job(dict(job, mode="single")) if j["mode"] == "single"]


def signature(job):
    return json.dumps({k: v for k, v in job.items() if k != "env"}, sort_keys=True, default=str)
