"""C13: a multi-task run covers every task exactly once and exports what was measured."""
import copy
import json
import os
import random
from collections import Counter

import numpy as np

from .. import campaign as K, common as C, engine as E, kernel, seams, workload as W
from ..common import REAL, STUB, ASSUME
from .c12 import where

ID, TITLE = "C13", "Multi-task runs cover every task exactly once and export what was measured"
RULE = ("a job = 1-3 algorithms x 1-3 problems (possibly equal names) x trials x jobs x assignment of terminations and modes x export format x schedule; "
        "every solve is recorded and the exported files are parsed and compared with the records; non-trivial = at least one task executed")
CHUNK = 6
ISOLATE = True
ASSUME = ASSUME + ["the seed a campaign leaves open is drawn by the simulator (it stands for the operating system's entropy)"]


def jobs(seed, tier):
    names = [a for a in W.algorithms() if a not in W.HEAVY]
    n = {"quick": 900, "thorough": 9000}[tier]
    return [K.gen_multitask(random.Random(f"{ID}/{seed}/{i}"), names) for i in range(n)]


def run(ctx, job):
    with ctx.zygote() as zyg:
        run_all(ctx, job, zyg)


def run_all(ctx, job, zyg):
    with K.Recorder() as rec, K.Scratch() as path:
        with ctx.env(job["env"]) as sim:
            mt = K.build_multitask(job)
            status, exc = "ok", None
            try:
                K.run_multitask(job, mt, path)
            except (kernel.SimDeadlock, kernel.SimStuck, E.HardHang) as e:
                status, exc = type(e).__name__, e
            except kernel.SimAbort:
                raise
            except BaseException as e:      # noqa: BLE001
                status, exc = "exc", e
            sim.drain()
            ents = rec.entries(sim)
        if status != "ok":
            if any("exc" in e for e in ents):
                ctx.skip(f"a trial ends with {exc!r}"[:80])
            else:
                ctx.violate("multitask-fails", where(exc), f"{job['algs']} x {len(job['probs'])} problems, terminations {job['terms']}, modes {job['modes']}, n_jobs {job['n_jobs']}: "
                            f"{status} {exc!r}")
            return
        judge(ctx, job, ents)
        tables(ctx, job, ents, path)
    r = random.Random(job["env_seed"])
    for e in r.sample(ents, min(2, len(ents))):
        i, j = e["oid"], int(e["tag"][1:])
        res, ref = zyg.call(K.resolve_fresh, job, job["algs"][i], job["kws"][i], job["probs"][j], e)
        if ref is None:
            ctx.skip(f"the task alone: {res}")
        elif not K.same_run(e, ref):
            ctx.violate("task-disturbed", "multitask", f"{job['algs'][i]} on problem {j} (mode {e['mode']}, seed {e['seed']}) gave {e['fit']} {e['conv']}, alone {ref['fit']} {ref['conv']}")


def judge(ctx, job, ents):
    n, m = len(job["algs"]), len(job["probs"])
    by = Counter((e["oid"], int(e["tag"][1:])) for e in ents)
    want = {(i, j): job["n_trials"] for i in range(n) for j in range(m)}
    if by != Counter(want):
        ctx.violate("tasks-not-once", "multitask", f"solves per (algorithm, problem) {dict(by)}, expected {want}")
    for e in ents:
        i, j = e["oid"], int(e["tag"][1:])
        if e["term"] != job["term_of"][i][j]:
            ctx.violate("termination-assignment", "multitask", f"terminations {job['terms']}: task ({i},{j}) ran with {e['term']}, assigned {job['term_of'][i][j]}")
        if e["mode"] != (job["mode_of"][i][j] or "single"):
            ctx.violate("mode-assignment", "multitask", f"modes {job['modes']}: task ({i},{j}) ran in mode {e['mode']}, assigned {job['mode_of'][i][j]}")
        if e["n_workers"] != job["n_workers"]:
            ctx.violate("workers-assignment", "multitask", f"task ({i},{j}) ran with n_workers {e['n_workers']}, asked for {job['n_workers']}")


def col(v):
    return tuple(repr(float(x)) for x in v)


def tables(ctx, job, ents, path):
    ext = {"csv": "csv", "json": "json", "dataframe": "pkl"}[job["save_as"]]
    tol = K.JSON_TOL if ext == "json" else 0.0
    fits, convs = {}, {}
    per = Counter((e["oid"], e["tag"]) for e in ents)
    nums = {(e["oid"], e["tag"], e["trial"]) for e in ents if e["trial"] is not None}
    numbered = len(nums) == len(ents) and all(v == job["n_trials"] for v in per.values())
    if numbered:        # the order in which the trials ended is free: put each task's records in the order of its trial numbers
        ents = sorted(ents, key=lambda e: e["trial"])
    for e in ents:      # otherwise records of one task are in the order in which its trials ended
        k = (e["oid"], int(e["tag"][1:]))
        fits.setdefault(k, []).append(e["fit"])
        convs.setdefault(k, []).append(e["conv"])
    base = os.path.join(path, "best_fit")
    files = {f: K.read_table(os.path.join(base, f)) for f in sorted(os.listdir(base))} if os.path.isdir(base) else {}
    names = K.optimizer_names(job)
    mine = sorted((f, t) for f, t in files.items() if f.endswith("." + ext))
    if len(mine) != len(names) or len(files) != len(mine):
        ctx.violate("best-fit-files", "multitask", f"optimizers named {names}, best-fit files {sorted(files)}")
    else:       # each file must be one of the optimizers' results: all columns, all trials
        bad = assign(list(range(len(names))), mine, lambda i, ft: ft[0].startswith(names[i]) and match_file(job, ft[1], i, fits, tol, numbered))
        if bad is not None:
            ctx.violate("best-fit-values", "multitask", f"{names[bad]}: the trials gave {[{job['probs'][j]['name'] + '/' + str(j): fits.get((bad, j)) for j in range(len(job['probs']))}]}; "
                        f"the files hold {[ft for ft in mine if ft[0].startswith(names[bad])]}")
    cbase = os.path.join(path, "convergence")
    if not job["save_convergence"]:
        extra = [f for _, _, fs in os.walk(cbase) for f in fs]
        if extra:
            ctx.violate("convergence-unasked", "multitask", f"convergence files {extra} without save_convergence")
        return
    got = []
    for dp, _, fs in os.walk(cbase):
        for f in sorted(fs):
            got.append((os.path.relpath(os.path.join(dp, f), cbase), K.read_table(os.path.join(dp, f))))
    left = sorted(convs)
    if len(got) != len(left):
        ctx.violate("convergence-files", "multitask", f"{len(left)} tasks, convergence files {sorted(g[0] for g in got)}")
        return
    bad = assign(left, sorted(got), lambda k, ft: ft[0].split(os.sep)[0].startswith(names[k[0]]) and os.path.basename(ft[0]).startswith(job["probs"][k[1]]["name"])
                 and match_conv(ft[1], convs[k], job["n_trials"], tol, numbered))
    if bad is not None:
        ctx.violate("convergence-values", "multitask", f"{names[bad[0]]} on {job['probs'][bad[1]]['name']}: the trials gave {convs[bad]}; the files hold "
                    f"{[ft for ft in got if ft[0].startswith(names[bad[0]])]}")
        return
    # the same trial in both tables
    if len(set(names)) == len(names) and len({p["name"] for p in job["probs"]}) == len(job["probs"]):
        conv_of = {f: t for f, t in got}
        for i, a in enumerate(names):
            bf = files.get(f"{a}_best_fit.{ext}")
            for p in job["probs"]:
                ct = conv_of.get(os.path.join(a, f"{p['name']}_convergence.{ext}"))
                if bf is None or ct is None or p["name"] not in bf:
                    continue
                for t in range(job["n_trials"]):
                    c = [v for v in ct.get(f"trial_{t + 1}", []) if not nan(v)]
                    if c and np.isfinite(c[-1]) and not K.same_value(bf[p["name"]][t], c[-1], tol):
                        ctx.violate("trial-attribution", "multitask", f"{a} on {p['name']} trial {t + 1}: best fitness {bf[p['name']][t]}, its convergence ends with {c[-1]}")


def nan(v):
    try:
        return bool(np.isnan(v))
    except TypeError:
        return False


def eqcol(a, b, tol):
    return len(a) == len(b) and all(K.same_value(x, y, tol) or (tol and nan(x) and not np.isfinite(y)) for x, y in zip(a, b))


def msame(a, b, tol):
    """Multiset equality (the completion order of parallel trials is free)."""
    key = lambda v: (nan(v), v if not nan(v) else 0)        # noqa: E731
    return eqcol(sorted(a, key=key), sorted(b, key=key), tol)


def assign(need, have, ok):
    """A one-to-one assignment of `have` to `need` that satisfies ok; None, or one of `need` that stays without."""
    owner = {}

    def place(n, seen):
        for k, h in enumerate(have):
            if k not in seen and good[n, k]:
                seen.add(k)
                if k not in owner or place(owner[k], seen):
                    owner[k] = n
                    return True
        return False
    good = {(n, k): ok(n, h) for n in need for k, h in enumerate(have)}
    for n in need:
        if not place(n, set()):
            return n
    return None


def match_file(job, t, i, fits, tol, numbered=False):
    cols = list(t.items())
    if len(cols) != len(job["probs"]):
        return False
    same = eqcol if numbered or job["n_jobs"] in (None, 1) else msame
    return assign(list(range(len(cols))), cols, lambda j, cv: cv[0].startswith(job["probs"][j]["name"]) and same(cv[1], fits.get((i, j), []), tol)) is None


def match_conv(t, convs, n, tol, numbered=False):
    if sorted(t) != sorted(f"trial_{k}" for k in range(1, n + 1)):
        return False
    L = max(len(c) for c in convs)
    pad = [list(c) + [float("nan")] * (L - len(c)) for c in convs]
    if numbered:
        return all(eqcol(t[f"trial_{k + 1}"], p, tol) for k, p in enumerate(pad))
    cols = [t[k] for k in t]
    for p in pad:
        ok = [k for k, c in enumerate(cols) if eqcol(c, p, tol)]
        if not ok:
            return False
        cols.pop(ok[0])
    return not cols


def shrink(job):
    out = []
    for k, v in (("n_jobs", None), ("n_jobs", 2), ("n_trials", 1), ("save_as", "csv"), ("verbose", False), ("as_tuple", False), ("term_instance", False)):
        if job[k] != v and not (k == "n_jobs" and v == 2 and job[k] in (None, 1)):
            out.append(dict(job, **{k: v}))
    n, m = len(job["algs"]), len(job["probs"])
    if job["n_trials"] > 3:
        out.append(dict(job, n_trials=3))
    if job.get("onames"):
        out.append(dict(job, onames=None))
    if job["terms"] is not None:
        out.append(dict(job, terms=None, term_of=[[None] * m for _ in range(n)]))
    if job["modes"] is not None:
        out.append(dict(job, modes=None, mode_of=[[None] * m for _ in range(n)]))
    if n > 1 and job["terms"] is None and job["modes"] is None and not job.get("onames"):
        for i in range(n):
            out.append(dict(job, algs=job["algs"][:i] + job["algs"][i + 1:], kws=job["kws"][:i] + job["kws"][i + 1:], term_of=job["term_of"][1:], mode_of=job["mode_of"][1:]))
    if m > 1 and job["terms"] is None and job["modes"] is None:
        for j in range(m):
            out.append(dict(job, probs=job["probs"][:j] + job["probs"][j + 1:], instance=job["instance"][:j] + job["instance"][j + 1:],
                            term_of=[x[1:] for x in job["term_of"]], mode_of=[x[1:] for x in job["mode_of"]]))
    return out


def signature(job):
    return json.dumps({k: v for k, v in job.items() if k != "env"}, sort_keys=True, default=str)
