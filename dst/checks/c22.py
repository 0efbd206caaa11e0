"""C22: exported charts draw the recorded history, and nothing else."""
import copy
import errno
import json
import os
import random

import numpy as np

from .. import campaign as K, common as C, engine as E, fsim, workload as W
from ..common import REAL, STUB, ASSUME
from .c14 import gen_fault, plan_of

ID, TITLE = "C22", "Exported charts show exactly the recorded run"
RULE = ("a job = one or two solved runs and 3-7 chart exports from their histories, or a tuning run and 1-3 exports of its figures, each with its own disk fault, titles and file names (also repeated ones), with or "
        "without figures of the caller's own open; every figure's axes and lines at the moment it is saved are compared with the recorded series; non-trivial = at least two exports drew something")
CHUNK = 6
STUB = STUB + ["rendering: most figures are written as a short description of their lines instead of pixels (pyplot, axes and lines are real; a tenth of the jobs renders with the real backend)",
               "the disk below the scratch directory: real files behind a raw device that fails on command"]
KINDS = ["global_fit", "local_fit", "runtime", "explore", "diversity", "global_obj", "local_obj", "trajectory", "diversities"]
METHOD = {"global_fit": "save_global_best_fitness_chart", "local_fit": "save_local_best_fitness_chart", "runtime": "save_runtime_chart", "explore": "save_exploration_exploitation_chart",
          "diversity": "save_diversity_chart", "global_obj": "save_global_objectives_chart", "local_obj": "save_local_objectives_chart", "trajectory": "save_trajectory_chart",
          "diversities": "export_diversity_chart"}


def jobs(seed, tier):
    q = tier == "quick"
    names = list(W.algorithms())
    light = [a for a in names if a not in W.HEAVY]
    js = []
    for i in range(200 if q else 4000):
        r = random.Random(f"{ID}/{seed}/{i}")
        runs, long = [], 0
        for _ in range(r.choice([1, 2])):
            j = C.gen_job(r, names[(i + r.randrange(len(names))) % len(names)], r.choice(["single", "swarm"]), epoch=r.choice([1, 2, 3, 5]), pop=r.choice([8, 10, 12]), multi=0.45, mixed=0.2, bad=0.15)
            j["prob"]["save_population"] = True
            if r.random() < .08 and j["prob"]["obj"]["nobj"] > 1:
                j["prob"]["obj"]["nobj"] = r.choice([4, 7, 9, 10, 11, 13])
                j["prob"]["weights"] = None
            if r.random() < .12:
                j["prob"]["obj"]["bad"] = [r.choice(["inf", "inf", "nan"]), r.choice([-0.5, -1.1, -1.6, -2.2])]   # most of the space has no value
            if r.random() < .1 and j["alg"] in light and not long:
                j["kw"]["epoch"], long = r.choice([40, 110]), 1
            runs.append(j)
        steps = []
        for k in range(r.randint(3, 7)):
            kind = r.choice(KINDS)
            s = {"run": r.randrange(len(runs)), "kind": kind, "name": r.choice(["a", "b", "sub/c", "sub/deep/d", f"n{k}", f"m_{k}"]), "title": r.choice([None, f"T{k}"]),
                 "fault": gen_fault(r) if r.random() < .4 else [], "verbose": r.random() < .5}
            if r.random() < .1:
                s["fault"] = [["mkdir", 0.0, r.choice([errno.EACCES, errno.ENOSPC])]]
            if kind in ("global_fit", "local_fit", "runtime"):
                s["exts"] = r.choice([None, None, [".png"], [".pdf", ".svg"], [".png", ".pdf", ".svg"]])
                s["legend"] = r.choice([None, "L"])
            if kind in ("global_obj", "local_obj"):
                s["y_labels"] = r.random() < .3
            if kind == "trajectory":
                s["agents"] = r.sample(range(1, 8), r.randint(1, 5)) if r.random() < .7 else r.sample(range(1, 11), r.randint(1, 10))
                s["dims"] = r.choice([[1], [2], [1, 2], [2, 1]])
            steps.append(s)
        js.append({"kind": "history", "runs": runs, "steps": steps, "own": r.choice([0, 0, 1, 2]), "real": i % 10 == 0, "env": C.gen_env(r, True), "env_seed": r.getrandbits(40)})
    for i in range(40 if q else 800):
        r = random.Random(f"{ID}/t/{seed}/{i}")
        j = K.gen_tuner(r, r.choice(light))
        j.update(kind="tuner", mode="single", n_jobs=None, n_trials=r.choice([1, 2, 3]), own=r.choice([0, 0, 1]), real=False)
        j["steps"] = [{"fault": gen_fault(r) if r.random() < .4 else [], "exts": r.choice([[".png"], [".png", ".pdf"]]), "dir": r.choice(["o", "o", f"p{k}"]), "ext": r.choice(["csv", "json", "dataframe"])}
                      for k in range(r.randint(1, 3))]
        js.append(j)
    for j in js:
        j["env"]["lines"] = False
    return js


class Figures:
    """Sees every figure at the moment it is saved."""

    def __init__(self, real):
        self.real, self.seen = real, []

    def __enter__(self):
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.figure as mf
        import matplotlib.pyplot as plt
        self.mf, self.plt, self.old = mf, plt, mf.Figure.savefig
        plt.close("all")
        me = self

        def savefig(fig, fname, *a, **k):
            d = describe(fig)
            path = os.path.realpath(os.fspath(fname)) if not hasattr(fname, "write") else None
            if me.real:
                me.old(fig, fname, *a, **k)
            elif path is None:
                fname.write(json.dumps(d).encode())
            else:
                with open(fname, "wb") as f:
                    f.write(json.dumps(d).encode())
            me.seen.append((path, d))
        mf.Figure.savefig = savefig
        return self

    def __exit__(self, *a):
        self.mf.Figure.savefig = self.old
        self.plt.close("all")
        return False


def describe(fig):
    out = []
    for ax in fig.axes:
        out.append({"title": ax.get_title(), "xlabel": ax.get_xlabel(), "ylabel": ax.get_ylabel(),
                    "lines": [[ln.get_label() if not str(ln.get_label()).startswith("_") else None, vals(ln.get_xdata()), vals(ln.get_ydata())] for ln in ax.lines],
                    "legend": [t.get_text() for t in ax.get_legend().get_texts()] if ax.get_legend() is not None else None})
    sup = fig._suptitle.get_text() if getattr(fig, "_suptitle", None) is not None else None
    return {"axes": out, "suptitle": sup}


def vals(x):
    return [repr(float(v)) for v in np.asarray(x, dtype=float).ravel()]


def upto(n):
    return vals(np.arange(n))


def expected(s, h):
    """[(label or None, x, y)] for each axes."""
    k = s["kind"]
    if k in ("global_fit", "local_fit", "runtime"):
        y = {"global_fit": h.list_global_best_fit, "local_fit": h.list_current_best_fit, "runtime": h.list_epoch_time}[k]
        return [[[s.get("legend"), upto(len(y)), vals(y)]]]
    if k == "explore":
        return [[["Exploration %", upto(len(h.list_exploration)), vals(h.list_exploration)], ["Exploitation %", upto(len(h.list_exploitation)), vals(h.list_exploitation)]]]
    if k == "diversity":
        return [[["Alg", upto(len(h.list_diversity)), vals(h.list_diversity)]]]
    if k == "diversities":
        return [[[f"A{i}", upto(len(g.list_diversity)), vals(g.list_diversity)] for i, g in enumerate(h)]]
    if k in ("global_obj", "local_obj"):
        ag = h.list_global_best if k == "global_obj" else h.list_current_best
        ob = np.array([a.target.objectives for a in ag], dtype=float)
        return [[[None, upto(len(ob)), vals(ob[:, c])]] for c in range(ob.shape[1])]
    out = []
    dims = sorted(set(s["dims"]))
    for a in sorted(set(s["agents"])):
        tr = [[pop[a - 1].solution[d - 1] for pop in h.list_population] for d in dims]
        out.append([f"Agent {a}", upto(len(tr[0])), vals(tr[0])] if len(dims) == 1 else [f"Agent {a}", vals(tr[0]), vals(tr[1])])
    return [out]


def export(s, h, path):
    kw = {"filename": os.path.join(path, s["name"]), "verbose": s["verbose"]}
    if s["title"]:
        kw["title"] = s["title"]
    if s.get("exts"):
        kw["exts"] = tuple(s["exts"])
    if s.get("legend"):
        kw["legend"] = s["legend"]
    if s["kind"] == "diversities":
        from mealpy.utils import visualize
        visualize.export_diversity_chart([g.list_diversity for g in h], list_legends=[f"A{i}" for i in range(len(h))], **kw)
        return
    if s.get("y_labels"):
        kw["y_labels"] = [f"Y{c}" for c in range(len(h.list_global_best[0].target.objectives))]
    if s["kind"] == "diversity":
        kw["algorithm_name"] = "Alg"
    if s["kind"] == "trajectory":
        kw["list_agent_idx"], kw["selected_dimensions"] = tuple(s["agents"]), tuple(s["dims"])
    getattr(h, METHOD[s["kind"]])(**kw)


class Own:
    """Figures the caller has open; they are the current ones."""

    def __init__(self, plt, n):
        self.plt, self.figs = plt, []
        for k in range(n):
            f = plt.figure()
            plt.plot([0, 1, 2], [k, 5, k])
            self.figs.append((f.number, json.dumps(describe(f))))

    def problem(self):
        nums = self.plt.get_fignums()
        want = [n for n, _ in self.figs]
        if nums != want:
            return "figures-left-open" if set(nums) > set(want) else "own-figure-closed", f"open figures {nums}, the caller's own are {want}"
        for n, d in self.figs:
            if json.dumps(describe(self.plt.figure(n))) != d:
                return "own-figure-drawn-on", f"the caller's figure {n} now is {describe(self.plt.figure(n))}"
        return None


def run(ctx, job):
    {"history": run_history, "tuner": run_tuner}[job["kind"]](ctx, job)


def sizes(do, path):
    """What an export writes when nothing fails."""
    with fsim.FS(path) as ref:
        do()
    return ref


def judge(ctx, what, fs, err, f, own, real=False):
    if err is not None and not fs.errored():
        ctx.violate("fails-without-fault", what, f"{what} fails although the disk did not (plan {f}, {fs.fired}): {err!r}")
    if err is None and [x for x in fs.errored() if x != "mkdir"]:       # a folder that exists need not be made
        ctx.violate("disk-error-swallowed", what, f"{what} returned although the disk failed: {fs.errored()} (plan {f})")
    if err is not None and fs.errored() and "injected" not in repr(err) and not real:      # (the PDF backend stumbles over its own clean-up)
        ctx.violate("other-error", what, f"the disk failed ({fs.errored()}), {what} reports {err!r}")
    lk = fs.leaked()
    if lk and not (real and err is not None):
        ctx.violate("descriptor-leak", what, f"{lk} still open after {what} ({err!r})")
    p = own.problem()
    if p:
        ctx.violate(p[0], what, f"after {what} ({err!r}): {p[1]}")
    return p


def run_history(ctx, job):
    with K.Scratch() as path, ctx.env(job["env"]):
        hs = []
        for i, j in enumerate(job["runs"]):
            d, _ = W.build_problem(j["prob"], f"s{i}")
            opt = W.make_optimizer(j["alg"], j["kw"])
            r = E.run_solve(opt, d, j, f"s{i}", probe=False)
            if not r.ok():
                ctx.skip(f"solve: {r.status}")
                return
            hs.append((opt, opt.history))
        prints = [print_of(o, h) for o, h in hs]
        drawn = 0
        told = []
        with Figures(job["real"]) as figs:
            own = Own(figs.plt, job["own"])
            for n, s in enumerate(job["steps"]):
                h = hs[s["run"]][1]
                if s["kind"] == "diversities":
                    h = [g for _, g in hs]
                    if len({len(g.list_diversity) for g in h}) > 1:
                        continue
                if s["kind"] == "trajectory":
                    pops = h.list_population
                    if len(pops) < 2 or max(s["agents"]) > min(len(p) for p in pops) or max(s["dims"]) > len(pops[0][0].solution):
                        continue
                what = METHOD[s["kind"]]
                want = expected(s, h)
                nbytes = 400 * sum(len(ln[1]) for ax in want for ln in ax) if job["real"] else 60 + len(json.dumps(want))
                fs = fsim.FS(path, plan_of(s["fault"], nbytes, {"open": 2, "close": 2, "write1": 2, "mkdir": 1}))
                k0, there = len(figs.seen), files_below(path)
                err = None
                with fs:
                    try:
                        export(s, h, path)
                    except Exception as e:      # noqa: BLE001
                        err = e
                told.append(f"{s['kind']}{'!' if err is not None else ''}")
                new = figs.seen[k0:]
                drawn += bool(new)
                for p, d in new:
                    got = [ax["lines"] for ax in d["axes"]]
                    if got != want:
                        ctx.violate(mistake(got, want), what, f"after {told[:-1]} (own figures: {job['own']}), {what} of run {s['run']} draws {short(got)} instead of {short(want)}")
                    titles = [ax["title"] for ax in d["axes"]] + [d["suptitle"]]
                    if s["title"] and s["title"] not in titles:
                        ctx.violate("title", what, f"asked for title {s['title']}, the figure has {titles}")
                    axes = [(ax["xlabel"], ax["ylabel"]) for ax in d["axes"]]
                    if labels_of(s, h, axes) is False:
                        ctx.violate("axis-labels", what, f"the axes of {s} are labelled {axes}")
                    for ax in d["axes"]:
                        lab = [ln[0] for ln in ax["lines"]]
                        if ax["legend"] is not None and ax["legend"] != [x for x in lab if x is not None]:
                            ctx.violate("legend", what, f"legend {ax['legend']} on lines {lab}")
                if err is None:
                    exts = s.get("exts") or [".png", ".pdf"]
                    files = [os.path.realpath(os.path.join(path, s["name"] + e)) for e in exts]
                    extra = files_below(path) - there - set(files)
                    if extra or not new:
                        ctx.violate("files", what, f"{what} as {s['name']} with {exts} drew {len(new)} figures and wrote {sorted(os.path.relpath(p, path) for p in extra)}")
                    for p in files if new else []:
                        bad = check_file(p, [d for _, d in new], job["real"])
                        if bad:
                            ctx.violate("file-content", what, f"{what} returned (plan {s['fault']}, {fs.fired[:4]}), but {os.path.relpath(p, path)} {bad}")
                p = judge(ctx, what, fs, err, s["fault"], own, job["real"])
                err = None
                fs.cleanup()
                if p:
                    return
        for (o, h), b in zip(hs, prints):
            if print_of(o, h) != b:
                ctx.violate("history-changed", "charts", f"exporting {told} changed the history of the run")
        if drawn < 2:
            ctx.skip("drew less than two charts")


def print_of(o, h):
    return E.history_digest(h), E.agent_key(o.g_best), [repr(list(x)) for x in (h.list_epoch_time, h.list_diversity, h.list_exploration, h.list_exploitation)], [[E.agent_key(a) for a in p] for p in h.list_population]


def labels_of(s, h, axes):
    if s["kind"] == "trajectory":
        d = sorted(set(s["dims"]))
        return axes == ([("#Iteration", f"x{d[0]}")] if len(d) == 1 else [(f"x{d[0]}", f"x{d[1]}")])
    if s.get("y_labels"):
        return [y for _, y in axes] == [f"Y{c}" for c in range(len(axes))]
    if s["kind"] in ("global_obj", "local_obj") and len(axes) > 1:
        return [y for _, y in axes] == [f"Objective {c + 1}" for c in range(len(axes))]
    return None


def files_below(path):
    return {os.path.realpath(os.path.join(d, f)) for d, _, fs in os.walk(path) for f in fs}


def check_file(p, ds, real):
    try:
        with open(p, "rb") as f:
            b = f.read()
    except OSError as e:
        return f"cannot be read: {e!r}"
    if not real:
        return None if b in [json.dumps(d).encode() for d in ds] else f"holds {len(b)} bytes, which are not the figure just drawn"
    head = {".png": b"\x89PNG", ".pdf": b"%PDF", ".svg": b"<?xml"}[os.path.splitext(p)[1]]
    tail = {".png": b"IEND", ".pdf": b"%%EOF", ".svg": b"</svg>"}[os.path.splitext(p)[1]]
    return None if b.startswith(head) and tail in b[-32:] else f"is not a complete {os.path.splitext(p)[1]} file ({len(b)} bytes)"


def mistake(got, want):
    g, w = [ln for ax in got for ln in ax], [ln for ax in want for ln in ax]
    if len(g) > len(w):
        return "foreign-series"
    if len(g) < len(w):
        return "series-missing"
    return "wrong-series"


def short(x):
    return str(x)[:500]


# ------------------------------------------------------------------ tuning
def run_tuner(ctx, job):
    with K.Scratch() as path, ctx.env(job["env"]):
        tuner, d, obj = K.build_tuner(job)
        try:
            K.run_tuner(job, tuner, d)
        except Exception as e:      # noqa: BLE001
            ctx.skip(f"tuner: {e!r}"[:60])
            return
        want = sorted(json.dumps(x) for x in figures_of(tuner))
        total = sum(len(x) for x in want)
        if not want:
            ctx.skip("nothing to draw")
        loss = tuner.df_loss.copy(deep=True)
        with Figures(False) as figs:
            own = Own(figs.plt, job["own"])
            for s in job["steps"]:
                out = os.path.join(path, s["dir"])
                fs = fsim.FS(path, plan_of(s["fault"], 1.3 * total * len(s["exts"]), {"open": len(want) * len(s["exts"]) + 1, "close": len(want) * len(s["exts"]) + 1, "write1": len(want) + 1, "mkdir": 2}))
                k0, err = len(figs.seen), None
                with fs:
                    try:
                        tuner.export_figures(save_path=out, file_name=f"t.{s['ext']}", exts=tuple(s["exts"]))
                    except Exception as e:      # noqa: BLE001
                        err = e
                new = figs.seen[k0:]
                for p, d in new:
                    if lines_of(d) not in want:
                        ctx.violate("wrong-series", "export_figures", f"{os.path.relpath(p, out)} draws {short(lines_of(d))}, which is no group of the tuning run with parameters {job['grid']}")
                if err is None:
                    for e in s["exts"]:
                        got, bad = [], []
                        for p in sorted(files_below(out)):
                            if p.endswith(e):
                                try:
                                    with open(p, "rb") as f:
                                        got.append(lines_of(json.loads(f.read())))
                                except Exception as x:      # noqa: BLE001
                                    bad.append((os.path.relpath(p, out), repr(x)))
                        if sorted(got) != want:
                            ctx.violate("file-content" if bad else "figures", "export_figures", f"parameters {job['grid']}, {job['n_trials']} trials, plan {s['fault']}: export_figures returned, and there are {len(got)} complete figures instead of {len(want)} as {e}: {sorted(os.path.relpath(p, out) for p in files_below(out))} {bad}")
                p = judge(ctx, "export_figures", fs, err, s["fault"], own)
                err = None
                fs.cleanup()
                if p:
                    return
        if not loss.equals(tuner.df_loss):
            ctx.violate("history-changed", "export_figures", "exporting the figures changed the recorded convergence")


def lines_of(d):
    """The convergence curves of a figure with their legend entries, in any order (the legend goes by position)."""
    ls = []
    for ax in d["axes"]:
        leg = ax["legend"] or []
        for k, (_, x, y) in enumerate(ax["lines"]):
            ls.append([leg[k] if k < len(leg) else None, [v for v in y if v != "nan"]])
    return json.dumps(sorted(ls, key=str))


def figures_of(tuner):
    """What should be drawn: per trial and parameter, the runs that agree in all other parameters."""
    df = tuner.df_loss
    paras = list(tuner.param_grid.keys())
    cols = [c for c in df.columns if c not in paras and c != "trial"]
    rows = df.to_dict("records")
    out = []
    for t in sorted({r["trial"] for r in rows}):
        for p in paras:
            groups = {}
            for r in rows:
                if r["trial"] == t:
                    groups.setdefault(repr([r[q] for q in paras if q != p]), []).append(r)
            for g in groups.values():
                if len(g) > 1:
                    out.append(sorted([[f"{p} = {r[p]}", [v for v in vals([r[c] for c in cols]) if v != "nan"]] for r in g], key=str))
    return out


def shrink(job):
    out = []
    for i in range(len(job["steps"])):
        if len(job["steps"]) > 1:
            out.append(dict(job, steps=job["steps"][:i] + job["steps"][i + 1:]))
        if job["steps"][i]["fault"]:
            st = copy.deepcopy(job["steps"])
            st[i]["fault"] = []
            out.append(dict(job, steps=st))
    if job["own"]:
        out.append(dict(job, own=0))
    if job["real"]:
        out.append(dict(job, real=False))
    if job["kind"] == "history" and len(job["runs"]) > 1:
        out.append(dict(job, runs=job["runs"][:1], steps=[dict(s, run=0) for s in job["steps"]]))
    return out


def signature(job):
    return json.dumps({k: v for k, v in job.items() if k != "env"}, sort_keys=True, default=str)
