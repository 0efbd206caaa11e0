"""C14: acknowledged saves are complete, failed saves are reported."""
import copy
import errno
import json
import os
import random

import numpy as np

from .. import campaign as K, common as C, engine as E, fsim, kernel, seams, workload as W
from ..common import REAL, STUB, ASSUME
from .c12 import NoPlots

ID, TITLE = "C14", "Acknowledged saves are complete; failed saves are reported"
LEVEL = "fault_enumeration"
RULE = ("a job = a model at a point of its life (fresh, solved, aborted, saved by a running solve) or a tuner/multi-task campaign x file form x disk fault "
        "(full, I/O error, quota, too many open files on open/write/close/read/mkdir, torn and short writes) x byte offset or operation index; non-trivial = something was written")
CHUNK = 8
STUB = STUB + ["the disk below the scratch directory: real files behind a raw device that fails on command; text/buffer layers, pickle and pandas are real"]

WERR = [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG]
OERR = [errno.EMFILE, errno.ENFILE, errno.EACCES, errno.ENOSPC, errno.EIO]


def gen_fault(r):
    k = r.choice(["none", "write", "write", "write", "write1", "open", "close", "close", "short", "short+write", "short+close"])
    if k == "none":
        return []
    if k == "write":
        return [["write", r.random(), r.choice(WERR)]]
    if k == "write1":
        return [["write1", r.random(), r.choice(WERR)]]
    if k == "open":
        return [["open", r.random(), r.choice(OERR)]]
    if k == "close":
        return [["close", r.random(), r.choice([errno.EIO, errno.ENOSPC, errno.EDQUOT])]]
    f = [["short", r.choice([1, 7, 64, 1000]), 0]]
    if k == "short+write":
        f.append(["write", r.random(), r.choice(WERR)])
    elif k == "short+close":
        f.append(["close", r.random(), errno.EIO])
    return f


def jobs(seed, tier):
    q = tier == "quick"
    js = []
    names = list(W.algorithms())
    for rep in range(2 if q else 24):
        for ai, alg in enumerate(names):
            r = random.Random(f"{ID}/{seed}/{rep}/{alg}")
            j = C.gen_job(r, alg, "single" if (rep + ai) % 2 else "swarm", epoch=r.choice([1, 2]), pop=r.choice([8, 10, 12]), multi=0.2, mixed=0.25)
            j.update(kind="model", life=r.choice(["fresh", "solved", "solved", "aborted", "twice", "inside"]), path=r.choice(["m.pkl", "m", "sub/m.pkl", "m.x", None]),
                     existing=r.random() < .3, fault=gen_fault(r), read_fault=r.choice([None, None, ["open", 0, r.choice(OERR)], ["read", r.random(), errno.EIO]]),
                     next_mode=r.choice(["single", "swarm"]), term_obj=r.random() < .2, log_to=r.choice([None, None, "console", "file"]))
            js.append(j)
    light = [a for a in names if a not in W.HEAVY]
    for i in range(60 if q else 1500):
        r = random.Random(f"{ID}/t/{seed}/{i}")
        j = K.gen_tuner(r, r.choice(light))
        j.update(mode="single", n_jobs=None, n_trials=r.choice([1, 2]), export=["csv", "json", "dataframe"][i % 3], what=r.choice(["results", "figures"]), fault=gen_fault(r))
        js.append(j)
    for i in range(60 if q else 1500):
        r = random.Random(f"{ID}/m/{seed}/{i}")
        j = K.gen_multitask(r, light)
        j.update(n_jobs=None, modes=None, save_as=["csv", "json", "dataframe"][i % 3], n_trials=r.choice([1, 2]))
        j["mode_of"] = [[None] * len(j["probs"]) for _ in j["algs"]]
        j["fault"] = gen_fault(r) if r.random() < .85 else [["mkdir", r.random(), r.choice([errno.EACCES, errno.ENOSPC])]]
        js.append(j)
    for i in range(6 if q else 100):            # a fault at each of many byte offsets of one save
        r = random.Random(f"{ID}/e/{seed}/{i}")
        j = C.gen_job(r, r.choice(light), "single", epoch=2, pop=r.choice([8, 20]), multi=0.2, mixed=0.2)
        j.update(kind="model", life="solved", path="m.pkl", existing=False, fault="each", read_fault=None, next_mode="single", term_obj=False, log_to=None)
        j["prob"]["save_population"] = i % 2 == 0
        js.append(j)
    return js


def plan_of(fault, size, counts):
    out = []
    for op, at, err in fault:
        if op == "short":
            out.append({"op": "short", "max": at})
        elif op == "write":
            out.append({"op": "write", "at": int(at * size), "errno": err})
        elif op == "read":
            out.append({"op": "read", "at": int(at * size), "errno": err})
        else:
            out.append({"op": op, "at": 1 + int(at * 0.9999 * max(1, counts.get(op, 1))), "errno": err})
    return out


def run(ctx, job):
    {"model": run_model, "tuner": run_tuner, "multitask": run_multi}[job["kind"]](ctx, job)


# ------------------------------------------------------------------ models
def live(job, d, path, save):
    """Brings an optimizer to the wanted point of its life."""
    m = seams.mealpy
    opt = W.make_optimizer(job["alg"], job["kw"])
    life = job["life"]
    if life == "fresh":
        return opt, None
    if life == "aborted":
        sim = kernel.SIM
        sim.plan["raise_at"], sim.plan["raise_kind"] = sim.neval + 13, "InjectedError"
        r = E.run_solve(opt, d, job, "s", probe=False)
        sim.plan.pop("raise_at")
        return opt, None
    term = {"max_epoch": 5}
    if job["term_obj"]:
        term = m.Termination(log_to=None, max_epoch=5)
    r = None
    for _ in range(2 if life == "twice" else 1):
        r = E.run_solve(opt, d, job, "s", probe=False, term=term)
    return opt, r


def state(opt):
    s = {"params": {k: repr(v) for k, v in opt.get_parameters().items()}, "name": opt.get_name(), "cls": type(opt).__name__}
    if opt.g_best is not None:
        s["best"] = E.agent_key(opt.g_best).hex()[:64]
    if opt.history is not None:
        s["hist"] = E.history_digest(opt.history)
        s["times"] = [float(t) for t in opt.history.list_epoch_time]
    s["nfe"] = getattr(opt, "nfe_counter", None)
    s["pop"] = None if not opt.pop else [E.agent_key(a).hex()[:40] if a.target is not None else None for a in opt.pop if hasattr(a, "target")]
    return s


def nxt(ctx_sim, opt, job):
    d, _ = W.build_problem(job["prob"], "n")
    r = E.run_solve(opt, d, {"mode": job["next_mode"], "seed": 77}, "n", probe=False)
    return E.outcome(r)


def run_model(ctx, job):
    from mealpy.utils import io as mio
    m = seams.mealpy
    with K.Scratch() as path, ctx.env(job["env"]) as sim:
        d, obj = W.build_problem(job["prob"], "s", log_to=job["log_to"], log_file=os.path.join(path, "log.txt") if job["log_to"] == "file" else None)
        os.mkdir(os.path.join(path, "sub"))
        name = job["path"]
        full = os.path.join(path, name) if name else None
        cwd = os.getcwd()
        os.chdir(path)
        fs = fsim.FS(path)
        try:
            inner = None
            if job["life"] == "inside":         # saved by a callback while the solve runs
                res = inside(ctx, job, d, full, fs, mio)
                if res is True:
                    return
                inner = res
            opt, r = live(job, d, path, None)
            if r is not None and not r.ok():
                ctx.skip(f"solve: {r.status}")
                return
            old = None
            if job["existing"]:
                old = W.make_optimizer("OriginalPSO", {"epoch": 3, "pop_size": 11})
                with fs:
                    m_save(mio, old, full)
                old = state(old)
            want = state(opt)
            # reference: what a save without faults writes
            with fsim.FS(path) as ref:
                os.mkdir(os.path.join(path, "ref"))
                m_save(mio, opt, os.path.join(path, "ref", "m.pkl"))
            size, counts = ref.written, {"open": 1, "close": 1, "write1": max(1, ref.counts.get("write1", 1))}
            if ref.leaked():
                ctx.violate("descriptor-leak", "save_model", f"{ref.leaked()} still open after save_model returned")
            ref.cleanup()
            faults = [[["write", i / 24 + r0, random.Random(i).choice(WERR)]] for r0 in (0.0, 0.01) for i in range(24)] if job["fault"] == "each" else [job["fault"]]
            nx = None
            for f in faults:
                fs = fsim.FS(path, plan_of(f, size, counts))
                with fs:
                    err = None
                    try:
                        m_save(mio, opt, full)
                    except Exception as e:      # noqa: BLE001
                        err, held = repr(e), e      # a caller may keep the error (and, with it, the frames that failed)
                judge_save(ctx, job, fs, err, "save_model", f)
                lk = fs.leaked()
                held = None
                if lk:
                    ctx.violate("descriptor-leak", "save_model", f"{lk} still open after save_model with faults {f} ({err})")
                fs.cleanup()
                got, lerr = load(mio, full, fsim.FS(path), ctx)
                if err is None:
                    if got is None:
                        ctx.violate("acknowledged-but-lost", "save_model", f"save_model returned with disk faults {f} (size {size}), but loading fails: {lerr}")
                    elif state(got) != want:
                        ctx.violate("loaded-differs", "save_model", f"{job['alg']} {job['life']}: the loaded model differs: {diffs(want, state(got))}")
                    elif nx is None:
                        a, b = nxt(sim, got, job), nxt(sim, copy.deepcopy(opt), job)
                        nx = True
                        df = [k for k in b if a.get(k) != b.get(k)]
                        if df:
                            ctx.violate("loaded-solves-differently", job["alg"], f"{job['life']}: next solve of the loaded model differs in {df}: {a} vs {b}")
                elif got is not None and state(got) not in (want, old, inner):
                    ctx.violate("torn-model-accepted", "load_model", f"after a failed save ({err}) load_model returned a model that was never saved")
            if job["read_fault"] and job["fault"] != "each":
                m_save(mio, opt, full)
                op, at, en = job["read_fault"]
                fs = fsim.FS(path, [{"op": op, "at": 1 if op == "open" else int(at * size * 0.999), "errno": en}])
                got, lerr = load(mio, full, fs, ctx)
                if got is not None and fs.errored():
                    ctx.violate("read-error-swallowed", "load_model", f"load_model returned although {op} failed")
                elif got is None and not fs.errored():
                    ctx.violate("load-fails", "load_model", f"load_model fails without a fault: {lerr}")
        finally:
            os.chdir(cwd)
            fs.cleanup()


def inside(ctx, job, d, full, fs, mio):
    """The objective (a user callback) saves the optimizer that is solving; the saved model must load and be usable."""
    opt = W.make_optimizer(job["alg"], job["kw"])
    sim = kernel.SIM
    k = [0]
    kept = {}

    def hook(tag, ep, o, when):
        if when == "end" and not kept:
            o.__dict__.pop("evolve", None)
            try:
                with fs:
                    m_save(mio, o, full)
                kept["state"] = state(o)
            except Exception as e:      # noqa: BLE001
                kept["err"] = repr(e)
    sim.evolve_hook = hook
    r = E.run_solve(opt, d, job, "s")
    sim.evolve_hook = None
    if not r.ok() or not kept:
        ctx.skip(f"solve: {r.status}")
        return True
    if "err" in kept:
        ctx.violate("save-fails", "save_model", f"saving {job['alg']} between two epochs fails: {kept['err']}")
        return True
    got, lerr = load(mio, full, fsim.FS(fs.root), ctx)
    if got is None:
        ctx.violate("acknowledged-but-lost", "save_model", f"{job['alg']} saved while running cannot be loaded: {lerr}")
        return True
    if state(got) != kept["state"]:
        ctx.violate("loaded-differs", "save_model", f"{job['alg']} saved while running: the loaded model differs: {diffs(kept['state'], state(got))}")
        return True
    a, b = nxt(sim, got, job), nxt(sim, W.make_optimizer(job["alg"], job["kw"]), job)
    df = [x for x in b if a.get(x) != b.get(x)]
    if df:
        ctx.violate("loaded-solves-differently", job["alg"], f"saved while running: next solve of the loaded model differs from a fresh one in {df}: {a} vs {b}")
    return kept["state"]


def m_save(mio, opt, full):
    mio.save_model(opt, full)


def load(mio, full, fs, ctx):
    got, err = None, None
    with fs:
        try:
            got = mio.load_model(full)
        except Exception as e:      # noqa: BLE001
            err, held = repr(e), e
    lk = fs.leaked()
    held = None
    if lk:
        ctx.violate("descriptor-leak", "load_model", f"{lk} still open after load_model ({err})")
    fs.cleanup()
    return got, err


def judge_save(ctx, job, fs, err, what, f):
    if err is not None and not fs.errored():
        ctx.violate("fails-without-fault", what, f"{what} failed although the disk did not (plan {f}, {fs.fired}): {err}")
    if err is not None and fs.errored() and "injected" not in err:
        ctx.violate("other-error", what, f"the disk failed ({fs.errored()}), {what} reports {err}")


def diffs(a, b):
    return {k: (str(a.get(k))[:80], str(b.get(k))[:80]) for k in set(a) | set(b) if a.get(k) != b.get(k)}


# ------------------------------------------------------------------ tables
def tree(path):
    out = {}
    for dp, _, fl in os.walk(path):
        for f in fl:
            p = os.path.join(dp, f)
            try:
                out[os.path.relpath(p, path)] = K.read_table(p)
            except Exception as e:      # noqa: BLE001
                out[os.path.relpath(p, path)] = f"unreadable: {e!r}"
    return out


def same_tree(a, b):
    if set(a) != set(b):
        return f"files {sorted(a)} instead of {sorted(b)}"
    for k in b:
        if isinstance(a[k], str) or isinstance(b[k], str):
            if a[k] != b[k]:
                return f"{k}: {str(a[k])[:200]}"
            continue
        if set(a[k]) != set(b[k]):
            return f"{k}: columns {sorted(map(str, a[k]))[:10]} instead of {sorted(map(str, b[k]))[:10]}"
        for c in b[k]:
            if len(a[k][c]) != len(b[k][c]) or not all(K.same_value(x, y) or x == y for x, y in zip(a[k][c], b[k][c])):
                return f"{k}: column {c} is {a[k][c]}, expected {b[k][c]}"
    return None


def run_tuner(ctx, job):
    with K.Scratch() as path, K.Recorder(), ctx.env(job["env"]) as sim:
        tuner, d, obj = K.build_tuner(job)
        try:
            K.run_tuner(job, tuner, d)
        except Exception as e:      # noqa: BLE001
            ctx.skip(f"tuner: {e!r}"[:60])
            return

        def do(p):
            if job["what"] == "results":
                tuner.export_results(save_path=p, file_name=f"t.{job['export']}")
            else:
                with NoPlots():
                    tuner.export_figures(save_path=p, file_name=f"t.{job['export']}", exts=())
        table(ctx, job, path, do, "export_" + job["what"])


def table(ctx, job, path, do, what):
    with fsim.FS(path) as ref:
        do(os.path.join(path, "ref"))
    lk = ref.leaked()
    if lk:
        ctx.violate("descriptor-leak", what, f"{lk} still open after {what} returned")
    want = tree(os.path.join(path, "ref"))
    bad = [f"{k}: {v}" for k, v in want.items() if isinstance(v, str)]
    if bad:
        ctx.violate("unreadable", what, f"{what} without faults: {bad}")
        return
    fs = fsim.FS(path, plan_of(job["fault"], ref.written, ref.counts))
    err = None
    with fs:
        try:
            do(os.path.join(path, "out"))
        except Exception as e:      # noqa: BLE001
            err, held = repr(e), e
    judge_save(ctx, job, fs, err, what, job["fault"])
    lk = fs.leaked()
    if lk:
        ctx.violate("descriptor-leak", what, f"{lk} still open after {what} with faults {job['fault']} ({err})")
    held = None
    fs.cleanup()
    if err is None:
        d = same_tree(tree(os.path.join(path, "out")), want)
        if d:
            ctx.violate("acknowledged-but-lost", what, f"{what} returned with disk faults {job['fault']} ({fs.fired[:5]}), but {d}")


def run_multi(ctx, job):
    with K.Recorder():
        got = []
        for plan in (None, job["fault"]):
            with K.Scratch() as path, ctx.env(job["env"], seed=f"{job['env_seed']}/same") as sim:
                mt = K.build_multitask(job)
                fs = fsim.FS(path, plan_of(plan, *sizes) if plan else [])
                err = None
                os.mkdir(os.path.join(path, "o"))
                with fs:
                    try:
                        K.run_multitask(job, mt, os.path.join(path, "o"))
                    except Exception as e:      # noqa: BLE001
                        err, held = repr(e), e
                if plan is None and err is not None:
                    ctx.skip(f"campaign: {err}"[:60])
                    return
                sizes = (fs.written, dict(fs.counts))
                if plan:
                    judge_save(ctx, job, fs, err, "multitask", plan)
                lk = fs.leaked()
                if lk:
                    ctx.violate("descriptor-leak", "multitask", f"{lk} still open after execute with faults {plan} ({err})")
                held = None
                fs.cleanup()
                got.append((err, tree(os.path.join(path, "o")), fs.fired[:5]))
        if len(got) == 2 and got[1][0] is None:
            d = same_tree(got[1][1], got[0][1])
            if d:
                ctx.violate("acknowledged-but-lost", "multitask", f"execute returned with disk faults {job['fault']} ({got[1][2]}), but {d}")


def shrink(job):
    out = []
    if job["kind"] == "model":
        if job["fault"] == "each":
            out += [dict(job, fault=[["write", x, errno.ENOSPC]]) for x in (0.0, 0.3, 0.6, 0.99)]
        elif len(job["fault"]) > 1:
            out += [dict(job, fault=[f]) for f in job["fault"]]
        for k, v in (("read_fault", None), ("existing", False), ("life", "fresh"), ("life", "solved"), ("path", "m.pkl"), ("term_obj", False), ("log_to", None)):
            if job[k] != v and not (k == "life" and job["life"] == "fresh"):
                out.append(dict(job, **{k: v}))
        return out + C.shrink_job(job)
    if len(job["fault"]) > 1:
        out += [dict(job, fault=[f]) for f in job["fault"]]
    if job["kind"] == "tuner":
        from . import c12
        return out + c12.shrink(job)
    from . import c13
    return out + c13.shrink(job)


def signature(job):
    return json.dumps({k: v for k, v in job.items() if k != "env"}, sort_keys=True, default=str)
