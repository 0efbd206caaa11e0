"""C15: log records go to their own solve's destination and never affect the result."""
import copy
import errno
import json
import logging
import os
import random
import re

from .. import campaign as K, common as C, engine as E, fsim, kernel, seams, workload as W
from ..common import REAL, STUB, ASSUME

ID, TITLE = "C15", "Log records go to their own solve's destination and never affect the result"
RULE = ("a job = a sequence of 1-5 solves (same or different classes, reused optimizers and problems, aborts in between) with log destinations drawn from several files, console and none, "
        "with or without a broken disk under one of the files; the files are compared with the histories of the solves and with the log of the same solve run alone; "
        "non-trivial = two destinations or a disk fault")
CHUNK = 8
STUB = STUB + ["the disk below the scratch directory: real files behind a raw device that fails on command; the logging package and the text/buffer layers are real"]

WERR = [errno.ENOSPC, errno.EIO, errno.EDQUOT]
FILES = ["a.log", "b.log", "c.log"]


def gen_step(r, alg, i, kw):
    modes = ["single", "swarm"] + (["thread"] if C.parallelizable(alg) else ["thread"])
    j = C.gen_job(r, alg, r.choice(modes), multi=0.2, mixed=0.15, **kw)
    s = {k: j[k] for k in ("alg", "kw", "prob", "mode", "seed", "n_workers") if k in j}
    if r.random() < .12 and alg not in W.HEAVY and "epoch" not in W.SPECIAL.get(alg, {}):
        s["kw"]["epoch"] = r.choice([11, 20, 40])
    s["prob"]["name"] = f"P{i}x"
    s["dest"] = r.choice(FILES + FILES + [None, "console"])
    if r.random() < .3:
        s["term"] = r.choice([{"max_epoch": 1}, {"max_epoch": 2}, {"max_fe": r.choice([10, 30])}, {"max_early_stop": 1}])
        s["term_obj"] = r.random() < .4
    if r.random() < .15:
        s["abort"] = r.randint(2, 40)
        s["abort_kind"] = r.choice(["InjectedError", "KeyboardInterrupt"])
    s["instance"] = r.random() < .4         # a Problem instance created before the first solve
    return s


def jobs(seed, tier):
    per = {"quick": 4, "thorough": 40}[tier]
    names = list(W.algorithms())
    js = []
    for rep in range(per):
        for alg in names:
            r = random.Random(f"{ID}/{seed}/{rep}/{alg}")
            kw = {"epoch": r.choice([2, 3]), "pop": r.choice([8, 10, 12])}
            steps = []
            for i in range(r.choice([1, 2, 2, 3, 3, 4, 5])):
                q = r.random()
                if steps and q < .25:           # the same optimizer and/or the same problem again
                    s = copy.deepcopy(steps[-1])
                    s.pop("abort", None)
                    s["reuse"] = {"opt": r.random() < .8, "prob": r.random() < .6}
                    if not s["reuse"]["prob"]:
                        s["prob"]["name"] = f"P{i}x"
                        s["dest"] = r.choice(FILES + [None, "console"])
                    s["seed"] = r.randint(0, 10 ** 6)
                else:
                    s = gen_step(r, alg if q < .75 else r.choice(names), i, kw)
                steps.append(s)
            j = {"algs": [s["alg"] for s in steps], "steps": steps, "env": C.gen_env(r, any(s["mode"] in C.PAR_MODES for s in steps)), "env_seed": r.getrandbits(40)}
            j["env"]["lines"] = False
            q = r.random()
            j["fault"] = []
            if q < .35:
                f = r.choice(FILES)
                k = r.choice(["write", "write1", "close", "short", "write+close", "forever"])
                if k in ("write", "write+close"):
                    j["fault"].append({"op": "write", "at": r.choice([0, 1, 60, 150, 300, 500, 900]), "errno": r.choice(WERR), "path": f})
                if k in ("close", "write+close"):
                    j["fault"].append({"op": "close", "at": r.choice([1, 2, 3]), "errno": errno.EIO, "path": f})
                if k == "forever":
                    j["fault"].append({"op": "close", "at": 1, "forever": True, "errno": errno.EIO, "path": f})
                if k == "write1":
                    j["fault"] += [{"op": "write1", "at": r.choice([1, 2, 3, 5, 8]), "errno": r.choice(WERR), "path": f} for _ in range(r.choice([1, 2]))]
                if k == "short":
                    j["fault"].append({"op": "short", "max": r.choice([1, 5, 17]), "path": f})
            j["again"] = not j["fault"] and r.random() < .5         # the whole sequence again with other files
            js.append(j)
    return js


def reset_loggers():
    for name, lg in list(logging.Logger.manager.loggerDict.items()):
        if isinstance(lg, logging.Logger) and (name == "mealpy" or name.startswith("mealpy.")):
            for h in list(lg.handlers):
                lg.removeHandler(h)
                try:
                    h.close()
                except OSError:
                    pass


def play(job, sim, path, dest=True, prefix="", only=None):
    """Runs the sequence; returns one record per step."""
    m = seams.mealpy
    steps = job["steps"]
    kept = {}
    out = []

    def target(s):
        if not dest or s["dest"] is None:
            return None, None
        if s["dest"] == "console":
            return "console", None
        return "file", os.path.join(path, prefix + s["dest"])

    def build(i, s):
        lt, lf = target(s)
        d, obj = W.build_problem(s["prob"], f"s{i}", log_to=lt, log_file=lf)
        if s["instance"] and isinstance(d, dict):
            d = m.Problem(**d)
        return d
    probs = {}
    for i, s in enumerate(steps):
        if s["instance"] and only is None and not s.get("reuse", {}).get("prob"):
            probs[i] = build(i, s)
    for i, s in enumerate(steps):
        if only is not None and i != only:
            continue
        ru = s.get("reuse", {}) if only is None else {}
        opt = kept["opt"] if ru.get("opt") else W.make_optimizer(s["alg"], s["kw"])
        if ru.get("prob"):
            d, tag = kept["prob"]
        else:
            d, tag = (probs.get(i) or build(i, s)), f"s{i}"
        term = None
        if s.get("term"):
            term = m.Termination(**s["term"]) if s.get("term_obj") else dict(s["term"])
        ab = s.get("abort")
        if ab:
            sim.plan["raise_at"], sim.plan["raise_kind"] = sim.neval + ab, s["abort_kind"]
        first = len(sim.log)
        r = E.run_solve(opt, d, s, tag, term=term)
        sim.plan.pop("raise_at", None)
        h = opt.history
        rec = {"outcome": E.outcome(r, ordered(s)), "res": r, "label": str(opt), "text": f"{r.exc_type} {r.exc_msg} {r.tb}"}
        if h is not None:
            rec["epochs"] = [[float(a), float(b)] for a, b in zip(h.list_current_best_fit, h.list_global_best_fit)]
        rec["stopped"] = bool(s.get("term") and r.ok() and opt.termination is not None and opt.termination.message)
        kept = {"opt": opt, "prob": (d, tag)}
        out.append(rec)
        rec["res"] = None
    return out


def ordered(s):
    return s["mode"] in C.SEQ_MODES or not C.parallelizable(s["alg"])


LINE = re.compile(r"^\d{4}/\d\d/\d\d \d\d:\d\d:\d\d [AP]M, ([A-Z]+), (\S+?):? (.*)$")
EPOCH = re.compile(r"Problem: (\S+), Epoch: (\d+), Current best: (\S+), Global best: (\S+), Runtime: (\S+) seconds")


def read_log(p):
    """[(level, logger, message)]; continuation lines belong to their record."""
    if not os.path.exists(p):
        return []
    out = []
    with open(p) as f:
        for line in f.read().split("\n"):
            g = LINE.match(line)
            if g:
                out.append([g.group(1), g.group(2).split(" ")[0], g.group(3)])
            elif line and out:
                out[-1][2] += "\n" + line
            elif line:
                out.append(["?", "?", line])
    return [tuple(x) for x in out]


def plain(recs):
    """Without clock readings."""
    return [(lv, re.sub(r"Runtime: \S+", "Runtime: *", msg)) for lv, _, msg in recs if "Multi-objective" not in msg]


def run(ctx, job):
    steps = job["steps"]
    keep = logging.raiseExceptions
    logging.raiseExceptions = True
    reset_loggers()
    try:
        with K.Scratch() as path:
            body(ctx, job, steps, path)
    finally:
        reset_loggers()
        logging.raiseExceptions = keep


def body(ctx, job, steps, path):
    if len({s["dest"] for s in steps}) < 2 and not job["fault"]:
        ctx.skip("one destination")
    # the same solves without any logging
    with ctx.env(job["env"]) as sim:
        quiet = play(job, sim, path, dest=False)
        sim.drain()
    reset_loggers()
    fs = fsim.FS(path, job["fault"])
    second = None
    with ctx.env(job["env"]) as sim, fs:
        got = play(job, sim, path)
        sim.drain()
        open1 = fs.leaked()
        files1 = dict((f, read_log(os.path.join(path, f))) for f in FILES)
        if job["again"]:
            second = play(job, sim, path, prefix="2")
            sim.drain()
            open2 = fs.leaked()
    reset_loggers()
    fs.cleanup()
    broken = {f["path"] for f in job["fault"] if f["op"] != "short" and f["op"] in fs.fired} if job["fault"] else set()
    for i, (a, b) in enumerate(zip(got, quiet)):
        x, y = a["outcome"], b["outcome"]
        df = [k for k in y if x.get(k) != y.get(k) and not (k == "n" and y["status"] != "ok" and not ordered(steps[i]))]
        if df:
            ctx.violate("outcome-changed", steps[i]["alg"] if not fs.errored() else "disk-fault",
                        f"step {i} of {desc(steps)}: logging to {steps[i]['dest']} (disk faults {job['fault']}, {fs.fired[:4]}) changes {df}: {x} vs {y}; {a['text']}")
            return
    for f in FILES:
        if f in broken:
            continue
        judge(ctx, job, steps, got, f, files1[f])
    for f in os.listdir(path):
        if f not in FILES and not (job["again"] and f[0] == "2" and f[1:] in FILES):
            ctx.violate("stray-file", f, f"{desc(steps)} created {f}")
    if job["again"] and second:
        for f in FILES:
            judge(ctx, job, steps, second, f, read_log(os.path.join(path, "2" + f)))
            now = read_log(os.path.join(path, f))
            if now != files1[f]:
                ctx.violate("late-record", f, f"{desc(steps)}: {f} received {now[len(files1[f]):][:3]} from solves with other destinations")
        if len(open2) > len(open1):
            ctx.violate("files-accumulate", "open", f"{desc(steps)}: {len(open1)} log files open after the sequence, {len(open2)} after running it again with other files: {open2}")


def judge(ctx, job, steps, got, f, recs):
    """The file holds the records of the solves that chose it, in order, each once."""
    mine = [i for i, s in enumerate(steps) if s["dest"] == f]
    exp = []
    for i in mine:
        s = steps[i]
        for e, (cur, glob) in enumerate(got[i].get("epochs", [])):
            exp.append((s["prob"]["name"], e + 1, cur, glob))
    have = []
    for lv, lg, msg in recs:
        g = EPOCH.search(msg)
        if g:
            have.append((g.group(1), int(g.group(2)), float(g.group(3)), float(g.group(4))))
    if repr(have) != repr(exp):
        missing = [e for e in exp if repr(e) not in [repr(h) for h in have]]
        extra = [h for h in have if repr(h) not in [repr(e) for e in exp]]
        kind = "records-missing" if missing else "foreign-records" if extra else "duplicated-or-reordered"
        ctx.violate(kind, "epochs", f"{desc(steps)}: {f} should hold {len(exp)} epoch records of solves {mine}, missing {missing[:3]}, foreign {extra[:3]}, has {len(have)}: {[h[:2] for h in have][:12]}")
        return
    n = sum(1 for _, _, msg in recs if any(msg == got[i]["label"] for i in mine))
    if n != len(mine):
        ctx.violate("records-missing" if n < len(mine) else "duplicated-or-reordered", "start", f"{desc(steps)}: {f} holds {n} solve headers for solves {mine}")
    # the same solves alone, each in a fresh world with its own file
    if not mine:
        if recs:
            ctx.violate("foreign-records", "other", f"{desc(steps)}: {f} holds {recs[:3]}")
        return
    alone = []
    for i in mine:
        reset_loggers()
        with K.Scratch() as p2, ctx.env(dict(job["env"], plan={})) as sim:
            play(job, sim, p2, only=i)
            sim.drain()
            reset_loggers()
            alone += plain(read_log(os.path.join(p2, f)))
    if plain(recs) != alone:
        a, b = plain(recs), alone
        k = next((k for k in range(max(len(a), len(b))) if k >= len(a) or k >= len(b) or a[k] != b[k]), 0)
        ctx.violate("differs-from-alone", "records", f"{desc(steps)}: record {k} of {f} is {a[k] if k < len(a) else None}, alone {b[k] if k < len(b) else None}")


def desc(steps):
    return [(s["alg"], s["dest"], s["mode"]) + (("abort",) if s.get("abort") else ()) + ((str(s["reuse"]),) if s.get("reuse") else ()) for s in steps]


def shrink(job):
    out = []
    st = job["steps"]
    for i in range(len(st)):
        b = st[:i] + st[i + 1:]
        if b and not (i + 1 < len(st) and st[i + 1].get("reuse")):
            out.append(dict(job, steps=b, algs=[s["alg"] for s in b]))
    if job["again"]:
        out.append(dict(job, again=False))
    for k in range(len(job["fault"])):
        out.append(dict(job, fault=job["fault"][:k] + job["fault"][k + 1:]))
    for i, s in enumerate(st):
        cands = [{x: v for x, v in s.items() if x not in (k, k + "_obj", k + "_kind")} for k in ("term", "abort") if s.get(k)]
        if s.get("instance") and not s.get("reuse"):
            cands.append(dict(s, instance=False))
        if not s.get("reuse") and not (i + 1 < len(st) and st[i + 1].get("reuse")):
            cands += [{k: v for k, v in j.items() if k not in ("env", "env_seed")} for j in C.shrink_job(dict(s, env={}, env_seed=0))]
            cands = [dict(c, prob=dict(c["prob"], name=s["prob"]["name"])) for c in cands]
        for c in cands:
            out.append(dict(job, steps=st[:i] + [c] + st[i + 1:]))
    return out


def signature(job):
    return json.dumps({k: v for k, v in job.items() if k != "env"}, sort_keys=True, default=str)
