"""C01: two environments, one program, one outcome."""
import hashlib
import json
import os
import random
import subprocess
import sys

import numpy as np

from .. import engine as E, common as C, workload as W, seams, runner
from ..common import REAL, STUB, ASSUME

ID, TITLE = "C01", "A seeded solve is a pure function of its inputs"
RULE = ("a job = algorithm x parameters x problem x mode x seed, run in two environments with different worker schedules, latencies, clocks, OS entropy, "
        "global-generator states and process history (plus fresh interpreters with different string-hash salts); non-trivial = the objective was evaluated")
CHUNK = 12
ISOLATE = True


def jobs(seed, tier):
    n = {"quick": 6, "thorough": 60}[tier]
    js = C.sweep(seed, tier, ID, n, modes=("single", "swarm", "thread"), epoch=3)
    k = {"quick": 1, "thorough": 6}[tier]
    js += [j for j in C.sweep(seed + 7919, tier, ID, k, modes=("process",), epoch=2, pop=12) if C.parallelizable(j["alg"])]
    names = list(W.algorithms())
    for j in js:
        r = random.Random(json.dumps(j, sort_keys=True, default=str))
        j["noise"] = {"alg": j["alg"] if r.random() < .6 else r.choice(names), "prob": W.gen_problem(r) if r.random() < .7 else W.sibling(r, j["prob"]), "draws": r.randint(0, 50)}
        if r.random() < .3:
            j["term"] = {"max_epoch": r.choice([1, 2, 3])} if r.random() < .5 else {"max_fe": r.choice([15, 40, 70])}
    return js


def do(ctx, job, noise):
    env = dict(job["env"])
    if noise:
        env["plan"] = {"clock_jumps": True}
        env["lat"] = C.LAT_HEAVY
    with ctx.env(env) as sim:
        if noise:
            np.random.random(noise["draws"])
            seams.SIMMODS["random"].random()
            d, o = W.build_problem(noise["prob"], "noise")
            kw = W.base_kwargs(noise["alg"])
            if "epoch" not in W.SPECIAL.get(noise["alg"], {}):
                kw["epoch"] = 1
            E.run_solve(W.make_optimizer(noise["alg"], kw), d, {"mode": "single", "seed": None}, "noise", probe=False)
        d, obj = W.build_problem(job["prob"], "s0")
        opt = W.make_optimizer(job["alg"], job["kw"])
        res = E.run_solve(opt, d, job, "s0", term=dict(job["term"]) if job.get("term") else None)
        sim.drain()
        out = E.outcome(res, ordered=job["mode"] in C.SEQ_MODES or not C.parallelizable(job["alg"]))
        out["_best"] = [float(v) for v in np.asarray(res.best.solution, dtype=float)[:6]] if res.ok() else res.exc_msg
    return out


def run(ctx, job):
    a = do(ctx, job, None)
    b = do(ctx, job, job["noise"])
    if a["status"] not in ("ok", "exc") and a["status"] == b["status"]:
        ctx.skip(a["status"])
        return
    for o in (a, b):
        if o["status"] == "exc":
            o.pop("_best", None)
    diff = [k for k in a if a.get(k) != b.get(k)]
    if a["status"] == "exc" and b["status"] == "exc":
        ctx.skip("exception in both")
    if diff:
        ctx.violate("not-reproducible", job["alg"], f"mode {job['mode']} seed {job['seed']}: two environments disagree in {diff}: {a} vs {b}")


def shrink(job):
    out = C.shrink_job(job)
    if job.get("term"):
        j = json.loads(json.dumps(job))
        del j["term"]
        out.append(j)
    return out


signature = C.alg_signature


# ---------------------------------------------------------------- string hashing: fresh interpreters with different salts
def digest_main(jobs_):
    """Prints one digest per job (run in an interpreter started with its own PYTHONHASHSEED)."""
    res = []
    for j in jobs_:
        ctx = runner.Ctx(j)
        try:
            o = do(ctx, j, None)
        except BaseException as e:      # noqa: BLE001
            o = {"harness": repr(e)}
        o.pop("_best", None)
        res.append(o)
    print(json.dumps(res))


def hash_compare(js):
    procs = []
    for hs in ("1", "2"):
        env = dict(os.environ, PYTHONHASHSEED=hs)
        procs.append([subprocess.Popen([sys.executable, "-B", os.path.join(runner.VERIF, "check.py"), ID, "--digest"], stdin=subprocess.PIPE,
                                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env), hs])
    outs = []
    import threading
    def pump(p):
        out, err = p.communicate(json.dumps(js))
        lines = [l for l in out.splitlines() if l.startswith("[")]
        outs.append((p, json.loads(lines[-1]) if lines else None, err))
    ths = [threading.Thread(target=pump, args=(p,)) for p, _ in procs]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    m = {id(p): (o, e) for p, o, e in outs}
    return [m[id(p)] for p, _ in procs]


def extra(seed, tier):
    n = {"quick": 1, "thorough": 6}[tier]
    js = [j for j in C.sweep(seed + 31, tier, ID + "h", n, modes=("single", "swarm"), epoch=3)]
    for j in js:
        j["env"].pop("lines", None)
    parts = [js[i::4] for i in range(4)]
    import threading
    got = [None] * 4

    def go(i):
        got[i] = hash_compare(parts[i])
    ths = [threading.Thread(target=go, args=(i,)) for i in range(4)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    vs, pairs = [], 0
    for part, g in zip(parts, got):
        (a, ea), (b, eb) = g
        if a is None or b is None:
            return {"violations": [], "errors": [f"digest interpreter failed: {(ea or eb)[-500:]}"], "coverage": {}}
        for j, x, y in zip(part, a, b):
            pairs += 1
            if x != y:
                j = dict(j, special="hash")
                vs.append({"key": f"hash-salt-dependent:{j['alg']}", "kind": "hash-salt-dependent", "subject": j["alg"],
                           "msg": f"two interpreters that differ only in PYTHONHASHSEED disagree: {x} vs {y}", "job": j, "traces": []})
    return {"violations": vs, "coverage": {"hash_salt_pairs_compared": pairs}}


def replay_special(d):
    (a, ea), (b, eb) = hash_compare([d["job"]])
    print(a, b)
    if a != b:
        print(f"VIOLATION property={ID} replay=(hash salt)")
        return 1
    return 0
