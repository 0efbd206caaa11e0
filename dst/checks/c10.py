"""C10: the history is complete, consistent and immutable."""
import json
import random

import numpy as np

from .. import engine as E, common as C, workload as W, seams
from ..common import REAL, STUB, ASSUME

ID, TITLE = "C10", "The run history is complete, consistent and immutable"
RULE = ("a job = algorithm x parameters x problem x mode x latencies x optional early stop, followed by a second solve of the same optimizer; every history entry is "
        "fingerprinted when recorded and re-examined at every later epoch boundary and after the second solve; non-trivial = at least one epoch")
CHUNK = 14
LISTS = ("list_global_best", "list_current_best", "list_global_worst", "list_current_worst")


def jobs(seed, tier):
    n = {"quick": 11, "thorough": 80}[tier]
    js = C.sweep(seed, tier, ID, n, modes=("single", "swarm", "single", "swarm", "thread"), mixed=0.15)
    for j in js:
        r = random.Random(json.dumps(j, sort_keys=True, default=str))
        j["prob"]["save_population"] = r.random() < .7
        j["env"]["lat"] = r.choice([C.LAT_SMALL, C.LAT_HEAVY])
        pl = {}
        if r.random() < .5:
            pl["clock_jumps"] = True
        if r.random() < .3:
            pl["evolve_stall"] = r.choice([0.25, 8.0])
        if pl:
            j["env"]["plan"] = pl
        if r.random() < .3:
            j["term"] = r.choice([{"max_epoch": r.choice([1, 2])}, {"max_fe": r.choice([30, 60])}, {"max_time": r.choice([1.0, 8.0])}])
        j["second"] = r.random() < .6
        # collapsed populations: nothing moves
        if r.random() < .1:
            j["prob"]["obj"]["kind"] = "const"
    return js


class Watch:
    """Fingerprints of every entry seen so far."""

    def __init__(self, ctx, alg):
        self.ctx, self.alg = ctx, alg
        self.seen = {}

    def scan(self, h, when, skip_last_of=(), shift=0):
        for name in LISTS:
            L = getattr(h, name)
            for i, a in enumerate(L):
                self.one((name, i + shift), E.agent_key(a), when)
        for i, pop in enumerate(h.list_population):
            self.one(("list_population", i), b"".join(E.agent_key(a) for a in pop), when)
        for name in ("list_epoch_time", "list_global_best_fit", "list_current_best_fit", "list_diversity"):
            for i, v in enumerate(getattr(h, name)):
                self.one((name, i), E.fbits(v), when)

    def one(self, k, fp, when):
        old = self.seen.setdefault(k, fp)
        if old != fp:
            self.ctx.violate("entry-changed", f"{self.alg}", f"history.{k[0]}[{k[1]}] changed after it was recorded (noticed {when})")
            self.seen[k] = fp


def run(ctx, job):
    alg = job["alg"]
    mm = job["prob"]["minmax"]
    w = Watch(ctx, alg)
    live = []       # population at the end of each epoch

    def hook(tag, ep, o, when):
        if tag != "s0":
            return
        h = o.history
        if when == "start":
            w.scan(h, f"at the start of epoch {ep}")
        else:
            w.scan(h, f"at the end of epoch {ep}")
            live.append([(E.agent_key(a), np.array(a.solution, dtype=float), float(a.target.fitness)) for a in o.pop])
    with ctx.env(job["env"]) as sim:
        d, obj = W.build_problem(job["prob"], "s0")
        opt = W.make_optimizer(alg, job["kw"])
        sim.evolve_hook = hook
        res = E.run_solve(opt, d, job, "s0", term=dict(job["term"]) if job.get("term") else None)
        if not res.ok():
            ctx.skip(f"{res.status} {res.exc_type}")
            return
        h = opt.history
        bestkey = E.agent_key(res.best)
        w.scan_final = True
        # the initial entry has been dropped from the agent lists
        for name in LISTS:
            for i, a in enumerate(getattr(h, name)):
                w.one((name, i + 1), E.agent_key(a), "when the solve returned")
        for i, pop in enumerate(h.list_population):
            w.one(("list_population", i), b"".join(E.agent_key(a) for a in pop), "when the solve returned")
        for name in ("list_epoch_time", "list_global_best_fit", "list_current_best_fit", "list_diversity"):
            for i, v in enumerate(getattr(h, name)):
                w.one((name, i), E.fbits(v), "when the solve returned")
        check_final(ctx, job, alg, mm, h, res, live)
        if job.get("second"):
            job2 = dict(job, seed=(job["seed"] or 0) + 1)
            d2, _ = W.build_problem(job["prob"], "s1")
            E.run_solve(opt, d2, job2, "s1", probe=False)
            for name in LISTS:
                for i, a in enumerate(getattr(h, name)):
                    w.one((name, i + 1), E.agent_key(a), "after a second solve")
            for i, pop in enumerate(h.list_population):
                w.one(("list_population", i), b"".join(E.agent_key(a) for a in pop), "after a second solve")
            for name in ("list_epoch_time", "list_global_best_fit", "list_current_best_fit", "list_diversity"):
                for i, v in enumerate(getattr(h, name)):
                    w.one((name, i), E.fbits(v), "after a second solve")
            if E.agent_key(res.best) != bestkey:
                ctx.violate("returned-agent-changed", alg, "the returned best agent was changed by a later solve of the same optimizer")
            if opt.history is h:
                ctx.violate("history-reused", alg, "the second solve wrote into the first solve's history object")
        sim.drain()


def check_final(ctx, job, alg, mm, h, res, live):
    ends = [e for e in res.log if e[0] == "epoch_end"]
    starts = [e for e in res.log if e[0] == "epoch_start"]
    n = len(ends)
    if n == 0:
        return
    for name in LISTS + ("list_epoch_time", "list_global_best_fit", "list_current_best_fit", "list_diversity", "list_exploration", "list_exploitation"):
        if len(getattr(h, name)) != n:
            ctx.violate("incomplete", alg, f"history.{name} has {len(getattr(h, name))} entries for {n} epochs")
            return
    want = n if job["prob"]["save_population"] else 0
    if len(h.list_population) != want:
        ctx.violate("snapshots", alg, f"{len(h.list_population)} population snapshots for {n} epochs, save_population={job['prob']['save_population']}")
        return
    for fits, agents in (("list_global_best_fit", "list_global_best"), ("list_current_best_fit", "list_current_best")):
        for i, (f, a) in enumerate(zip(getattr(h, fits), getattr(h, agents))):
            if E.fbits(f) != E.fbits(a.target.fitness):
                ctx.violate("fit-list", alg, f"history.{fits}[{i}] = {f} but the agent recorded for that epoch has {a.target.fitness}")
                return
    for i in range(n):
        dur = ends[i][3] - starts[i][3]
        if float(h.list_epoch_time[i]) != dur:
            ctx.violate("epoch-time", alg, f"epoch {i + 1} took {dur} (virtual) seconds, recorded {h.list_epoch_time[i]}")
            break
    for i in range(n):
        keys = {k for k, _, _ in live[i]}
        for name in ("list_current_best", "list_current_worst"):
            if E.agent_key(getattr(h, name)[i]) not in keys:
                ctx.violate("not-in-population", alg, f"history.{name}[{i}] is not an agent of epoch {i + 1}'s population")
                return
        if want:
            snap = sorted(E.agent_key(a) for a in h.list_population[i])
            if snap != sorted(k for k, _, _ in live[i]):
                ctx.violate("snapshot-differs", alg, f"history.list_population[{i}] is not the population at the end of epoch {i + 1}")
                return
        pos = np.array([p for _, p, _ in live[i]])
        div = float(np.mean(np.mean(np.abs(np.median(pos, axis=0) - pos), axis=0)))
        if not np.isclose(div, h.list_diversity[i], rtol=1e-9, atol=1e-12, equal_nan=True):
            ctx.violate("diversity", alg, f"epoch {i + 1}: recorded diversity {h.list_diversity[i]}, the population's is {div}")
            return
    xe = np.array(h.list_exploration, dtype=float) + np.array(h.list_exploitation, dtype=float)
    if not np.allclose(xe, 100.0):
        ctx.violate("exploration", alg, f"exploration + exploitation = {xe.tolist()[:5]}, diversity {list(map(float, h.list_diversity))[:5]}")
    else:
        div = np.array(h.list_diversity, dtype=float)
        if np.all(np.isfinite(div)) and np.max(div) > 1e-300:
            want = 100.0 * div / np.max(div)
            if not np.allclose(np.array(h.list_exploration, dtype=float), want, rtol=1e-7, atol=1e-7):
                ctx.violate("exploration", alg, f"exploration {list(map(float, h.list_exploration))[:5]} does not describe the diversities {div.tolist()[:5]} (largest: {np.max(div)})")
    if h.epoch != n:
        ctx.violate("epoch-count", alg, f"history.epoch = {h.epoch} after {n} epochs")


def shrink(job):
    out = []
    if job.get("second"):
        out.append(dict(job, second=False))
    if job.get("term"):
        out.append({k: v for k, v in job.items() if k != "term"})
    if job["env"].get("plan"):
        out.append(dict(job, env={k: v for k, v in job["env"].items() if k != "plan"}))
    return out + [j for j in C.shrink_job(job) if tuple(j["env"].get("lat", ())) != C.LAT_ZERO or True]


signature = C.alg_signature
