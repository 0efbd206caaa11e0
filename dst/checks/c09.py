"""C09: faults in the objective or in workers surface as errors, promptly."""
import copy
import json
import random

from .. import campaign as K, common as C, engine as E, kernel, seams, workload as W
from ..common import REAL, STUB, ASSUME

ID, TITLE = "C09", "Faults in the objective or in workers surface as errors, promptly"
LEVEL = "fault_enumeration"
RULE = ("a job = program (algorithm x mode x problem, tuner or multi-task campaign) x fault kind (exception of 33 types, interrupt in the objective, interrupt while waiting for workers, "
        "interrupt at a source line, worker death, thread start failure) x fault point, chosen along a fault-free reference run or enumerated one by one; "
        "non-trivial = the fault struck")
CHUNK = 4
ASSUME = ASSUME + ["exceptions raised by the objective can be pickled (Python's own requirement for process pools)"]

KINDS = ["ValueError", "ZeroDivisionError", "KeyError", "OSError", "RuntimeError", "MemoryError", "TimeoutError", "StopIteration", "InjectedError", "KeyboardInterrupt",
         "TypeError", "IndexError", "AttributeError", "FloatingPointError", "SystemExit", "AssertionError", "OverflowError", "LinAlgError", "UnicodeError",
         "RecursionError", "EOFError", "BrokenPipeError", "ConnectionResetError", "InterruptedError", "NotImplementedError", "ArithmeticError", "LookupError", "NameError",
         "Exception", "BaseException", "InjectedBase", "UserWarning", "BlockingIOError"]
NO_GEN = [k for k in KINDS if k != "StopIteration"]     # Python turns StopIteration into RuntimeError inside executor.map's generator


def jobs(seed, tier):
    q = tier == "quick"
    js = []
    names = list(W.algorithms())
    par = [a for a in names if C.parallelizable(a)]
    light = [a for a in par if a not in W.HEAVY]
    modes = ("single", "swarm", "thread")
    for rep in range(4 if q else 40):           # every algorithm, a fault somewhere along its run
        for ai, alg in enumerate(names):
            r = random.Random(f"{ID}/{seed}/{rep}/{alg}")
            j = C.gen_job(r, alg, modes[(rep + ai) % 3], epoch=r.choice([1, 2, 3]), pop=r.choice([8, 10, 12, 15]), multi=0.15, mixed=0.15)
            mode = j["mode"] if C.parallelizable(alg) else "single"
            kinds = KINDS if mode in C.SEQ_MODES else NO_GEN
            j.update(kind="solve", fault="raise", raise_kind=r.choice(kinds), at=r.random())
            js.append(j)
    for i in range(120 if q else 2500):          # process mode: exceptions and dead workers
        r = random.Random(f"{ID}/p/{seed}/{i}")
        j = C.gen_job(r, r.choice(light), "process", epoch=r.choice([1, 2]), pop=r.choice([8, 10, 12]), multi=0.15, mixed=0.1)
        j.update(kind="solve", fault=r.choice(["raise", "die", "die"]), raise_kind=r.choice(NO_GEN), at=r.random())
        js.append(j)
    for i in range(200 if q else 4000):         # interrupts outside the objective
        r = random.Random(f"{ID}/i/{seed}/{i}")
        what = r.choice(["wait", "wait", "line", "line", "spawn"])
        mode = r.choice(["thread", "thread", "thread", "process"]) if what != "line" else r.choice(["single", "swarm", "thread"])
        if what == "spawn":
            mode = "thread"
        j = C.gen_job(r, r.choice(light if what != "line" else names), mode, epoch=r.choice([1, 2]), pop=r.choice([8, 10, 12]), multi=0.15, mixed=0.1)
        j.update(kind="solve", fault=what, at=r.random())
        js.append(j)
    for i in range(150 if q else 2500):          # campaigns
        r = random.Random(f"{ID}/c/{seed}/{i}")
        if i % 2:
            j = K.gen_tuner(r, r.choice([a for a in names if a not in W.HEAVY]))
        else:
            j = K.gen_multitask(r, [a for a in names if a not in W.HEAVY])
        pool = (j["n_jobs"] or 1) > 1
        j.update(fault=r.choice(["raise", "raise", "die", "wait"]) if pool else r.choice(["raise", "raise", "line"]), raise_kind=r.choice(NO_GEN), at=r.random())
        js.append(j)
    for i in range(10 if q else 150):            # every evaluation of one small program, one at a time
        r = random.Random(f"{ID}/e/{seed}/{i}")
        mode = ["single", "swarm", "thread", "process"][i % 4]
        j = C.gen_job(r, r.choice(light), mode, epoch=1, pop=8, multi=0.1, mixed=0.1)
        j.update(kind="solve", fault="die" if mode == "process" and r.random() < .5 else "raise", raise_kind=r.choice(["ValueError", "InjectedError", "KeyboardInterrupt"]), at="each")
        js.append(j)
    for i in range(2 if q else 40):             # every wait / every line of one small program
        r = random.Random(f"{ID}/w/{seed}/{i}")
        j = C.gen_job(r, r.choice(light), "thread", epoch=1, pop=8, multi=0.1, mixed=0.1)
        j.update(kind="solve", fault="wait", at="each")
        js.append(j)
    js.reverse()        # the long enumerations first
    return js


# ------------------------------------------------------------------ one program, with or without a fault
class Out:
    status, exc = "ok", None


def program(ctx, job, plan, count_lines=False):
    """Runs the whole program in one environment. Returns (Out, sim)."""
    with K.Scratch() as path:
        with ctx.env(dict(job["env"], plan=plan), seed=f"{job['env_seed']}/x") as sim:
            o = Out()
            sim.mutable["t_start"] = sim.now
            try:
                if job["kind"] == "solve":
                    d, obj = W.build_problem(job["prob"], "s0")
                    call = build_solve(job, d)
                elif job["kind"] == "tuner":
                    tuner, d, obj = K.build_tuner(job)
                    call = lambda: K.run_tuner(job, tuner, d)       # noqa: E731
                else:
                    mt = K.build_multitask(job)
                    call = lambda: K.run_multitask(job, mt, path)   # noqa: E731
                if count_lines:
                    with kernel.interruptible(sim):
                        call()
                else:
                    call()
            except (kernel.SimDeadlock, kernel.SimStuck, E.HardHang) as e:
                o.status, o.exc = "hang", e
            except kernel.SimAbort:
                raise
            except BaseException as e:      # noqa: BLE001
                o.status, o.exc = "exc", e
            if sim.stuck:
                o.status = "hang"
            o.workers = [t.name for t in sim.threads[1:] if not t.done] if o.status != "hang" else []
            o.pools = len(sim.pools)
            o.raised = [e for e in sim.log if e[0] == "raise"]
            o.neval, o.blocks, o.lines = sim.neval, sim.main_blocks, sim.main_lines
            o.faults = dict(sim.faults)
            o.log = list(sim.log)
            o.where = sim.mutable.get("interrupted_in")
            left = sim.drain()
            o.blocked = [t.name for t in left]
            o.child_leak = sim.mutable.get("child_leak")
    return o


def build_solve(job, d):
    opt = W.make_optimizer(job["alg"], job["kw"])
    opt.evolve = E.EvolveProbe(opt, "s0")
    return lambda: opt.solve(d, mode=job["mode"], n_workers=job.get("n_workers"), seed=job["seed"])


def run(ctx, job):
    base_plan = {k: v for k, v in job["env"].get("plan", {}).items()}
    fault = job["fault"]
    ref = program(ctx, job, base_plan, count_lines=fault == "line")
    if ref.status != "ok":
        ctx.skip(f"fault-free run: {ref.status} {ref.exc!r}"[:80])
        return
    total = {"wait": ref.blocks, "line": ref.lines}.get(fault, ref.neval)
    if fault == "spawn":
        judge(ctx, job, program(ctx, job, dict(base_plan, spawn_fail=True)), 0)
        return
    if not total:
        ctx.skip("no such fault point")
        return
    points = range(1, total + 1) if job["at"] == "each" else [1 + int(job["at"] * total * 0.9999)]
    for k in points:
        plan = dict(base_plan)
        if fault == "raise":
            plan.update(raise_at=k, raise_kind=job["raise_kind"])
        elif fault == "die":
            plan.update(raise_at=k, raise_kind="die")
        elif fault == "wait":
            plan.update(interrupt_block=k)
        elif fault == "line":
            plan.update(interrupt_line=k)
        judge(ctx, job, program(ctx, job, plan, count_lines=fault == "line"), k)
        if ctx.violations:
            return


def judge(ctx, job, o, k):
    fault = job["fault"]
    who = f"{job['kind']}-{job.get('mode') if job['kind'] == 'solve' else ('jobs' if (job['n_jobs'] or 1) > 1 else 'sequential')}"
    what = {"raise": f"{job.get('raise_kind')} raised by evaluation {k}", "die": f"worker killed at evaluation {k}", "wait": f"interrupt at wait {k}",
            "line": f"interrupt at line {k} {o.where}", "spawn": "a worker thread cannot be started"}[fault]
    desc = f"{job.get('alg') or job.get('algs')} {who}: {what}"
    if o.status == "hang":
        ctx.violate("hang", who, f"{desc}: never ends ({o.exc!r})")
        return
    died = o.faults.get("worker_process_death_seen", 0)
    refused = o.faults.get("thread_spawn_failure", 0)
    if not o.raised and not died and not refused:
        ctx.skip("fault point not reached")
        if o.status == "exc":
            ctx.skip(f"fault-free failure {o.exc!r}"[:60])
        return
    allowed = [(r[4], f"injected at evaluation {r[3]}") for r in o.raised if r[1] != "main"]
    if any(r[1] == "main" for r in o.raised):
        allowed.append(("KeyboardInterrupt", None))
    if died:
        allowed.append(("BrokenProcessPool", None))
    if refused:
        allowed.append(("RuntimeError", "can't start new thread"))
    if o.status == "ok":
        ctx.violate("swallowed", who, f"{desc}: the call returned normally")
        return
    name, msg = type(o.exc).__name__, str(o.exc)
    if not any(name == a and (m is None or msg == (repr(m) if a == "KeyError" else m)) for a, m in allowed):
        ctx.violate("changed-error", who, f"{desc}: the call ended with {o.exc!r}, expected one of {allowed}")
    line_in_parallel = fault == "line"
    if (o.workers or o.pools) and not line_in_parallel:
        ctx.violate("workers-left-running", who, f"{desc}: workers {o.workers} still running when the call ended ({o.pools} pools open)")
    if o.blocked and not line_in_parallel:
        ctx.violate("workers-blocked", who, f"{desc}: workers {o.blocked} blocked for ever")
    if o.raised and job["kind"] == "solve":
        i = next(n for n, e in enumerate(o.log) if e[0] == "raise")
        later = [e for e in o.log[i + 1:] if e[0] in ("epoch_start", "epoch_end")]
        if later and fault != "line":
            ctx.violate("not-prompt", who, f"{desc}: the solve went on to {later[0][:3]} after the error")
        if job["mode"] in C.SEQ_MODES or not C.parallelizable(job["alg"]):
            n = sum(1 for e in o.log[i + 1:] if e[0] == "eval")
            if n:
                ctx.violate("not-prompt", who, f"{desc}: {n} more evaluations after the error")


def shrink(job):
    out = []
    if job["at"] == "each":
        for f in (0.0, 0.25, 0.5, 0.75, 0.99):
            out.append(dict(job, at=f))
    else:
        for f in (0.0, 0.5):
            if job["at"] > f + 0.01:
                out.append(dict(job, at=f))
    if job.get("raise_kind") not in (None, "ValueError") and job["fault"] == "raise":
        out.append(dict(job, raise_kind="ValueError"))
    if job["kind"] == "solve":
        return out + [j for j in C.shrink_job(job) if job["fault"] not in ("die", "wait", "spawn") or j["mode"] in C.PAR_MODES and not (job["fault"] == "die" and j["mode"] == "thread")]
    if job["kind"] == "tuner":
        from . import c12
        return out + [j for j in c12.shrink(job) if (j["n_jobs"] or 1) > 1 or job["fault"] not in ("die", "wait")]
    from . import c13
    return out + [j for j in c13.shrink(job) if (j["n_jobs"] or 1) > 1 or job["fault"] not in ("die", "wait")]


def signature(job):
    return json.dumps({k: v for k, v in job.items() if k != "env"}, sort_keys=True, default=str)
