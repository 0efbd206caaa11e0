"""Batch runner: seeded jobs -> forked workers -> violations -> minimised replay files -> evidence."""
import hashlib
import json
import os
import pickle
import random
import shutil
import signal
import socket
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get("DST_PROCS", "0")) or max(2, min(8, os.cpu_count() or 2))


class Ctx:
    """Handed to a check's run(): opens environments (seeded or replayed) and collects what happened."""

    def __init__(self, job, decisions=None, keep_labels=False):
        self.job, self.decisions, self.keep_labels = job, decisions, keep_labels
        self.k = 0
        self.traces, self.labels = [], []
        self.violations = []
        self.stats = {"envs": 0, "decisions": 0, "sim_time": 0.0, "evals": 0, "switches": 0, "threads": 0}
        self.faults, self.probes = {}, {}
        self.sigs = []
        self.skips = {}

    def env(self, env=None, seed=None):
        from . import engine
        ctx = self
        k = self.k
        self.k += 1
        dec = None
        if self.decisions is not None:
            dec = self.decisions[k] if k < len(self.decisions) else []
        es = seed if seed is not None else f"{self.job.get('env_seed', 0)}/{k}"

        class _E(engine.Env):
            def __exit__(self, et, ev, tb):
                r = super().__exit__(et, ev, tb)
                s = self.sim
                ctx.traces.append(list(s.trace))
                if ctx.keep_labels:
                    ctx.labels.append(list(s.labels))
                st = ctx.stats
                st["envs"] += 1
                st["decisions"] += len(s.trace)
                st["sim_time"] += s.now
                st["evals"] += s.neval
                st["switches"] += s.switches
                st["threads"] += len(s.threads) - 1
                for a, b in ((ctx.faults, s.faults), (ctx.probes, s.probes)):
                    for kk, v in b.items():
                        a[kk] = a.get(kk, 0) + v
                ctx.sigs.append(s.sched_sig if s.switches else 0)
                return r
        return _E(es, dec, env, self.keep_labels)

    def violate(self, kind, subject, msg):
        """kind+subject identify the violation class; msg is for the reader."""
        key = f"{kind}:{subject}"
        if not any(v["key"] == key for v in self.violations):
            self.violations.append({"key": key, "kind": kind, "subject": subject, "msg": str(msg)[:1500]})

    def skip(self, why):
        self.skips[why] = self.skips.get(why, 0) + 1

    STATE = ("k", "traces", "labels", "violations", "stats", "faults", "probes", "sigs", "skips")

    def pristine(self, fn):
        """fn() in a forked child, so that nothing it leaves behind in this process (and nothing it finds) mixes with the rest of the run."""
        def go():
            v = fn()
            return v, {k: getattr(self, k) for k in self.STATE}
        ok, val = fork_call(go, group=False).join()
        if not ok:
            raise RuntimeError(f"reference run failed: {val}")
        v, st = val
        for k, x in st.items():
            setattr(self, k, x)
        return v

    def zygote(self):
        return Zygote(self)


class Zygote:
    """A child forked before the run began; it runs reference programs later, each in its own fork, in the process state of that moment."""

    def __init__(self, ctx):
        self.ctx = ctx
        a, b = socket.socketpair()
        sys.stdout.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                a.close()
                self.serve(b)
            finally:
                os._exit(0)
        b.close()
        self.sock = a

    def serve(self, s):
        f = s.makefile("rwb")
        while True:
            try:
                fn, args, st = pickle.load(f)
            except EOFError:
                return
            for k, x in st.items():
                setattr(self.ctx, k, x)

            def go():
                v = fn(self.ctx, *args)
                return v, {k: getattr(self.ctx, k) for k in Ctx.STATE}
            pickle.dump(fork_call(go, group=False).join(), f)
            f.flush()

    def call(self, fn, *args):
        """fn(ctx, *args) in the pristine state; fn is a module-level function."""
        f = self.sock.makefile("rwb")
        pickle.dump((fn, args, {k: getattr(self.ctx, k) for k in Ctx.STATE}), f)
        f.flush()
        ok, val = pickle.load(f)
        if not ok:
            raise RuntimeError(f"reference run failed: {val}")
        v, st = val
        for k, x in st.items():
            setattr(self.ctx, k, x)
        return v

    def close(self):
        self.sock.close()
        os.waitpid(self.pid, 0)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


def run_job(check, job, decisions=None, keep_labels=False):
    import gc
    ctx = Ctx(job, decisions, keep_labels)
    check.run(ctx, job)
    gc.collect() if ctx.stats["threads"] > 400 else None
    return ctx


def summarize(ctx, idx):
    return {"idx": idx, "violations": ctx.violations, "stats": ctx.stats, "faults": ctx.faults, "probes": ctx.probes,
            "sigs": ctx.sigs, "skips": ctx.skips, "traces": ctx.traces if ctx.violations else None}


def fork_call(fn, timeout=None, group=True):
    """Run fn() in a forked child (group: of its own process group), return (ok, value)."""
    fd, path = tempfile.mkstemp(prefix="dst-")
    os.close(fd)
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            if group:
                os.setpgid(0, 0)
            v = (True, fn())
        except BaseException:       # noqa: BLE001
            v = (False, traceback.format_exc())
        try:
            with open(path, "wb") as f:
                pickle.dump(v, f)
        except BaseException:       # noqa: BLE001
            code = 3
        os._exit(code)
    return _Pending(pid, path, timeout, group)


class _Pending:
    def __init__(self, pid, path, timeout, group=True):
        self.pid, self.path, self.group = pid, path, group
        self.deadline = time.monotonic() + timeout if timeout else None
        self.value = None

    def poll(self):
        p, st = os.waitpid(self.pid, os.WNOHANG)
        if p == 0:
            if self.deadline and time.monotonic() > self.deadline:
                self.kill()
                self._cleanup()
                self.value = (False, "timeout")
                return True
            return False
        self.finish(st)
        return True

    def finish(self, st):
        try:
            with open(self.path, "rb") as f:
                self.value = pickle.load(f)
        except Exception:       # noqa: BLE001
            self.value = (False, f"worker ended with status {st} and no result")
        self._cleanup()

    def kill(self):
        for f in (lambda: os.killpg(self.pid, signal.SIGKILL), lambda: os.kill(self.pid, signal.SIGKILL)):
            try:
                f()
            except OSError:
                pass
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass

    def join(self):
        """Wait without polling."""
        _, st = os.waitpid(self.pid, 0)
        self.finish(st)
        return self.value

    def _cleanup(self):
        try:
            if self.group:
                os.killpg(self.pid, signal.SIGKILL)      # stray simulated children
        except OSError:
            pass
        try:
            os.unlink(self.path)
        except OSError:
            pass

    def wait(self):
        while not self.poll():
            time.sleep(0.002)
        return self.value


def chunked(n, size):
    return [list(range(a, min(n, a + size))) for a in range(0, n, size)]


def run_batch(check, jobs, chunk=20, cap=600.0, stop_after=60, progress=False):
    """Run all jobs. Returns (results by idx, errors, wall)."""
    t0 = time.monotonic()
    pend, results, errors = {}, {}, []
    todo = chunked(len(jobs), chunk)
    todo.reverse()
    nviol = 0
    skipped = 0

    isolate = getattr(check, "ISOLATE", False)

    def work(idxs):
        out = []
        for i in idxs:
            try:
                if isolate:         # every job starts in a process that has not run anything yet
                    ok, val = fork_call(lambda: summarize(run_job(check, jobs[i]), i), group=False).join()
                    out.append(val if ok else {"idx": i, "error": val})
                else:
                    out.append(summarize(run_job(check, jobs[i]), i))
            except BaseException:       # noqa: BLE001
                out.append({"idx": i, "error": traceback.format_exc()})
        return out
    while todo or pend:
        while todo and len(pend) < NPROC:
            if time.monotonic() - t0 > cap or nviol >= stop_after:
                skipped += sum(len(c) for c in todo)
                todo = []
                break
            idxs = todo.pop()
            p = fork_call(lambda idxs=idxs: work(idxs), timeout=400)
            pend[p.pid] = (p, idxs)
        done = [k for k, (p, _) in pend.items() if p.poll()]
        for k in done:
            p, idxs = pend.pop(k)
            ok, val = p.value
            if not ok:
                errors.append({"jobs": idxs, "error": val})
                continue
            for r in val:
                if "error" in r:
                    errors.append({"jobs": [r["idx"]], "error": r["error"]})
                else:
                    results[r["idx"]] = r
                    if r["violations"]:
                        nviol += len(r["violations"])
        if not done:
            time.sleep(0.003)
    return results, errors, skipped, time.monotonic() - t0


# --------------------------------------------------------------------------- minimisation
def reproduces(check, job, decisions, key, prelude=(), timeout=120):
    """Does this job (with these decisions) show the violation class `key` in a fresh process?"""
    def fn():
        for pj in prelude:
            try:
                run_job(check, pj)
            except BaseException:       # noqa: BLE001
                pass
        ctx = run_job(check, job, decisions)
        return [v for v in ctx.violations if v["key"] == key], ctx.traces
    ok, val = fork_call(fn, timeout=timeout).wait()
    if not ok:
        return None
    vs, tr = val
    return (vs[0], tr) if vs else None


def candidates(check, job):
    try:
        return list(check.shrink(job)) if hasattr(check, "shrink") else []
    except Exception as e:      # noqa: BLE001  a violation is reported with a bigger program rather than not at all
        print(f"note: cannot shrink: {e!r}")
        return []


def minimise(check, job, traces, key, budget_s=40.0, prelude=()):
    """Shrink the program first, then the decision sequences, while the same violation class persists."""
    t0 = time.monotonic()
    steps = 0

    def left():
        return budget_s - (time.monotonic() - t0)
    best_job, best_tr = job, traces
    # is it independent of the environment?  (all-zero decisions)
    r = reproduces(check, job, [[] for _ in traces], key, prelude)
    steps += 1
    zero = r is not None
    if zero:
        best_tr = [[] for _ in traces]
    changed = True
    while changed and left() > 0:
        changed = False
        for cand in candidates(check, best_job):
            if left() <= 0:
                break
            steps += 1
            r = reproduces(check, cand, best_tr if zero else None, key, prelude)
            if r is not None:
                best_job = cand
                best_tr = [[] for _ in r[1]] if zero else r[1]
                changed = True
                break
    if not zero:
        # drop to default decisions, chunk by chunk
        for k in range(len(best_tr)):
            tr = list(best_tr[k])
            size = max(1, len(tr) // 2)
            while size >= 1 and left() > 0:
                i, any_ = 0, False
                while i < len(tr) and left() > 0:
                    if any(tr[i:i + size]):
                        cand = tr[:i] + [0] * min(size, len(tr) - i) + tr[i + size:]
                        trs = list(best_tr)
                        trs[k] = cand
                        steps += 1
                        r = reproduces(check, best_job, trs, key, prelude)
                        if r is not None:
                            tr = cand
                            best_tr = trs
                            any_ = True
                    i += size
                if size == 1:
                    break
                size = max(1, size // 4) if not any_ else max(1, size // 2)
            while tr and tr[-1] == 0:
                tr.pop()
            best_tr = list(best_tr)
            best_tr[k] = tr
    fin = reproduces(check, best_job, best_tr, key, prelude)
    if fin is None:
        best_job, best_tr = job, traces
        fin = reproduces(check, best_job, best_tr, key, prelude)
    return best_job, best_tr, fin, steps


def replay_dir():
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    return d


def write_replay(pid, check, job, traces, viol, prelude, verified, steps, seed):
    nz = [sum(1 for v in t if v) for t in traces]
    body = {"property": pid, "violation": viol, "job": job, "decisions": traces, "prelude": list(prelude),
            "verif_seed": seed, "minimise_steps": steps, "nonzero_decisions": nz, "reproduced_in_fresh_process": verified}
    h = hashlib.sha256(json.dumps([viol["key"], job, traces], sort_keys=True, default=str).encode()).hexdigest()[:10]
    path = os.path.join(replay_dir(), f"{pid}-{h}.json")
    with open(path, "w") as f:
        json.dump(body, f, indent=1, default=str)
    return path


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = {}
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#"):
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "known":
                    out[d["key"]] = d
    return out


# --------------------------------------------------------------------------- main entry of a check
def main(check, argv):
    pid = check.ID
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--digest" in argv:
        check.digest_main(json.loads(sys.stdin.read()))
        return 0
    if "--replay" in argv:
        return do_replay(check, argv[argv.index("--replay") + 1])
    t0 = time.monotonic()
    print(f"{pid} {check.TITLE}  tier={tier} VERIF_SEED={seed} workers={NPROC}", flush=True)
    from . import focus
    jobs = check.jobs(seed, tier)
    n_base = len(jobs)
    jobs, focused = focus.extend(check, jobs, seed, tier)
    if focused:
        print(f"{pid}: the tree differs from the calibrated one in {focused['changed_algorithms'] + focused['changed_shared_modules']}: "
              f"{focused['additional_runs']} runs added to {n_base}", flush=True)
    only = os.environ.get("DST_ONLY")
    if only:
        jobs = [j for j in jobs if only in json.dumps(j)]
    budget = {"quick": 560.0, "thorough": 3300.0}[tier]
    results, errors, skipped, wall = run_batch(check, jobs, chunk=getattr(check, "CHUNK", 16), cap=budget,
                                               stop_after=10 ** 9 if os.environ.get("DST_ALL") else (40 if tier == "quick" else 200))
    extra = check.extra(seed, tier) if hasattr(check, "extra") and not os.environ.get("DST_ONLY") else {}
    errors += [{"jobs": [], "error": e} for e in extra.get("errors", [])]
    known = load_known(pid)
    groups, known_hit = {}, {}
    for i in sorted(results):
        for v in results[i]["violations"]:
            if v["key"] in known:
                known_hit.setdefault(v["key"], []).append((i, v))
            else:
                groups.setdefault(v["key"], []).append((i, v))
    for v in extra.get("violations", []):
        if v["key"] in known:
            known_hit.setdefault(v["key"], []).append((None, v))
            continue
        groups.setdefault(v["key"], []).append((None, v))
    nviol = 0
    lines = []
    mt0 = time.monotonic()
    for n, (key, occ) in enumerate(sorted(groups.items())):
        i, v = occ[0]
        if os.environ.get("DST_ALL"):
            print(f"  CLASS {key} x{len(occ)}: {v['msg'][:260]}")
            nviol += 1
            continue
        if n >= 25 and tier == "quick":
            print(f"  ... {len(groups) - n} further violation classes not written out")
            break
        if i is None:
            path = write_replay(pid, check, v.get("job", {}), v.get("traces", []), v, [], True, 0, seed)
        else:
            job, traces, prelude = jobs[i], results[i]["traces"], []
            r = reproduces(check, job, traces, key)
            if r is None:       # depends on what ran before in the same process: keep that history in the replay
                ck = getattr(check, "CHUNK", 16)
                prelude = [jobs[j] for j in range(i - i % ck, i)]
                r = reproduces(check, job, traces, key, prelude)
                if r is not None:
                    for j in range(len(prelude) - 1, -1, -1):
                        if time.monotonic() - mt0 > 150:
                            break
                        cand = prelude[:j] + prelude[j + 1:]
                        if reproduces(check, job, traces, key, cand) is not None:
                            prelude = cand
            if r is None:
                errors.append({"jobs": [i], "error": f"violation {key} did not reproduce in a fresh process: {v['msg'][:300]}"})
                continue
            steps, fin = 0, r
            left = 150 - (time.monotonic() - mt0)
            if left > 5 and n < 8:
                job, traces, fin, steps = minimise(check, job, traces, key, min(30.0, left), prelude)
                fin = fin or r
            path = write_replay(pid, check, job, traces, fin[0], prelude, fin is not None, steps, seed)
            v = fin[0]
        nviol += 1
        print(f"VIOLATION property={pid} replay={path}")
        print(f"   class {key}  ({len(occ)} of {len(results)} runs)\n   {v['msg'][:600]}")
        lines.append(key)
    for key, occ in sorted(known_hit.items()):
        print(f"KNOWN-FINDING: property={pid} {key} {known[key].get('what', '')}")
    wall = time.monotonic() - t0
    if focused:
        extra.setdefault("coverage", {})["change_directed"] = focused
    write_evidence(check, pid, tier, seed, jobs, results, errors, skipped, wall, nviol, known_hit, extra)
    agg = {}
    for r in results.values():
        for k, c in r["skips"].items():
            agg[k] = agg.get(k, 0) + c
    print(f"{pid}: {len(results)} runs, {sum(r['stats']['envs'] for r in results.values())} simulated environments, "
          f"{sum(r['stats']['evals'] for r in results.values())} evaluations, wall {wall:.1f}s, skipped {skipped}, skips {dict(sorted(agg.items(), key=lambda x: -x[1])[:6])}")
    if nviol:
        return 1
    if errors:
        for e in errors[:5]:
            print("HARNESS-ERROR", e["jobs"][:3], str(e["error"])[-1500:], file=sys.stderr)
        return 2
    print(f"{pid}: held on everything explored")
    return 0


def do_replay(check, path):
    d = json.load(open(path))
    if hasattr(check, "replay_special") and d["job"].get("special"):
        return check.replay_special(d)

    def fn():
        for pj in d.get("prelude", []):
            try:
                run_job(check, pj)
            except BaseException:       # noqa: BLE001
                pass
        ctx = run_job(check, d["job"], d["decisions"], keep_labels=True)
        return ctx.violations, ctx.labels
    ok, val = fork_call(fn, timeout=300).wait()
    if not ok:
        print(val)
        return 2
    vs, labels = val
    hit = [v for v in vs if v["key"] == d["violation"]["key"]]
    print(json.dumps(d["job"], default=str)[:3000])
    for k, ls in enumerate(labels):
        nz = [x for x in ls if not x.split(":")[1].startswith("0/")]
        print(f"environment {k}: {len(ls)} decisions, unusual ones: {nz[:60]}")
    for v in vs:
        print("  ", v["key"], v["msg"][:1200])
    if hit:
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    print("not reproduced")
    return 0


def write_evidence(check, pid, tier, seed, jobs, results, errors, skipped, wall, nviol, known_hit, extra):
    st = {}
    faults, probes = {}, {}
    sigs, sched = set(), set()
    for i, r in results.items():
        for k, v in r["stats"].items():
            st[k] = st.get(k, 0) + v
        for a, b in ((faults, r["faults"]), (probes, r["probes"])):
            for k, v in b.items():
                a[k] = a.get(k, 0) + v
        for s in r["sigs"]:
            if s:
                sched.add(s)
        sigs.add(check.signature(jobs[i]) if hasattr(check, "signature") else json.dumps(jobs[i], sort_keys=True, default=str))
    nontriv = sum(1 for i, r in results.items() if r["stats"]["evals"] > 0 or r["stats"]["decisions"] > 0)
    idx = sorted(results)
    samples = [jobs[i] for i in (idx[:1] + idx[len(idx) // 2:len(idx) // 2 + 1] + idx[-1:])]
    algs = set()
    for i in idx:
        algs.add(jobs[i].get("alg"))
        algs.update(jobs[i].get("algs", []))
    algs.discard(None)
    cov = {"evaluations": len(results), "distinct_nontrivial": min(len(sigs), nontriv),
           "rule": check.RULE, "samples": samples,
           "simulated_environments": st.get("envs", 0),
           "runs_per_hour": int(3600 * len(results) / max(wall, 1e-9)),
           "environment_seeds_per_hour": int(3600 * st.get("envs", 0) / max(wall, 1e-9)),
           "simulated_seconds_covered": round(st.get("sim_time", 0.0), 3),
           "objective_evaluations": st.get("evals", 0), "scheduling_and_fault_decisions": st.get("decisions", 0),
           "context_switches": st.get("switches", 0), "simulated_threads": st.get("threads", 0),
           "distinct_interleavings": len(sched),
           "interleaving_measure": "64-bit hash over the sequence of (thread switched to, events so far) of a run",
           "faults_injected": dict(sorted(faults.items())), "probes": dict(sorted(probes.items())),
           "algorithms_exercised": len(algs),
           "jobs_not_run_wall_cap": skipped, "harness_errors": len(errors),
           "known_findings_seen": {k: len(v) for k, v in known_hit.items()},
           "real_components": check.REAL, "stub_components": check.STUB}
    cov.update(extra.get("coverage", {}))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": getattr(check, "LEVEL", "exploration"), "coverage": cov,
          "assumptions": check.ASSUME, "wall_s": round(wall, 3), "violations": nviol}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
