"""Change-directed effort: which parts of the library differ from the tree the machinery was last calibrated on.

It never decides anything.  It only adds simulated runs (further seeds of the same generators) for the algorithms whose source,
or whose base class' source, changed, or for everything when a shared module changed."""
import hashlib
import json
import os

from . import seams, workload as W

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.path.join(HERE, "tools", "baseline.json")


def digest():
    root = os.path.join(seams.REPO, "mealpy")
    out = {}
    for dp, dn, fl in os.walk(root):
        dn[:] = [d for d in dn if d != "__pycache__"]
        for f in fl:
            if f.endswith(".py"):
                p = os.path.join(dp, f)
                with open(p, "rb") as h:
                    out[os.path.relpath(p, root)] = hashlib.sha256(h.read()).hexdigest()[:16]
    return out


def changed():
    try:
        with open(BASE) as f:
            base = json.load(f)
    except OSError:
        return []
    now = digest()
    return sorted(k for k in set(base) | set(now) if base.get(k) != now.get(k))


def plan():
    """(algorithms to concentrate on, shared modules that changed)"""
    ch = changed()
    if not ch:
        return [], []
    mods = {"mealpy." + c[:-3].replace(os.sep, ".") for c in ch}
    algs, owned = [], set()
    for name, cls in W.algorithms().items():
        chain = {k.__module__ for k in cls.__mro__ if k.__module__.startswith("mealpy.") and k.__module__ != "mealpy.optimizer"}
        owned |= chain
        if chain & mods:
            algs.append(name)
    return algs, sorted(m for m in mods if m not in owned)


def extend(check, jobs, seed, tier):
    """Further jobs of the same kind; a pure function of the tree, the seed and the tier."""
    algs, core = plan()
    if not algs and not core:
        return jobs, {}
    jobs = list(jobs)
    n0 = len(jobs)
    limit = getattr(check, "FOCUS_LIMIT", 2200) if tier == "quick" else 20000
    if core:
        for k in range(1, 3):
            jobs += check.jobs(seed + 100003 * k, tier)
    if algs and len(algs) <= 60:
        sel = set(algs)
        for k in range(3, 23):
            more = [j for j in check.jobs(seed + 100003 * k, tier) if j.get("alg") in sel or sel & set(j.get("algs", []))]
            if len(jobs) - n0 + len(more) > limit and (not core or k > 6):
                break
            jobs += more
    return jobs, {"changed_algorithms": algs[:40], "changed_shared_modules": core, "additional_runs": len(jobs) - n0}


if __name__ == "__main__":
    seams.install()
    with open(BASE, "w") as f:
        json.dump(digest(), f, indent=0, sort_keys=True)
    print(len(digest()), "files")
