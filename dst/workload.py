"""Workloads: algorithm configurations, problems, and the recording objective function."""
import copy
import inspect
import json
import random
import zlib

import numpy as np

from . import kernel, seams

# constructor arguments for algorithms whose defaults need larger epoch/pop_size than the simulated ones
SPECIAL = {
    "DevCHIO": {"max_age": 1}, "OriginalCHIO": {"max_age": 1}, "DevSARO": {"mu": 4}, "OriginalSARO": {"mu": 4},
    "HI_WOA": {"feedback_max": 2}, "ImprovedBSO": {"m_clusters": 2}, "OriginalBSO": {"m_clusters": 2},
    "ImprovedTLO": {"n_teachers": 2}, "OCRO": {"epoch": 6, "restart_count": 2}, "OriginalBCO": {"n_chemotaxis": 2},
    "OriginalCEM": {"n_best": 4}, "OriginalEHO": {"n_clans": 2}, "OriginalGSKA": {"kg": 1},
}


class InjectedError(Exception):
    """The objective's own failure (fault injection)."""


class InjectedBase(BaseException):
    """An interrupt-like failure that is not an Exception."""


FAULT_TYPES = {"ValueError": ValueError, "ZeroDivisionError": ZeroDivisionError, "KeyError": KeyError, "OSError": OSError,
               "RuntimeError": RuntimeError, "MemoryError": MemoryError, "TimeoutError": TimeoutError,
               "StopIteration": StopIteration, "InjectedError": InjectedError, "KeyboardInterrupt": KeyboardInterrupt,
               "TypeError": TypeError, "IndexError": IndexError, "AttributeError": AttributeError,
               "FloatingPointError": FloatingPointError, "SystemExit": SystemExit, "AssertionError": AssertionError,
               "OverflowError": OverflowError, "LinAlgError": np.linalg.LinAlgError, "UnicodeError": UnicodeError, "RecursionError": RecursionError,
               "EOFError": EOFError, "BrokenPipeError": BrokenPipeError, "ConnectionResetError": ConnectionResetError, "InterruptedError": InterruptedError,
               "NotImplementedError": NotImplementedError, "ArithmeticError": ArithmeticError, "LookupError": LookupError, "NameError": NameError,
               "Exception": Exception, "BaseException": BaseException, "InjectedBase": InjectedBase, "UserWarning": UserWarning, "BlockingIOError": BlockingIOError}


class Objective:
    """A deterministic function of the solution; every call is an event of the simulation.

    `tag` names the solve on whose behalf calls are made (several may run at once)."""

    def __init__(self, spec, tag="s0"):
        self.spec, self.tag = spec, tag
        rs = np.random.Generator(np.random.PCG64(spec.get("fseed", 1)))
        self.shift = rs.uniform(-2, 2, 64)
        self.w = rs.uniform(0.3, 3, 64)
        self.on_eval = None         # the objective itself uses the library

    # ---- the pure part
    def value(self, x):
        s = self.spec
        x = np.asarray(x, dtype=float).ravel()
        n = len(x)
        z = (x - self.shift[:n]) * self.w[:n]
        k = s.get("kind", "sphere")
        if k == "sphere":
            v = float(np.sum(z * z)) + 0.01
        elif k == "neg":
            v = float(np.sum(z * z)) - 1e3
        elif k == "ras":
            v = float(np.sum(z * z - 5 * np.cos(3 * z) + 5)) + 0.1
        elif k == "plateau":
            v = float(np.floor(np.sum(np.abs(z)) / 4.0))
        elif k == "abs":
            v = float(np.sum(np.abs(z)) + 0.3 * np.max(np.abs(z)))
        elif k == "lin":
            v = float(np.sum(z))
        elif k == "const":
            v = 3.5
        else:
            raise RuntimeError(k)
        scale = s.get("scale")
        if scale:
            v = v * scale
        bad = s.get("bad")          # region of failed evaluations: function of x only
        if bad:
            kind, thr = bad
            h = float(np.sum(np.sin(37.0 * z + 11.0)))
            if h > thr:
                if kind == "nan":
                    v = float("nan")
                else:
                    worst = float("inf") if s.get("minmax", "min") == "min" else float("-inf")
                    v = worst
        nobj = s.get("nobj", 1)
        if nobj > 1:
            return [v] + [float(np.sum(np.abs(z - j)) * 0.5 + j) for j in range(1, nobj)]
        return v

    def __call__(self, x, dec=None):
        sim = kernel.SIM
        if sim is None:
            return self.value(x if dec is None else flatten(dec))
        if sim.aborting and sim.cur.tid != 0:
            raise kernel.SimAbort()
        sim.neval += 1
        k = sim.neval
        xa = np.array(x, dtype=float, copy=True).ravel() if not isinstance(x, np.ndarray) else np.array(x, copy=True)
        if k > sim.plan.get("max_evals", 80000):
            sim.stuck = True
            raise kernel.SimStuck("too many evaluations")
        t0 = sim.now
        plan = sim.plan
        who = sim.cur.name
        sim.yield_("obj")
        d = sim.lat_table[sim.choose("lat", len(sim.lat_table), p0=sim.lat_p0)]
        if plan.get("stall_at") == k:
            d += plan.get("stall", 1e4)
            sim.fault("stalled_evaluation")
        if d:
            sim.sleep(d)
        f = plan.get("raise_at")
        if f is not None and k == f and plan.get("raise_tag", self.tag) == self.tag:
            kind = plan.get("raise_kind", "ValueError")
            if kind == "die":
                if sim.child:
                    sim.fault("worker_killed")
                    import os
                    os._exit(9)
                kind = "InjectedError"
            sim.fault("objective_raises_" + kind)
            sim.log.append(("raise", self.tag, who, k, kind))
            raise FAULT_TYPES[kind](f"injected at evaluation {k}")
        v = self.value(xa if dec is None else flatten(dec))
        span = plan.get("nan_span")
        if (plan.get("nan_at") and k in plan["nan_at"]) or (span and span[0] <= k < span[1]):
            sim.fault("evaluation_corrupted_to_" + plan["nan_kind"])
            bad = {"nan": float("nan"), "inf": float("inf"), "-inf": float("-inf"), "huge": 1e300, "-huge": -1e300}[plan["nan_kind"]]
            v = [bad] + v[1:] if isinstance(v, list) else bad
        if self.spec.get("bad") and not np.isfinite(np.sum(v)):
            sim.fault("evaluation_region_" + self.spec["bad"][0])
        sim.log.append(("eval", self.tag, who, k, xa, v, t0, sim.now))
        if self.on_eval is not None:
            self.on_eval()
        rt = self.spec.get("ret", "list")
        if isinstance(v, list):
            return {"list": v, "tuple": tuple(v), "array": np.array(v)}[rt]
        return {"list": v, "tuple": np.float64(v), "array": np.array([v])}[rt] if self.spec.get("ret1") else v


def flatten(dec):
    """The numbers in a decoded solution (strings and sequences included), in a fixed order."""
    out = []

    def add(v):
        if isinstance(v, str):
            out.append(float(sum((i + 1) * ord(c) for i, c in enumerate(v)) % 17))
        elif isinstance(v, dict):
            for k in v:
                add(v[k])
        elif isinstance(v, (list, tuple, np.ndarray)):
            for e in v:
                add(e)
        else:
            out.append(-1.0 if v is None else float(v))
    add(dec)
    return np.array(out)


_class_problem = None


def class_problem():
    """A user's Problem subclass whose objective decodes the solution first (as the documentation recommends)."""
    global _class_problem, ClassProblem
    if _class_problem is None:
        class ClassProblem(seams.mealpy.Problem):
            def __init__(self, rec=None, **kw):
                self.rec = rec
                super().__init__(**kw)

            def obj_func(self, x):
                return self.rec(x, self.decode_solution(x))
        ClassProblem.__qualname__ = "ClassProblem"
        ClassProblem.__module__ = __name__
        globals()["ClassProblem"] = _class_problem = ClassProblem
    return _class_problem


# ----------------------------------------------------------------------------- problems
def alt(v, n):
    """A choice between n equivalent forms of a description, fixed by its content."""
    return zlib.crc32(json.dumps(v, default=str).encode()) // 16 % n


def sets(v):
    f = alt(v, 4)
    if len(v[1]) == 1 and f < 2:
        return list(v[1][0]) if f else tuple(v[1][0])
    return [list(c) for c in v[1]] if f == 2 else tuple(tuple(c) for c in v[1]) if f == 3 else [tuple(c) for c in v[1]]


def make_vars(spec):
    m = seams.mealpy
    out = []
    for v in spec:
        k = v[0]
        if out:
            out[-1].name += str(len(out))       # decoding is by name
        if k in ("float", "int"):
            f = alt(v, 5)               # the same box in the forms the documentation allows
            lb, ub = v[1], v[2]
            if isinstance(lb, list):
                if f == 1:
                    lb, ub = tuple(lb), tuple(ub)
                elif f == 2:
                    lb, ub = np.array(lb), np.array(ub)
                    if alt([v, "dtype"], 2):
                        lb, ub = lb.astype(float), ub.astype(float)
                elif f >= 3 and len(lb) == 1:
                    lb, ub = lb[0], ub[0]
            out.append(m.FloatVar(lb=lb, ub=ub, name="f") if k == "float" else m.IntegerVar(lb=lb, ub=ub, name="i"))
        elif k == "perm":
            out.append(m.PermutationVar(valid_set=tuple(v[2] if len(v) > 2 else range(v[1])), name="p"))
        elif k == "bin":
            out.append(m.BinaryVar(n_vars=v[1], name="b"))
        elif k == "bool":
            out.append(m.BoolVar(n_vars=v[1], name="o"))
        elif k == "cat":
            out.append(m.CategoricalVar(valid_sets=sets(v), name="c"))
        elif k == "str":
            out.append(m.StringVar(valid_sets=sets(v), name="s"))
        elif k == "seq":
            out.append(m.SequenceVar(valid_sets=[tuple(c) for c in v[1]], name="q", **({"return_type": list} if alt(v, 3) == 0 else {})))
        elif k == "tbin":
            out.append(m.TransferBinaryVar(n_vars=v[1], name="tb", tf_func=v[2], all_zeros=v[3]))
        elif k == "tbool":
            out.append(m.TransferBoolVar(n_vars=v[1], name="to", tf_func=v[2]))
        else:
            raise RuntimeError(k)
    return out


def flat_dims(spec):
    n = 0
    for v in spec:
        n += {"float": lambda: len(v[1]), "int": lambda: len(v[1]), "perm": lambda: v[1], "bin": lambda: v[1],
              "bool": lambda: v[1], "cat": lambda: len(v[1]), "str": lambda: len(v[1]), "seq": lambda: 1, "tbin": lambda: v[1],
              "tbool": lambda: v[1]}[v[0]]()
    return n


def gen_float_vars(r, lo=2, hi=5):
    n = r.randint(lo, hi) if r.random() < .93 else 1
    k = r.randrange(5)
    if k == 0:
        return [["float", [-10.0] * n, [10.0] * n]]
    if k == 1:
        lb = [round(r.uniform(-20, 5), 2) for _ in range(n)]
        return [["float", lb, [round(b + r.uniform(0.5, 30), 2) for b in lb]]]
    if k == 2:
        return [["float", [2.0] * n, [9.0] * n]]                 # zero outside the box
    if k == 3:
        return [["float", [-9.0] * n, [-1.0] * n]]
    lb = [round(r.uniform(-5, 5), 2) for _ in range(n)]
    return [["float", lb, [round(b + (0.0 if r.random() < .06 else 0.01 if r.random() < .3 else r.uniform(1, 100)), 2) for b in lb]]]


def gen_mixed_vars(r):
    out = []
    for _ in range(r.randint(1, 3) + (2 if r.random() < .1 else 0)):
        k = r.choice(["float", "int", "perm", "bin", "bool", "cat", "seq", "str", "tbin", "tbool"])
        if k == "float":
            out += gen_float_vars(r, 1, 3)
        elif k == "int":
            n = r.randint(1, 3)
            lb = [r.randint(-10, 5) for _ in range(n)]
            out.append(["int", lb, [b + r.randint(1, 20) for b in lb]])
        elif k == "perm":
            n = r.randint(3, 5)
            out.append(["perm", n] if r.random() < .6 else ["perm", n, r.sample([[7, 2, 30, -4, 11], ["a", "bb", "c", "d", "e"], [0.5, 1.5, 4.25, -2.5, 3.0]][r.randrange(3)], n)])
        elif k in ("bin", "bool"):
            out.append([k, r.randint(1, 3)])
        elif k == "str":
            out.append([k, [["a", "b", "c"][:r.randint(2, 3)] for _ in range(r.randint(1, 2))]])
        elif k == "cat":
            out.append([k, [r.choice([["a", "b", "c"], ["c", "a", "b"], [1, 5, 20], [0.5, 0.1, 0.25], ["x", 7, 1.5, True, None]])[:r.randint(2, 5)]
                            for _ in range(r.randint(1, 2))]])
        elif k == "seq":
            out.append(["seq", r.choice([[[1, 2], [3, 4], [5, 6, 7]], [[], [1], [1, 2]], [["a", 1], ["b", 2.5], [3]]])[:r.randint(2, 3)]])
        elif k == "tbin":
            out.append(["tbin", r.randint(2, 4), r.choice(TF), r.random() < .5])
        else:
            out.append(["tbool", r.randint(2, 4), r.choice(TF)])
    if flat_dims(out) < 2:
        out += gen_float_vars(r, 2, 3)
    return out


TF = ["vstf_01", "vstf_02", "vstf_03", "vstf_04", "sstf_01", "sstf_02", "sstf_03", "sstf_04"]


def gen_problem(r, mixed=0.25, multi=0.3, bad=0.0):
    mm = "min" if r.random() < .5 else "max"
    nobj = 1 if r.random() > multi else r.randint(2, 3)
    p = {"vars": gen_mixed_vars(r) if r.random() < mixed else gen_float_vars(r), "minmax": mm,
         "obj": {"kind": r.choice(["sphere", "sphere", "ras", "abs", "neg", "plateau", "lin"]), "fseed": r.randint(1, 10 ** 6),
                 "nobj": nobj, "minmax": mm, "ret": r.choice(["list", "tuple", "array"]), "ret1": r.random() < .2},
         "save_population": r.random() < .5, "name": "P%d" % r.randint(0, 99)}
    if nobj > 1:
        p["weights"] = [round(r.uniform(0.1, 2), 2) for _ in range(nobj)] if r.random() < .8 else None
        if p["weights"] and r.random() < .3:
            p["weights"][r.randrange(nobj)] = r.choice([0.0, 0, -0.5, 3])
        if p["weights"] and r.random() < .3:
            p["weights_as"] = r.choice(["tuple", "array"])
    if r.random() < .15:
        p["obj"]["scale"] = r.choice([1e-6, 1e6, -1.0, 1e17, 1e120, 1e-200])
    if r.random() < .3:
        p["form"] = "class"
    if len(p["vars"]) == 1 and r.random() < .5:
        p["single_bound"] = True
    if bad and r.random() < bad:
        p["obj"]["bad"] = [r.choice(["nan", "inf"]), r.choice([0.2, 0.8, 1.5])]
    return p


def sibling(r, p):
    """Another problem that looks like p from afar: the same name and dimensions, but other bounds, objective, sense or weights."""
    import copy
    q = copy.deepcopy(p)
    k = r.choice(["bounds", "bounds", "obj", "sense", "values", "all"])
    if k in ("bounds", "all"):
        for v in q["vars"]:
            if v[0] in ("float", "int"):
                d = r.choice([1, 3, 20])
                v[1], v[2] = [b - d for b in v[1]], [b - d if r.random() < .5 else b + d for b in v[2]]
                v[2] = [max(u, b + 1) for b, u in zip(v[1], v[2])]
    if k in ("obj", "all"):
        q["obj"].update(kind=r.choice(["sphere", "ras", "abs", "lin"]), fseed=r.randint(1, 10 ** 6))
    if k in ("sense", "all"):
        q["minmax"] = q["obj"]["minmax"] = "max" if p["minmax"] == "min" else "min"
    if k in ("values", "all"):
        for v in q["vars"]:
            if v[0] in ("cat", "str", "seq"):
                v[1] = [list(reversed(c)) for c in v[1]]
            elif v[0] == "tbin":
                v[2], v[3] = r.choice(TF), not v[3]
            elif v[0] == "tbool":
                v[2] = r.choice(TF)
            elif v[0] == "perm" and len(v) > 2:
                v[2] = list(reversed(v[2]))
        if q.get("weights"):
            q["weights"] = [w + 0.5 for w in q["weights"]]
    return q


def build_problem(p, tag="s0", log_to=None, log_file=None):
    """The dictionary form of the problem handed to solve()."""
    obj = Objective(p["obj"], tag)
    d = {"obj_func": obj, "bounds": make_vars(p["vars"]), "minmax": p["minmax"], "log_to": log_to, "name": p.get("name", "P"),
         "save_population": bool(p.get("save_population"))}
    if len(d["bounds"]) == 1 and p.get("single_bound"):
        d["bounds"] = d["bounds"][0]
    if log_file:
        d["log_file"] = log_file
    if p.get("weights"):
        d["obj_weights"] = {"tuple": tuple, "array": np.array}.get(p.get("weights_as"), list)(p["weights"])
    if p.get("form") == "class":
        del d["obj_func"]
        return class_problem()(rec=obj, **d), obj
    return d, obj


# ----------------------------------------------------------------------------- algorithms
_algs = None
_params = {}


def algorithms():
    global _algs
    if _algs is None:
        m = seams.mealpy
        d = m.get_all_optimizers(verbose=False)
        d = {k: v for k, v in d.items() if v.__module__.startswith("mealpy.") and k != "Optimizer"}
        _algs = dict(sorted(d.items()))
    return _algs


def param_space(name):
    """Constructor parameters with the ranges the class itself declares (observed through its validator)."""
    if name in _params:
        return _params[name]
    cls = algorithms()[name]
    m = seams.mealpy
    from mealpy.utils.validator import Validator
    rec = []
    saved = {}
    for meth in ("check_int", "check_float", "check_str", "check_bool"):
        saved[meth] = getattr(Validator, meth)

        def mk(meth, orig):
            def f(self, name, value, bound=None, **kw):
                if meth == "check_bool":
                    r = orig(self, name, value)
                else:
                    r = orig(self, name, value, bound)
                rec.append((meth, name, value, bound))
                return r
            return f
        setattr(Validator, meth, mk(meth, saved[meth]))
    try:
        cls(**base_kwargs(name))
    finally:
        for k, v in saved.items():
            setattr(Validator, k, v)
    sig = set(inspect.signature(cls.__init__).parameters)
    out = []
    for meth, n, v, b in rec:
        if n in ("epoch", "pop_size") or n not in sig:
            continue
        out.append((meth[6:], n, v, b))
    _params[name] = out
    return out


def base_kwargs(name):
    kw = {"epoch": 5, "pop_size": 20}
    kw.update(SPECIAL.get(name, {}))
    return kw


# many evaluations per epoch (pop_size squared or worse): fewer epochs
HEAVY = {"Matlab101GTO", "SwarmSA", "OriginalPO", "OriginalBFO", "OriginalFFA", "ImprovedSFO", "OriginalSFO", "OriginalFA", "SwarmHC",
         "OriginalCSO", "DevEPC", "OriginalWHO", "OriginalMA", "DevTPO"}


def gen_kwargs(r, name, vary=0.3, epoch=None, pop=None):
    kw = dict(base_kwargs(name))
    sp = SPECIAL.get(name, {})
    if "epoch" not in sp:
        kw["epoch"] = epoch or (r.choice([2, 3, 4, 5, 6, 7]) if r.random() < .85 else r.choice([1, 1, 8, 11, 16, 20]))
    if "pop_size" not in sp:
        kw["pop_size"] = pop or (r.choice([12, 15, 16, 20, 21]) if r.random() < .8 else r.choice([5, 6, 7, 8, 9, 10, 11, 24, 30]))
    if name in HEAVY and epoch is None:
        kw["epoch"] = min(kw["epoch"], 4)
    if r.random() < vary:
        ps = param_space(name)
        if ps:
            for _ in range(r.randint(1, 2)):
                kind, n, v, b = ps[r.randrange(len(ps))]
                if n in sp:
                    continue
                if kind == "bool":
                    kw[n] = not v
                elif kind == "str" and b:
                    kw[n] = r.choice(list(b))
                elif kind == "int" and b and np.isfinite(b[0]) and np.isfinite(b[1]):
                    lo, hi = int(b[0]) + (1 if type(b) is tuple else 0), int(b[1]) - (1 if type(b) is tuple else 0)
                    if hi - lo <= 8:
                        kw[n] = r.randint(lo, hi)
                    elif r.random() < .4:
                        kw[n] = min(hi, lo + r.choice([0, 1, 1, 2, 4]))
                    else:
                        kw[n] = min(hi, max(lo, v + r.choice([-2, -1, 1, 2])))
                elif kind == "float" and b:
                    f = v * r.choice([0.5, 0.8, 1.2, 1.5]) if v else r.choice([0.1, 0.2])
                    lo, hi = float(b[0]), float(b[1])
                    if r.random() < .3 and np.isfinite(lo) and np.isfinite(hi) and lo >= 0:
                        f = lo + (hi - lo) * (r.choice([0.02, 0.1, 0.9, 0.98]) if hi - lo <= 10 else r.choice([0.0001, 0.001]))
                    if lo < f < hi:
                        kw[n] = f
    if name == "OriginalILA" and kw.get("b_min", 0.4) > kw.get("b_max", 0.6):
        kw.pop("b_min", None), kw.pop("b_max", None)      # an empty range asked for by the user
    try:
        algorithms()[name](**copy.deepcopy(kw))
    except ValueError:              # a combination the constructor rejects
        kw2 = dict(base_kwargs(name))
        for k in ("epoch", "pop_size"):
            try:
                algorithms()[name](**{**kw2, k: kw[k]})
                kw2[k] = kw[k]
            except ValueError:
                pass
        kw = kw2
    return kw


def make_optimizer(name, kw):
    return algorithms()[name](**copy.deepcopy(kw))


def problem_object(p, tag="s0"):
    d, _ = build_problem(p, tag)
    return seams.mealpy.Problem(**d) if isinstance(d, dict) else d
