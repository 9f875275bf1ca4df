"""C24 / C25: the Python interface against the Rust core (hypothesis-generated cases).

run.py <property>            search (env VERIF_DIR VERIF_TIER VERIF_SEED PYREF PYMOD)
run.py replay <file>         one case
run.py worker <property> <index> <examples> <seed> <dir>
"""
import json, os, select, struct, subprocess, sys, threading, time, traceback, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.environ.get("VERIF_DIR", "/verif")
WORKERS = 8
LIMIT = 6000  # callback calls per optimization before the callbacks give up
HANG = 180  # seconds after which one case counts as not ending


def b(x):
    return struct.unpack("<Q", struct.pack("<d", float(x)))[0]


def same(x, y):
    return b(x) == b(y) or (x != x and y != y)


class Bad(Exception):
    """the property does not hold"""


def need(ok, msg):
    if not ok:
        raise Bad(msg)


# ---- the reference ---------------------------------------------------------------------------
class Ref:
    def __init__(self):
        self.start()
        self.cache = {}

    def start(self):
        self.p = subprocess.Popen([os.environ["PYREF"]], stdin=subprocess.PIPE, stdout=subprocess.PIPE, bufsize=0)
        self.buf = b""

    def line(self):
        """the next answer; None when there is none for a long time"""
        end = time.time() + 20
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0 or not select.select([self.p.stdout], [], [], left)[0]:
                return None
            x = os.read(self.p.stdout.fileno(), 1 << 16)
            if not x:
                raise RuntimeError("the reference ended")
            self.buf += x
        l, self.buf = self.buf.split(b"\n", 1)
        return l

    def ask(self, case):
        q = json.dumps(encode(case), sort_keys=True)
        if q not in self.cache:
            if len(self.cache) > 5000:
                self.cache.clear()
            self.p.stdin.write((q + "\n").encode())
            l = self.line()
            if l is None:
                # argmin's conjugate gradients never end on numbers that overflow: nothing to compare
                self.p.kill()
                self.p.wait()
                self.start()
                self.cache[q] = {"panic": "does not end"}
            else:
                self.cache[q] = json.loads(l)
        return self.cache[q]


FLOATS = {"lo", "hi", "a", "c", "bounds", "points", "xtol_abs", "target", "max_time", "threshold_factor", "distance_factor", "abs_tol", "rel_tol",
          "delta", "sigma", "epsilon", "theta", "gamma", "eta", "c1", "c2", "width_tolerance", "tolerance_grad", "tolerance_cost", "l1_coefficient",
          "simplex_delta", "sd_tolerance", "alpha", "rho", "radius", "max_radius", "curvature_threshold", "tolerance", "step_size",
          "ftol_rel", "ftol_abs", "xtol_rel"}


def encode(v, key=None):
    if isinstance(v, dict):
        return {k: encode(x, k if k in FLOATS else None) for k, x in v.items() if k not in ("style", "how")}
    if isinstance(v, (list, tuple)):
        return [encode(x, key) for x in v]
    if key and v is not None:
        return b(v)
    return v


# ---- the same problems in Python -------------------------------------------------------------
CONS = [
    lambda x: x[0] - 0.25,
    lambda x: 1.5 - x[0] - x[-1],
    lambda x: x[0] * x[0] - 0.09,
    lambda x: 4.0 - _ss(x),
    lambda x: 0.75 - x[-1],
    lambda x: 1.0,
    lambda x: -x[0] * 0.5 - 40.0,
]


def _ss(x):
    s = 0.0
    for v in x:
        s = s + v * v
    return s


class Boom(Exception):
    pass


def value(q, x):
    d = len(x)
    s = 0.0
    kind = q["kind"]
    for i in range(d):
        t = x[i] - q["c"][i]
        a = q["a"][i]
        if kind == 0:
            v = a * (t * t)
        elif kind == 1:
            u = t * t - 1.0
            v = a * (u * u) + 0.1 * t
        elif kind == 2:
            v = a * abs(t)
        else:
            v = a * (t * t) + (x[i] * x[(i + 1) % d]) * 0.25
        s = s + v
    return s


def fails(q, x):
    m = (q["lo"][0] + q["hi"][0]) / 2.0
    return (q["fail"] == 1 and x[0] > m) or (q["fail"] == 2 and x[0] * x[0] > 1.0)


class PyProb:
    """Python callables of a generated problem, with call counts and optional faults"""

    def __init__(self, q, limit=LIMIT, fault=None, style=0):
        self.q, self.limit, self.fault, self.style = q, limit, fault, style
        self.calls = 0
        self.counts = {}
        self.seen = {}
        self.lock = threading.Lock()

    def tick(self):
        with self.lock:
            self.calls += 1
            n = self.calls
        if n > self.limit:
            raise Boom("limit")

    def faulty(self, what):
        """None, or the fault to commit in this call"""
        with self.lock:
            n = self.counts[what] = self.counts.get(what, 0) + 1
        f = self.fault
        if f and f["what"] == what and f["at"] <= n < f["at"] + f["len"]:
            return f["how"]
        return None

    def out(self, v):
        import numpy as np
        if self.style == 1:
            return np.float64(v) if not isinstance(v, list) else np.array(v)
        if self.style == 2 and isinstance(v, list):
            return tuple(tuple(r) if isinstance(r, list) else r for r in v)
        return v

    def objective(self, x):
        self.tick()
        h = self.faulty("objective")
        if h is not None:
            return commit(h, x)
        if fails(self.q, x):
            raise Boom("fails here")
        return self.out(value(self.q, x))

    def gradient(self, x):
        self.tick()
        h = self.faulty("gradient")
        if h is not None:
            return commit(h, x)
        q, d = self.q, len(x)
        g = []
        for i in range(d):
            t = x[i] - q["c"][i]
            a = q["a"][i]
            k = q["kind"]
            if k == 0:
                v = 2.0 * a * t
            elif k == 1:
                v = a * (4.0 * ((t * t - 1.0) * t)) + 0.1
            elif k == 2:
                v = a * (1.0 if t > 0.0 else -1.0 if t < 0.0 else 0.0)
            else:
                v = 2.0 * a * t + 0.25 * (x[(i + 1) % d] + x[(i + d - 1) % d])
            g.append(v)
        return self.out(g)

    def hessian(self, x):
        self.tick()
        h_ = self.faulty("hessian")
        if h_ is not None:
            return commit(h_, x)
        q, d = self.q, len(x)
        h = [[0.0] * d for _ in range(d)]
        for i in range(d):
            t = x[i] - q["c"][i]
            a = q["a"][i]
            k = q["kind"]
            h[i][i] = h[i][i] + (2.0 * a if k in (0, 3) else a * (12.0 * (t * t) - 4.0) if k == 1 else 0.0)
            if k == 3:
                j = (i + 1) % d
                h[i][j] = h[i][j] + 0.25
                h[j][i] = h[j][i] + 0.25
        return self.out(h)

    def bounds(self):
        h = self.faulty("bounds")
        if h is not None:
            return commit(h, self.q["lo"])
        return self.out([[l, u] for l, u in zip(self.q["lo"], self.q["hi"])])

    def constraint(self, j, k):
        def g(x):
            h = self.faulty("constraint%d" % j)
            if h is not None:
                return commit(h, x)
            return self.out(CONS[k](x))
        return g

    def problem(self, gs):
        q = self.q
        kw = {}
        if q["grad"]:
            kw["gradient"] = self.gradient
        if q["hess"]:
            kw["hessian"] = self.hessian
        if q["cons"]:
            c = [self.constraint(j, k) for j, k in enumerate(q["cons"])]
            kw["constraints"] = tuple(c) if self.style == 2 else c[0] if len(c) == 1 and self.style == 1 else c
        return gs.PyProblem(self.objective, self.bounds, **kw)


def commit(how, x):
    """a fault of a callback"""
    d = len(x)
    import numpy as np
    if how == "raise":
        raise Boom("raised")
    if how == "zero":
        return 1 / 0
    if how == "exit":
        raise SystemExit(3)
    if how == "interrupt":
        raise KeyboardInterrupt()
    if how == "stop":
        raise StopIteration()
    return {"none": None, "str": "x", "complex": 1j, "dict": {}, "list": [1.0] * d, "short": [1.0] * (d - 1), "long": [1.0] * (d + 1), "empty": [],
            "nested": [[[1.0]]], "rows": [[1.0] * d] * (d + 1), "ragged": [[0.0, 1.0, 2.0], [3.0]] if d == 2 else [[0.0] * (d + 1)] + [[0.0] * d] * (d - 2) + [[0.0] * (d - 1)],
            "cols": [[0.0, 1.0, 2.0]] * d, "col": [[0.0]] * d, "flat": [0.0, 1.0] * d, "swapped": [[1.0, -1.0]] * d, "nanb": [[0.0, float("nan")]] * d,
            "raggedlast": [[1.0] * d] * (d - 1) + [[1.0] * (d - 1)], "raggedlong": [[1.0] * d] * (d - 1) + [[1.0] * (d + 1)],
            "raggedtail": [[1.0] * d] * (d - 2) + [[1.0] * (d + 1), [1.0] * (d - 1)] if d > 1 else [[]], "raggedd": [[-1.0, 1.0]] * (d - 2) + [[-1.0], [0.0, 1.0, 2.0]] if d > 1 else [[0.0]], "raggedb": [[-1.0, 1.0]] * (d - 1) + [[0.0]], "raggedc": [[-1.0, 1.0]] * (d - 1) + [[0.0, 1.0, 2.0]],
            "infb": [[0.0, float("inf")]] * d, "emptyrow": [[]] * d, "nan": float("nan"), "inf": float("inf"), "ninf": float("-inf"), "huge": 10 ** 400,
            "nans": [float("nan")] * d, "infs": [float("inf")] * d, "strs": ["a"] * d, "array0": np.array([1.0] * (d + 1)), "int": 3, "bool": True}[how]


# ---- calling the interface -------------------------------------------------------------------
PARAMS = ["iterations", "population_size", "wait_cycle", "threshold_factor", "distance_factor", "abs_tol", "rel_tol"]
POS = {
    "hz": ["delta", "sigma", "epsilon", "theta", "gamma", "eta", "bounds"],
    "mt": ["c1", "c2", "width_tolerance", "bounds"],
    "lbfgs": ["max_iter", "tolerance_grad", "tolerance_cost", "history_size", "line_search_params", "l1_coefficient"],
    "neldermead": ["simplex_delta", "sd_tolerance", "max_iter", "alpha", "gamma", "rho", "sigma"],
    "steepestdescent": ["max_iter", "line_search_params"],
    "newtoncg": ["max_iter", "curvature_threshold", "tolerance", "line_search_params"],
    "trustregion": ["trust_region_radius_method", "max_iter", "radius", "max_radius", "eta"],
    "cobyla": ["max_iter", "step_size", "ftol_rel", "ftol_abs", "xtol_rel", "xtol_abs"],
}
FUN = {"hz": "hagerzhang", "mt": "morethuente"}
CLS = {"hz": "HagerZhang", "mt": "MoreThuente", "lbfgs": "LBFGS", "neldermead": "NelderMead", "steepestdescent": "SteepestDescent", "newtoncg": "NewtonCG",
       "trustregion": "TrustRegion", "cobyla": "COBYLA"}
BASE = {"nelder-mead": "neldermead", "newton-cg": "newtoncg"}


def make(gs, name, cfg, style):
    """a configuration object: style 0 function with keywords, 1 class with keywords, 2 class and setters, 3 function with positions"""
    cfg = {k: v for k, v in cfg.items() if v is not None}
    if "trust_region_radius_method" in cfg:
        m = gs.builders.TrustRegionRadiusMethod
        cfg["trust_region_radius_method"] = m.steihaug() if cfg["trust_region_radius_method"] == "steihaug" else (m.cauchy() if style % 2 else m.Cauchy)
    if "line_search_params" in cfg:
        l = cfg["line_search_params"]
        o = make(gs, l["name"], l["cfg"], l["style"])
        w = gs.builders.PyLineSearchParams
        if style in (1, 2):
            o = w(o) if l["style"] % 2 else (w.hagerzhang(o) if l["name"] == "hz" else w.morethuente(o))
        elif l["style"] == 3:
            o = w(o)
        cfg["line_search_params"] = o
    fun = getattr(gs.builders, FUN.get(name, name))
    cls = getattr(gs.builders, CLS[name])
    if style == 1:
        o = cls(**cfg)
    elif style == 2:
        o = cls()
        for k, v in cfg.items():
            setattr(o, k, v)
    elif style == 3 and all(k in cfg for k in POS[name]):
        o = fun(*[cfg[k] for k in POS[name]])
    else:
        o = fun(**cfg)
    for k, v in cfg.items():
        if k not in ("line_search_params", "trust_region_radius_method"):
            g = getattr(o, k)
            need(list(g) == list(v) if isinstance(v, list) else g == v, f"{name} configuration made with {k}={v!r} shows {g!r}")
    return o


def params(gs, p, style):
    if style == 1:
        return gs.PyOQNLPParams(*[p[k] for k in PARAMS])
    if style == 2:
        o = gs.PyOQNLPParams()
        for k in PARAMS:
            setattr(o, k, p[k])
        return o
    return gs.PyOQNLPParams(**p)


def states(o, fin):
    if fin:
        s1, s2 = o.stage1_final(), o.stage2()
    else:
        s1, s2 = o
    pt = lambda p: None if p is None else [b(v) for v in p]
    r1 = None if s1 is None else [s1.reference_set_size, b(s1.best_objective), s1.current_substage, s1.function_evaluations, s1.trial_points_generated,
                                  pt(s1.best_point), s1.total_time is not None]
    r2 = None if s2 is None else [b(s2.best_objective), s2.solution_set_size, s2.current_iteration, b(s2.threshold_value), s2.local_solver_calls,
                                  s2.improved_local_calls, s2.function_evaluations, s2.unchanged_cycles, pt(s2.best_point), pt(s2.last_added_point),
                                  s2.total_time is not None]
    return [r1, r2]


def call(gs, case, pp, problem=None, log=None):
    """gs.optimize of a case; returns (solution set, observer)"""
    st = case.get("style", 0)
    kw = {}
    s = case["solver"]
    if s["name"] is not None:
        kw["local_solver"] = s["name"]
    if s["cfg"] is not None:
        n = (s["name"] or "cobyla").lower()
        kw["local_solver_config"] = make(gs, BASE.get(n, n), s["cfg"], s["style"])
    for k, a in (("seed", "seed"), ("target", "target_objective"), ("max_time", "max_time"), ("excl", "exclude_out_of_bounds"), ("parallel", "parallel"),
                 ("verbose", "verbose")):
        if case.get(k) is not None:
            kw[a] = case[k]
    if case.get("points") is not None:
        import numpy as np
        kw["with_points"] = np.array(case["points"]) if st == 1 and case["points"] else case["points"]
    ob = case.get("observer")
    o = None
    if ob is not None:
        o = gs.observers.Observer()
        if ob["s1"]:
            o.with_stage1_tracking()
        if ob["s2"]:
            o.with_stage2_tracking()
        if ob["timing"]:
            o.with_timing()
        if ob["mode"] is not None:
            m = gs.observers.ObserverMode
            o.with_mode([m.Stage1Only, m.Stage2Only, m.Both][ob["mode"]])
        if ob["freq"] is not None:
            o.with_callback_frequency(ob["freq"])
        if ob["unique"]:
            o.unique_updates()
        if ob["callback"] == 0:
            def cb(s1, s2):
                log.append(states((s1, s2), False))
                h = pp.faulty("callback")
                if h is not None:
                    commit(h, [0.0])
            o.with_callback(cb)
        elif ob["callback"] == 1:
            o.with_default_callback()
        elif ob["callback"] == 2:
            o.with_stage1_callback()
        elif ob["callback"] == 3:
            o.with_stage2_callback()
        kw["observer"] = o
    r = gs.optimize(problem if problem is not None else pp.problem(gs), params(gs, case["params"], st), **kw)
    return r, o


def entries(r):
    return [(list(s.point), s.objective) for s in r.solutions]


def order(v):
    """position of a value from best to worst, as the interface orders them"""
    k = b(v)
    k = k - (1 << 64) if k >> 63 else k
    t = k if k >= 0 else (-(k & ((1 << 63) - 1)) - 1)
    return (v != v, t)


def collection(gs, r):
    """length, iteration, indexing and best solution agree"""
    e = entries(r)
    n = len(e)
    need(len(r) == n, f"len() is {len(r)} for {n} solutions")
    need(r.is_empty() == (n == 0), f"is_empty() is {r.is_empty()} for {n} solutions")
    it = [(list(s.x()), s.fun()) for s in r]
    it2 = [(list(r[i].point), r[i].objective) for i in range(n)]
    for what, x in (("iteration", it), ("indexing", it2)):
        need(len(x) == n and all(len(p) == len(q) and all(map(same, p, q)) and same(f, g) for (p, f), (q, g) in zip(e, x)), f"{what} yields {x}, the solutions are {e}")
    for i in (n, n + 7):
        try:
            r[i]
        except IndexError:
            pass
        else:
            raise Bad(f"index {i} of {n} solutions is not an IndexError")
    best = r.best_solution()
    if n == 0:
        need(best is None, "a best solution of none")
    else:
        f = best.objective
        need(any(same(f, g) and len(best.point) == len(p) and all(map(same, best.point, p)) for p, g in e), "the best solution is not in the set")
        need(all(g != g or f <= g for _, g in e), f"best value {f} of {[g for _, g in e]}")
    text = str(r)
    need(f"Total solutions: {n}" in text, f"report {text!r} of {n} solutions")
    vals = [float(l.split(":")[1]) for l in text.splitlines() if l.strip().startswith("Objective:")]
    need(len(vals) == n and all(same(v, g) or abs(v - g) <= 1e-8 * abs(g) or g != g and v != v or abs(g) > 1.7e308 for v, (_, g) in zip(vals, e)), f"report {text!r} of {e}")


def against(gs, case, r, ref):
    """the solutions are those of the core, best first"""
    want = [(p, f) for p, f in ref["ok"]]
    want.sort(key=lambda s: order(struct.unpack("<d", struct.pack("<Q", s[1]))[0]))
    got = [([b(v) for v in p], b(f)) for p, f in entries(r)]
    need(got == want, f"Python returns {[(list(s.point), s.objective) for s in r.solutions][:4]} ({len(got)}), the core finds {[([unb(v) for v in p], unb(f)) for p, f in want][:4]} ({len(want)})")


def unb(v):
    return struct.unpack("<d", struct.pack("<Q", v))[0]


def guarded(f):
    """('ok', value) or ('exc', exception); anything that is not an ordinary exception is a violation"""
    try:
        return "ok", f()
    except Bad:
        raise
    except Exception as e:
        return "exc", e
    except BaseException as e:
        raise Bad(f"{type(e).__name__} is not an ordinary exception: {e}")


# ---- C24 -------------------------------------------------------------------------------------
def check_c24(gs, ref, case):
    want = ref.ask({**case, "limit": LIMIT})
    if "panic" in want or want["calls"] > LIMIT:
        return False, []
    pp = PyProb(case["prob"], style=case["style"])
    log = []
    kind, r = guarded(lambda: call(gs, case, pp, log=log))
    if "err" in want:
        need(kind == "exc", f"the core reports {want['err']!r}, Python returns {len(r[0]) if kind == 'ok' else r} solutions")
        need(isinstance(r, ValueError), f"the core reports {want['err']!r}, Python raises {type(r).__name__}: {r}")
        return False, ["error " + " ".join(want["err"].split()[:14])]
    need(kind == "ok", f"the core finds {len(want['ok'])} solutions, Python raises {type(r).__name__}: {r}")
    r, o = r
    against(gs, case, r, want)
    collection(gs, r)
    if o is not None:
        need(states(o, True) == want["obs"], f"the observer shows {states(o, True)}, the core's {want['obs']}")
        if case["observer"]["callback"] == 0:
            need(log == want["cb"], f"the callback saw {len(log)} states, the core's {len(want['cb'])}: {log[:3]} / {want['cb'][:3]}")
        need(o.is_timing_enabled == case["observer"]["timing"], "is_timing_enabled")
    if not case["parallel"]:
        need(pp.calls == want["calls"], f"{pp.calls} calls from Python, {want['calls']} in the core")
    s = case["solver"]
    return len(want["ok"]) > 0 and (s["cfg"] is not None or case["target"] is not None or case["points"] is not None or case["excl"] is True), [
        "solver " + str(s["name"] or "default").lower(), "several solutions" if len(want["ok"]) > 1 else "one solution"] + (["observer"] if o else []) + (["parallel"] if case["parallel"] else [])


def check_sets(gs, ref, case):
    sols = [gs.PyLocalSolution(list(p), f) for p, f in case["sols"]]
    r = gs.PySolutionSet(sols)
    e = entries(r)
    need(len(e) == len(case["sols"]) and all(all(map(same, p, q)) and len(p) == len(q) and same(f, g) for (p, f), (q, g) in zip(e, case["sols"])), f"set of {case['sols']} shows {e}")
    collection(gs, r)
    return len(e) > 1, []


# ---- C25 -------------------------------------------------------------------------------------
def valid(gs, case, pp, r):
    """solutions that survived a fault are real: the objective's value at a point that satisfies the constraints"""
    q = case["prob"]
    for p, f in entries(r):
        need(len(p) == len(q["lo"]), f"a solution with {len(p)} coordinates for {len(q['lo'])} variables")
        if pp.fault is None or pp.fault["what"] != "objective":
            # COBYLA's point and value may be an ulp or so apart
            v = value(q, p)
            need(same(v, f) or abs(v - f) <= 1e-9 * (1.0 + abs(v)), f"objective {f!r} reported at {p}, it is {value(q, p)!r}")


MUST = {
    "bounds": {"raise", "zero", "none", "str", "complex", "dict", "list", "short", "long", "empty", "nested", "ragged", "cols", "col", "flat", "swapped", "nanb", "infb", "emptyrow", "nan", "inf", "int", "strs", "array0", "raggedlast", "raggedtail", "raggedb", "raggedc", "raggedd"},
    "objective": {"raise", "zero", "none", "str", "complex", "dict", "list", "nested", "empty"},
    "gradient": {"raise", "zero", "none", "str", "complex", "dict", "short", "long", "empty", "nested", "array0", "strs", "nan"},
    "hessian": {"raise", "zero", "none", "str", "complex", "dict", "short", "long", "nested", "ragged", "rows", "emptyrow", "nan", "raggedlast", "raggedlong", "raggedtail"},
    "constraint": {"raise", "zero", "none", "str", "complex", "dict", "list", "nested", "empty", "strs"},
}


def uses(case, what):
    n = (case["solver"]["name"] or "cobyla").lower().replace("-", "")
    if what == "gradient":
        return n in ("lbfgs", "steepestdescent", "newtoncg", "trustregion")
    if what == "hessian":
        return n in ("newtoncg", "trustregion")
    return True


def check_c25(gs, ref, case):
    """a history of optimizations: each undisturbed one gives what the core gives for that problem alone"""
    kept = {}
    good = bad = 0
    labels = set()
    for step in case["steps"]:
        runs = []
        for i in step["runs"]:
            c = case["problems"][i["problem"]]
            c = {**c, "parallel": i["parallel"], "seed": i["seed"]}
            runs.append((i, c))
        wants = [ref.ask({**c, "limit": LIMIT}) for _, c in runs]
        ended = [j for j, w in enumerate(wants) if "panic" not in w]
        runs, wants = [runs[j] for j in ended], [wants[j] for j in ended]
        results = [None] * len(runs)

        def one(j):
            i, c = runs[j]
            try:
                pp = PyProb(c["prob"], fault=i["fault"], style=c["style"])
                key = (i["problem"], json.dumps(i["fault"]))
                prob = None
                if i["keep"] and i["fault"] is None:
                    # the same Python problem object again
                    if i["problem"] in kept:
                        pp, prob = kept[i["problem"]]
                        pp.calls = 0
                    else:
                        prob = pp.problem(gs)
                        kept[i["problem"]] = (pp, prob)
                results[j] = (pp, guarded(lambda: call(gs, c, pp, problem=prob, log=[])))
            except BaseException as e:
                results[j] = e

        if step["threads"] and len({r[0]["problem"] for r in runs}) == len(runs):
            ts = [threading.Thread(target=one, args=(j,), daemon=True) for j in range(len(runs))]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            if len(ts) > 1:
                labels.add("threads")
        else:
            for j in range(len(runs)):
                one(j)
        for (i, c), want, res in zip(runs, wants, results):
            if isinstance(res, BaseException):
                raise res
            pp, (kind, r) = res
            f = i["fault"]
            if f is None:
                if "panic" in want or want["calls"] > LIMIT:
                    continue
                if "err" in want:
                    need(kind == "exc", f"problem {i['problem']}: the core reports {want['err']!r}, Python returns solutions")
                    continue
                need(kind == "ok", f"problem {i['problem']}: the core finds {len(want['ok'])} solutions, Python raises {type(r).__name__}: {r}")
                against(gs, c, r[0], want)
                good += 1
                if c["prob"]["cons"]:
                    labels.add("constrained")
            else:
                bad += 1
                base = f["what"].rstrip("0123456789")
                hit = pp.counts.get(f["what"], 0) >= f["at"]
                if kind == "ok":
                    valid(gs, c, pp, r[0])
                    need(not (hit and f["at"] == 1 and f["len"] > 10 ** 6 and f["how"] in MUST.get(base, ()) and uses(c, base) and (base != "constraint" or True)),
                         f"{f['what']} always yields {f['how']!r}, yet the optimization returns {entries(r[0])[:3]}")
                    labels.add("fault survived")
                else:
                    labels.add("fault reported")
                if hit:
                    labels.add("fault in " + base)
    return good > 0 and (bad > 0 or good > 1), sorted(labels)


def check_args(gs, ref, case):
    """one malformed argument"""
    pp = PyProb(case["prob"])
    kw = {}
    p = {k: v for k, v in case["params"].items()}
    n = case["arg"]
    lo = case["prob"]["lo"]
    v = {"ragshort": [lo] * 2 + [lo[:-1]], "raglong": [lo, lo + lo[:1]], "ragsum": [lo[:-1], lo + lo[:1]]}.get(case["value"]) or ODD[case["value"]]
    if n == "population_size" and case["value"] == "big":
        return False, []  # no memory holds that population
    if n in PARAMS:
        p[n] = v
        f = lambda: gs.optimize(pp.problem(gs), gs.PyOQNLPParams(**p))
    elif n == "problem":
        f = lambda: gs.optimize(v, gs.PyOQNLPParams(**p))
    elif n == "params":
        f = lambda: gs.optimize(pp.problem(gs), v)
    elif n.startswith("cfg:"):
        _, s, k = n.split(":")
        kw = {"local_solver": s, "local_solver_config": None}

        def f():
            cfg = getattr(gs.builders, FUN.get(s, s))(**{k: v})
            return gs.optimize(pp.problem(gs), gs.PyOQNLPParams(**p), local_solver=s, local_solver_config=cfg)
    elif n.startswith("prob:"):
        def f():
            q = pp.problem(gs)
            setattr(q, n[5:], v)
            return gs.optimize(q, gs.PyOQNLPParams(**p), local_solver="NewtonCG" if n[5:] in ("gradient", "hessian") else None)
    else:
        kw = {n: v}
        f = lambda: gs.optimize(pp.problem(gs), gs.PyOQNLPParams(**p), **kw)
    kind, r = guarded(f)
    if n == "with_points" and case["value"] in RAGGED:
        need(kind == "exc", f"points {v!r} are accepted for {len(lo)} variables")
    if kind == "ok":
        for x, g in entries(r):
            need(len(x) == len(case["prob"]["lo"]), f"{n}={v!r}: a solution with {len(x)} coordinates")
    # the interface still works
    want = ref.ask({**case["good"], "limit": LIMIT})
    if "ok" in want and want["calls"] <= LIMIT:
        pp = PyProb(case["good"]["prob"])
        kind2, r2 = guarded(lambda: call(gs, case["good"], pp, log=[]))
        need(kind2 == "ok", f"after {n}={v!r}: {type(r2).__name__}: {r2}")
        against(gs, case["good"], r2[0], want)
    return kind == "exc", [("refused " if kind == "exc" else "accepted ") + n.split(":")[0]]


def many(n):
    return [lambda x: 1.0] * n


ODD = {
    "none": None, "str": "abc", "empty": "", "neg": -1, "zero": 0, "one": 1, "two": 2, "big": 2 ** 63, "huge": 2 ** 70, "negf": -1.5, "half": 0.5, "nan": float("nan"), "inf": float("inf"),
    "ninf": float("-inf"), "list": [], "list1": [1.0], "listn": [[1.0]], "rag": [[1.0, 2.0], [3.0], [4.0, 5.0, 6.0]], "deep": [[[1.0]]], "strs": ["a"], "dict": {}, "tuple": (1, 2), "bytes": b"x",
    "obj": object(), "true": True, "complex": 1j, "class": int, "fn": len, "nons": [None], "manycons": many(1001), "allcons": many(1000), "noncall": [3], "emptytuple": (), "nanlist": [float("nan")] * 2,
    "cobyla": "CoBYLA", "lbfgs": "lbfgs", "nul": "cobyla\0", "uni": "ÇOBYLA",
}
RAGGED = ["ragshort", "raglong", "ragsum"]
ODD.update({k: None for k in RAGGED})
# what goes wrong with lists, and the arguments that take one
LISTY = RAGGED + ["list", "list1", "listn", "rag", "deep", "strs", "nons", "emptytuple", "nanlist", "str", "dict"]
LISTS = ["with_points", "with_points", "cfg:cobyla:xtol_abs", "cfg:cobyla:step_size", "prob:constraints"]
ARGS = PARAMS + ["problem", "params", "local_solver", "local_solver_config", "seed", "target_objective", "max_time", "verbose", "exclude_out_of_bounds", "parallel", "with_points", "observer",
                 "prob:objective", "prob:variable_bounds", "prob:gradient", "prob:hessian", "prob:constraints", "cfg:cobyla:max_iter", "cfg:cobyla:step_size", "cfg:cobyla:xtol_abs",
                 "cfg:cobyla:ftol_rel", "cfg:lbfgs:history_size", "cfg:lbfgs:line_search_params", "cfg:lbfgs:tolerance_grad", "cfg:neldermead:alpha", "cfg:neldermead:simplex_delta",
                 "cfg:neldermead:sd_tolerance", "cfg:newtoncg:tolerance", "cfg:trustregion:radius", "cfg:trustregion:eta", "cfg:trustregion:trust_region_radius_method", "cfg:steepestdescent:max_iter"]


# ---- generators ------------------------------------------------------------------------------
def strategies():
    from hypothesis import strategies as st

    S = st.sampled_from
    num = lambda lo, hi: st.integers(lo * 8, hi * 8).map(lambda k: k / 8.0)
    rare = lambda often, seldom: st.integers(0, 24).flatmap(lambda r: often if r else seldom)

    @st.composite
    def prob(draw, cons=2, fail=True, maxd=3):
        d = draw(st.integers(1, maxd)) if maxd < 3 or draw(st.integers(0, 19)) else draw(st.integers(4, 20))
        lo = [draw(num(-4, 1)) for _ in range(d)]
        hi = [l + draw(num(1, 5)) for l in lo]
        c = [draw(num(-3, 3)) for _ in range(d)]
        a = [draw(S([1.0, 0.5, 2.0, 3.0, 0.25, -0.5])) for _ in range(d)]
        k = draw(S([0] * (4 - cons) + [1] * cons + [2] * (cons > 0)))
        ks = [] if k == 0 else draw(st.lists(st.integers(0, 6) if draw(st.integers(0, 3)) == 0 else S([1, 3, 4, 5]), min_size=1, max_size=3))
        if k == 2 and draw(st.integers(0, 9)) == 7:
            ks = ks * draw(st.integers(2, 12))
        return {"kind": draw(S([0, 1, 1, 2, 3])), "lo": lo, "hi": hi, "a": a, "c": c, "cons": ks, "grad": True, "hess": True,
                "fail": draw(S([0] * 14 + [1, 2])) if fail else 0}

    def maybe(s):
        return st.one_of(st.none(), s)

    line = st.one_of(
        st.fixed_dictionaries({"name": st.just("mt"), "style": st.integers(0, 3), "cfg": st.fixed_dictionaries({
            "c1": maybe(S([1e-4, 1e-3, 0.05])), "c2": maybe(S([0.9, 0.5, 0.3])), "width_tolerance": maybe(S([1e-10, 1e-6, 1e-3])), "bounds": maybe(S([[1e-6, 10.0], [1e-8, 100.0]]))})}),
        st.fixed_dictionaries({"name": st.just("hz"), "style": st.integers(0, 3), "cfg": st.fixed_dictionaries({
            "delta": maybe(S([0.1, 0.05, 0.2])), "sigma": maybe(S([0.9, 0.8, 0.6])), "epsilon": maybe(S([1e-6, 1e-4])), "theta": maybe(S([0.5, 0.4, 0.6])), "gamma": maybe(S([0.66, 0.5, 0.8])),
            "eta": maybe(S([0.01, 0.1])), "bounds": maybe(S([[1e-6, 10.0], [1e-8, 100.0]]))})}),
    )
    mi = S([1, 3, 10, 30])

    def solver(d, default=True):
        def cfgs(name):
            n = BASE.get(name.lower(), name.lower())
            f = {
                "cobyla": {"max_iter": S([5, 20, 60, 100]), "step_size": maybe(S([0.1, 0.5, 1.0, 2.0])), "ftol_rel": maybe(S([1e-3, 1e-6])), "ftol_abs": maybe(S([1e-2, 1e-6])),
                           "xtol_rel": maybe(S([1e-2, 1e-6])), "xtol_abs": maybe(S([1e-1, 1e-2, 1e-6]).map(lambda v: [v / (i + 1) for i in range(d)]))},
                "lbfgs": {"max_iter": mi, "tolerance_grad": maybe(S([1e-2, 1e-6])), "tolerance_cost": maybe(S([1e-3, 1e-10])), "history_size": maybe(S([1, 3, 10])),
                          "line_search_params": maybe(line), "l1_coefficient": maybe(S([0.1, 1.0]))},
                "neldermead": {"max_iter": mi, "simplex_delta": maybe(S([0.05, 0.3, 1.0])), "sd_tolerance": maybe(S([1e-2, 1e-6])), "alpha": maybe(S([0.8, 1.5])), "gamma": maybe(S([1.5, 3.0])),
                               "rho": maybe(S([0.3, 0.4])), "sigma": maybe(S([0.25, 0.7]))},
                "steepestdescent": {"max_iter": mi, "line_search_params": maybe(line)},
                "newtoncg": {"max_iter": mi, "curvature_threshold": maybe(S([0.0, 1e-3])), "tolerance": maybe(S([1e-2, 1e-6])), "line_search_params": maybe(line)},
                "trustregion": {"max_iter": mi, "radius": maybe(S([0.1, 0.5, 2.0])), "max_radius": maybe(S([2.5, 10.0])), "eta": maybe(S([0.05, 0.2])),
                                "trust_region_radius_method": maybe(S(["cauchy", "steihaug"]))},
            }[n]
            full = st.fixed_dictionaries(f)
            dense = st.fixed_dictionaries({k: s.filter(lambda v: v is not None) for k, s in f.items()})
            c = st.one_of(full, dense) if n not in ("lbfgs",) else full
            return st.fixed_dictionaries({"name": st.just(name), "cfg": c if not default else st.one_of(c, c, st.none()) if n == "neldermead" else c, "style": st.integers(0, 3)})

        names = S(["COBYLA", "cobyla", "LBFGS", "lbfgs", "NelderMead", "nelder-mead", "SteepestDescent", "NewtonCG", "newton-cg", "TrustRegion", "trustregion"])
        alt = [names.flatmap(cfgs)] * 5
        if default:
            alt.append(st.just({"name": None, "cfg": None, "style": 0}))
        return st.one_of(*alt)

    prm = st.fixed_dictionaries({
        "iterations": rare(st.integers(1, 12), st.integers(13, 60)), "population_size": rare(st.integers(4, 14), st.integers(15, 90)), "wait_cycle": st.integers(1, 5), "threshold_factor": S([0.2, 0.1, 0.5, 1.0]),
        "distance_factor": S([0.75, 0.0, 0.2, 0.5]), "abs_tol": S([1e-8, 1e-3, 0.1, 0.5]), "rel_tol": S([1e-6, 1e-2, 0.1])})

    obs = st.fixed_dictionaries({"s1": st.booleans(), "s2": st.booleans(), "timing": st.booleans(), "mode": maybe(st.integers(0, 2)), "freq": maybe(st.integers(1, 4)), "unique": st.booleans(),
                                 "callback": maybe(st.integers(0, 3))})

    @st.composite
    def c24(draw):
        q = draw(prob(cons=1 if draw(st.booleans()) else 0, maxd=4))
        d = len(q["lo"])
        s = draw(solver(d))
        if q["cons"] and draw(st.integers(0, 7)):
            s = {"name": "COBYLA", "cfg": draw(st.just(None) if draw(st.integers(0, 5)) == 0 else st.fixed_dictionaries({"max_iter": S([20, 60]), "step_size": S([0.3, 1.0])})), "style": draw(st.integers(0, 3))}
        if draw(st.integers(0, 15)) == 11:
            q["hess"] = False
            q["grad"] = draw(st.booleans())
        pts = None
        if draw(st.integers(0, 2)) == 0:
            pts = [[l + (u - l) * draw(S([0.0, 0.25, 0.5, 0.875, 1.0])) for l, u in zip(q["lo"], q["hi"])] for _ in range(draw(rare(st.integers(0, 4), st.integers(5, 40))))]
            if pts and draw(st.integers(0, 9)) == 7:
                pts[-1] = pts[-1] + [0.0] if draw(st.booleans()) else [u + 1.0 for u in q["hi"]]
                if len(pts) > 1 and len(pts[0]) != len(pts[-1]):
                    pts = [pts[-1]]
        p = draw(prm)
        if draw(st.integers(0, 15)) != 3:
            p["iterations"] = min(p["iterations"], p["population_size"])
        if draw(st.integers(0, 3)) == 2:
            p.update(distance_factor=0.0, threshold_factor=5.0, abs_tol=1e-3)
        if draw(st.integers(0, 25)) == 11:
            p["population_size"] = draw(st.integers(0, 2))
        return {"prob": q, "solver": s, "params": p, "seed": draw(maybe(S([0, 1, 7, 2 ** 64 - 1]) if draw(st.booleans()) else st.integers(0, 2 ** 64 - 1))),
                "target": draw(maybe(num(-3, 6))) if draw(st.booleans()) else None, "max_time": draw(S([None, None, None, None, 0.0, 1e6, 86400.0])),
                "excl": draw(S([None, False, True, True])), "parallel": draw(S([None, False, False, True])), "points": pts,
                "observer": draw(obs) if draw(st.integers(0, 2)) == 0 else None, "verbose": draw(S([None, None, False, True])), "style": draw(st.integers(0, 2))}

    any_float = st.one_of(st.floats(), num(-2, 2))
    sets = st.integers(0, 4).flatmap(lambda d: st.lists(st.tuples(st.lists(any_float, min_size=d, max_size=d), any_float), max_size=6)).map(lambda s: {"sols": [[list(p), f] for p, f in s]})

    def simple_solver(d, cons):
        cob = st.fixed_dictionaries({"name": S(["COBYLA", None]), "cfg": st.fixed_dictionaries({"max_iter": S([20, 40]), "step_size": S([0.3, 1.0])}), "style": st.integers(0, 3)})
        if cons:
            return cob
        it = st.fixed_dictionaries({"max_iter": S([3, 10])})
        nl = lambda n: st.fixed_dictionaries({"name": st.just(n), "cfg": it, "style": st.integers(0, 2)})
        return st.one_of(cob, nl("NelderMead"), nl("LBFGS"), nl("NewtonCG"), nl("TrustRegion"), nl("TrustRegion"), nl("SteepestDescent"))

    @st.composite
    def good(draw, cons):
        q = draw(prob(cons=draw(S([cons, cons, 0])), fail=False))
        p = draw(prm)
        p["iterations"] = min(p["iterations"], p["population_size"])
        return {"prob": q, "solver": draw(simple_solver(len(q["lo"]), q["cons"])), "params": p, "seed": 0, "target": None, "max_time": None, "excl": None, "parallel": False,
                "points": None, "observer": draw(S([None, None, {"s1": True, "s2": True, "timing": True, "mode": None, "freq": 1, "unique": False, "callback": 0}])), "verbose": None,
                "style": draw(st.integers(0, 2))}

    HOWS = ["raise", "zero", "exit", "interrupt", "stop", "none", "str", "complex", "dict", "list", "short", "long", "empty", "nested", "rows", "ragged", "raggedlast", "raggedlong", "raggedtail", "raggedb", "raggedc", "raggedd", "cols", "col", "flat", "swapped", "nanb", "infb",
            "emptyrow", "nan", "inf", "ninf", "huge", "nans", "infs", "strs", "array0", "int", "bool"]

    @st.composite
    def c25(draw):
        ps = draw(st.lists(good(3), min_size=2, max_size=4))
        steps = []
        for _ in range(draw(st.integers(1, 4))):
            runs = []
            for _ in range(draw(st.integers(1, 3))):
                i = draw(st.integers(0, len(ps) - 1))
                f = None
                if draw(st.integers(0, 2)) == 0:
                    whats = ["objective", "bounds", "callback"]
                    if ps[i]["prob"]["cons"]:
                        whats += ["constraint%d" % j for j in range(len(ps[i]["prob"]["cons"]))][:4] * 2
                    if uses(ps[i], "gradient"):
                        whats += ["gradient"] * 3
                    if uses(ps[i], "hessian"):
                        whats += ["hessian"] * 4
                    f = {"what": draw(S(whats)), "at": draw(S([1, 1, 2, 3, 5, 9, 20, 60])), "len": draw(S([1, 2, 5, 10 ** 9, 10 ** 9])), "how": draw(S(HOWS))}
                    if f["what"] in ("gradient", "hessian") and draw(st.booleans()):
                        f["how"] = draw(S(["raise", "list", "short", "long", "empty", "nested", "rows", "ragged", "raggedlast", "raggedlong", "raggedtail", "raggedtail", "col", "emptyrow", "strs", "array0"]))
                    if f["what"] == "hessian" and draw(st.booleans()):
                        f.update(at=1, len=10 ** 9)
                        if len(ps[i]["prob"]["lo"]) > 2 and draw(st.integers(0, 3)) == 0:
                            f["how"] = "raggedtail"
                    if ps[i]["solver"]["name"] == "NewtonCG" and f["what"] in ("objective", "gradient", "hessian") and f["how"] not in MUST[f["what"]]:
                        f["how"] = "raise"  # argmin's conjugate gradients may never end on wrong or infinite numbers
                    if uses(ps[i], "hessian") and f["what"] in ("gradient", "hessian") and f["how"] in ("nans", "infs"):
                        f["how"] = "short"
                runs.append({"problem": i, "parallel": draw(S([False, False, True])), "seed": draw(st.integers(0, 3)), "fault": f, "keep": draw(st.booleans())})
            steps.append({"threads": draw(st.booleans()), "runs": runs})
        return {"problems": ps, "steps": steps}

    @st.composite
    def args(draw):
        q = draw(prob(cons=1, fail=False))
        return {"prob": q, "params": {"iterations": 4, "population_size": 6, "wait_cycle": 3, "threshold_factor": 0.2, "distance_factor": 0.75, "abs_tol": 1e-8, "rel_tol": 1e-6},
                **draw(st.one_of(st.fixed_dictionaries({"arg": S(ARGS), "value": S(sorted(ODD))}), st.fixed_dictionaries({"arg": S(LISTS), "value": S(LISTY)}))), "good": {**draw(good(3)), "observer": None}}

    return {"C24": [("options", c24(), check_c24, 0.85), ("collections", sets, check_sets, 0.15)],
            "C25": [("histories", c25(), check_c25, 0.7), ("arguments", args(), check_args, 0.3)]}


RULES = {
    "options": "an optimization with generated problem, parameters, solver configuration and options, in Python and in the core: same solutions bit for bit (best first), same errors, same number of callback calls, same observer states and callback history; non-trivial when it succeeds with at least one of a solver configuration, a target, points or exclusion",
    "collections": "a solution set made of generated numbers: length, iteration, indexing, best solution and report; non-trivial with at least two solutions",
    "histories": "a history of optimizations of several problems with different constraints, on one or several threads, some with a faulty callback: every undisturbed one gives bit for bit what the core gives for that problem alone, faults raise ordinary exceptions or are survived; non-trivial when at least two undisturbed optimizations, or one and a faulty one, were made",
    "arguments": "one argument, parameter, callback or configuration value replaced by a malformed one, then a good optimization; non-trivial when it is refused",
}
QUICK = {"C24": 16000, "C25": 8000}
THOROUGH = {"C24": 120000, "C25": 60000}


# ---- workers ---------------------------------------------------------------------------------
def load():
    sys.path.insert(0, os.environ["PYMOD"])
    import pyglobalsearch as gs
    return gs


def worker(pid, idx, examples, seed, d):
    from hypothesis import HealthCheck, Phase, given, settings, seed as hseed
    gs = load()
    ref = Ref()
    null = os.open("/dev/null", os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    inflight = os.path.join(d, f"inflight-{idx}.json")
    out = {"evals": 0, "subs": {}, "labels": {}, "hashes": [], "samples": []}
    hashes = set()
    fail = None
    for name, strat, fn, share in strategies()[pid]:
        cnt = {"evaluations": 0, "nontrivial": 0}
        last = {}
        t0 = time.time()

        def body(case):
            with open(inflight, "w") as f:
                json.dump({"sub": name, "case": case, "t": time.time()}, f)
            cnt["evaluations"] += 1
            try:
                nt, labels = fn(gs, ref, case)
            except Bad as e:
                last["case"], last["msg"] = case, str(e)
                raise
            except Exception as e:
                last["case"], last["msg"], last["broken"] = case, traceback.format_exc(), True
                raise
            for l in labels:
                out["labels"][name + "/" + l] = out["labels"].get(name + "/" + l, 0) + 1
            if nt:
                cnt["nontrivial"] += 1
                h = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]
                if h not in hashes:
                    hashes.add(h)
                    if len(out["samples"]) < 3 and len(hashes) % 7 == 3:
                        out["samples"].append({"sub": name, "case": case})

        t = settings(max_examples=max(4, int(examples * share)), database=None, deadline=None, suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink], print_blob=False)(
            given(strat)(body))
        t = hseed(seed)(t)
        try:
            t()
        except BaseException as e:
            if "case" not in last:
                last["msg"], last["broken"], last["case"] = traceback.format_exc(), True, None
            fail = {"sub": name, "case": last["case"], "msg": last["msg"], "broken": last.get("broken", False)}
        out["subs"][name] = {**cnt, "seconds": time.time() - t0}
        if fail:
            break
    out["hashes"] = sorted(hashes)
    out["fail"] = fail
    with open(os.path.join(d, f"out-{idx}.json.tmp"), "w") as f:
        json.dump(out, f)
    os.rename(os.path.join(d, f"out-{idx}.json.tmp"), os.path.join(d, f"out-{idx}.json"))
    os._exit(0)


def violation(pid, sub, case, msg):
    known = {}
    try:
        known = json.load(open(os.path.join(VERIF, "known_findings.json")))
    except OSError:
        pass
    for k in known.get("known", []):
        if k.get("property") == pid and k.get("signature") and k["signature"] in msg:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
            return 0
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    h = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]
    f = os.path.join(VERIF, "replays", f"{pid}-{sub}-{h}.json")
    with open(f, "w") as o:
        json.dump({"property": pid, "sub": sub, "case": case, "message": msg}, o, indent=1)
    print(f"{pid}: {sub} -- {msg[:1500]}")
    print(f"VIOLATION property={pid} replay={f}")
    return 1


def search(pid):
    import tempfile, shutil
    t0 = time.time()
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    total = (THOROUGH if tier == "thorough" else QUICK)[pid]
    total = int(total * float(os.environ.get("VH_SCALE", "1")))
    limit = int(os.environ.get("VH_LIMIT", 6 * 3600 if tier == "thorough" else 700))
    d = tempfile.mkdtemp(prefix=f"vhpy-{pid}-")
    env = {**os.environ, "RAYON_NUM_THREADS": "3", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"}
    try:
        procs = [subprocess.Popen([sys.executable, os.path.abspath(__file__), "worker", pid, str(i), str(total // WORKERS), str(seed * 1000 + i), d], env=env, stdin=subprocess.DEVNULL, start_new_session=True)
                 for i in range(WORKERS)]
        rc = None
        broken = None
        live = set(range(WORKERS))
        outs = {}
        while live and rc is None:
            time.sleep(0.05)
            for i in sorted(live):
                f = os.path.join(d, f"out-{i}.json")
                fl = os.path.join(d, f"inflight-{i}.json")
                if procs[i].poll() is not None:
                    live.discard(i)
                    if os.path.exists(f):
                        outs[i] = json.load(open(f))
                        if outs[i]["fail"] and rc is None:
                            x = outs[i]["fail"]
                            if x["broken"]:
                                broken = x["msg"]
                            else:
                                rc = violation(pid, x["sub"], x["case"], x["msg"]) or None
                    elif os.path.exists(fl):
                        x = json.load(open(fl))
                        rc = violation(pid, x["sub"], x["case"], f"the interpreter ended with status {procs[i].returncode}") or None
                    else:
                        broken = f"worker {i} ended with status {procs[i].returncode}"
                elif os.path.exists(fl) and time.time() - os.path.getmtime(fl) > HANG:
                    try:
                        x = json.load(open(fl))
                    except ValueError:
                        continue
                    live.discard(i)
                    rc = violation(pid, x["sub"], x["case"], f"the optimization does not end within {HANG} s") or None
            if time.time() - t0 > limit:
                print(f"{pid}: time limit of {limit}s reached, no verdict")
                rc = 3
        for p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
        for p in procs:
            p.wait()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if broken and rc is None:
        print(f"{pid}: the check itself failed, no verdict\n{broken[-3000:]}")
        rc = 2
    hashes = set()
    labels, subs, samples = {}, {}, []
    for o in outs.values():
        hashes |= set(o["hashes"])
        for k, v in o["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in o["subs"].items():
            s = subs.setdefault(k, {"sub": k, "evaluations": 0, "nontrivial": 0, "seconds": 0.0})
            s["evaluations"] += v["evaluations"]
            s["nontrivial"] += v["nontrivial"]
            s["seconds"] = max(s["seconds"], v["seconds"])
        samples += o["samples"]
    evals = sum(s["evaluations"] for s in subs.values())
    evidence(pid, tier, seed, evals, len(hashes), samples[:5], labels, list(subs.values()), time.time() - t0, rc or 0)
    if not rc:
        print(f"{pid} {tier}: {evals} cases, {len(hashes)} distinct non-trivial, {time.time() - t0:.1f}s, held")
    return rc or 0


def plain(v):
    """JSON has no NaN or infinity"""
    if isinstance(v, float) and (v != v or v in (float("inf"), float("-inf"))):
        return repr(v)
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


def evidence(pid, tier, seed, evals, nt, samples, labels, subs, wall, rc):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": nt, "rule": " | ".join(f"{s['sub']}: {RULES[s['sub']]}" for s in subs), "samples": plain(samples), "sub_checks": subs, "classes": labels},
          "assumptions": ["the core itself is judged by the other properties; here it is the reference",
                          f"cases in which the callbacks were called more than {LIMIT} times are not compared"],
          "exit": rc, "wall_s": wall}
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)


def main():
    if sys.argv[1] == "worker":
        worker(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5]), sys.argv[6])
    elif sys.argv[1] == "replay":
        x = json.load(open(sys.argv[2]))
        gs = load()
        ref = Ref()
        fn = {n: f for n, _, f, _ in strategies()[x["property"]]}[x["sub"]]
        saved = os.dup(1)
        null = os.open("/dev/null", os.O_WRONLY)
        os.dup2(null, 1)
        try:
            fn(gs, ref, x["case"])
        except Bad as e:
            os.dup2(saved, 1)
            print(f"{x['property']}: {x['sub']} -- {e}")
            print(f"VIOLATION property={x['property']} replay={sys.argv[2]}")
            sys.stdout.flush()
            os._exit(1)
        os.dup2(saved, 1)
        print("held")
        sys.stdout.flush()
        os._exit(0)
    else:
        sys.exit(search(sys.argv[1]))


if __name__ == "__main__":
    main()
