"""C27: documented defaults and equivalent ways to state a configuration give the identical run."""
import numpy as np
from hypothesis import strategies as st
from poap.controller import SerialController

import pySOT.strategy as pystrat
from pySOT.surrogate import CubicKernel, GPRegressor, LinearTail, PolyRegressor, RBFInterpolant, TPSKernel
from pySOT.surrogate import median_capping
from pySOT.surrogate.output_transformations import identity

from ..core import require
from ..gen import seeds
from ..sim import Prob, RecDesign, make_design, objective

CASES = {"quick": 2400, "thorough": 40000}
RULE = (
    "generated configuration stated twice: plainly and with generated equivalent replacements (options left at or set to their "
    "documented defaults, options documented to be ignored, unknown values as None/NaN/inf, integer or float arrays, lists or "
    "arrays, value types of the objective); both are run with the same seed by POAP's serial controller and must propose bitwise "
    "the same points; non-trivial: adaptive evaluations and at least one replacement"
)
CLS = dict(SRBF=pystrat.SRBFStrategy, DYCORS=pystrat.DYCORSStrategy, SOP=pystrat.SOPStrategy, EI=pystrat.EIStrategy,
           LCB=pystrat.LCBStrategy)
VARIANTS = ["weights", "num_cand", "restarts", "async", "batch", "ncenters", "kappa", "dtol", "noextra", "unknown", "intbounds", "indices",
            "surrogate", "transform", "value", "extradtype", "column", "tol"]


@st.composite
def cases(draw, tier):
    name = draw(st.sampled_from(["SRBF", "DYCORS", "SOP", "SRBF", "DYCORS", "SOP", "LCB", "EI"]))
    gp = name in ("EI", "LCB")
    dim = draw(st.integers(1, 2 if gp else 4))
    big = not gp and draw(st.integers(0, 23)) == 11  # defaults that depend on the dimension
    if big:
        dim = draw(st.integers(5, 30))
    lb, ub, ints = [], [], []
    for i in range(dim):
        lb.append(float(draw(st.integers(-10, 10))))
        ub.append(lb[-1] + draw(st.integers(6, 30)))
        if draw(st.integers(0, 3)) == 0:
            ints.append(i)
    c = dict(strategy=name, lb=lb, ub=ub, int=ints, seed=draw(seeds), design=draw(st.sampled_from(["slhd", "lhd"])), iters=5,
             npts=2 * (dim + 1) + draw(st.sampled_from([0, 1, 4])), obj=draw(st.sampled_from(["sphere", "rugged", "steps", "hash"])))
    c["adapt"] = draw(st.integers(2, 3 if gp else 6 if big else 30 if tier == "quick" else 80))
    c["sync"] = draw(st.booleans())
    c["batch"] = draw(st.integers(1, 4))
    c["surrogate"] = "gp" if gp else draw(st.sampled_from(["rbf", "rbf", "tps", "poly"]))
    c["capping"] = draw(st.integers(0, 3)) == 0
    c["extra"] = None
    if draw(st.booleans()):
        n = draw(st.integers(1, 3))
        c["extra"] = [[[lo + draw(st.integers(0, int(hi - lo))) for lo, hi in zip(lb, ub)],
                       draw(st.sampled_from(["?", "?", 2.0, -1.0]))] for _ in range(n)]
        if draw(st.booleans()):
            c["extra"] = [[p, "?"] for p, _ in c["extra"]]
        seen = {tuple(p) for p, _ in c["extra"]}
        if len(seen) < n:
            c["extra"] = c["extra"][:1]
    c["variants"] = draw(st.lists(st.sampled_from(VARIANTS), min_size=1, max_size=6, unique=True))
    c["pick"] = draw(st.integers(0, 1 << 20))
    return c


def trace(case, variants):
    """Points proposed by the configuration with the given replacements."""
    rng = np.random.RandomState(case["pick"])
    dim, name, used = len(case["lb"]), case["strategy"], []

    def choose(v, options, applies=True):
        """Index 0: the plain way."""
        k = rng.randint(len(options)) if len(options) > 1 else 0
        if v in variants and applies:
            used.append(v)
            return options[k]
        return options[0]

    prob = Prob(case["lb"], case["ub"], case["int"])
    f = objective(case["obj"], prob)
    diag = np.linalg.norm(prob.ub - prob.lb)
    dt = choose("intbounds", [float, np.int64, np.int32])
    prob.lb, prob.ub = prob.lb.astype(dt), prob.ub.astype(dt)
    dt = choose("indices", [np.int64, np.int32, np.int16])
    prob.int_var, prob.cont_var = prob.int_var.astype(dt), prob.cont_var.astype(dt)
    if "indices" in variants:  # "If no variables are discrete, set to []"
        prob.int_var = [] if len(prob.int_var) == 0 else prob.int_var
        prob.cont_var = [] if len(prob.cont_var) == 0 else prob.cont_var
    d = dict(dim=dim, lb=prob.lb, ub=prob.ub)
    if case["capping"]:
        d["output_transformation"] = median_capping
    else:
        tr = choose("transform", ["omit", None, identity, lambda y: y])
        if tr != "omit":
            d["output_transformation"] = tr
    kind = case["surrogate"]
    if kind == "rbf":
        full = dict(kernel=CubicKernel(), tail=LinearTail(dim), eta=1e-6)
        keys = choose("surrogate", [("kernel", "tail", "eta"), (), ("eta",), ("kernel", "tail"), ("kernel",), ("tail",), ("kernel", "eta")])
        sur = RBFInterpolant(**d, **{k: full[k] for k in keys})
    elif kind == "tps":
        sur = RBFInterpolant(**d, kernel=TPSKernel(), **choose("surrogate", [dict(tail=LinearTail(dim)), {}]))
    elif kind == "poly":
        sur = PolyRegressor(**d, **choose("surrogate", [dict(degree=2), {}]))
    else:
        sur = GPRegressor(**d, n_restarts_optimizer=0, **choose("surrogate", [{}, dict(gp=None)]))
    max_evals = case["npts"] + case["adapt"]
    kw = dict(max_evals=max_evals, opt_prob=prob, exp_design=RecDesign(make_design(case["design"], dim, case["npts"], case["iters"])), surrogate=sur)
    if case["sync"]:
        kw.update(asynchronous=False, batch_size=case["batch"])
    else:
        kw.update(choose("async", [dict(asynchronous=True), {}]))
        kw.update(choose("batch", [{}, dict(batch_size=None), dict(batch_size=1), dict(batch_size=3), dict(batch_size=50)]))
    kw.update(choose("restarts", [dict(use_restarts=True), {}]))
    if name in ("SRBF", "DYCORS"):
        w = [0.3, 0.5, 0.8, 0.95]
        kw.update(choose("weights", [dict(weights=w), {}, dict(weights=None), dict(weights=np.array(w))]))
    if name in ("SRBF", "DYCORS", "SOP"):
        kw.update(choose("num_cand", [dict(num_cand=100 * dim), {}, dict(num_cand=None)]))
    if name == "SOP":
        kw.update(choose("ncenters", [dict(ncenters=4), {}]))
    if name == "LCB":
        kw.update(choose("kappa", [dict(kappa=2.0), {}, dict(kappa=2)]))
        kw.update(choose("tol", [{}, dict(lcb_tol=None)]))
    if name == "EI":
        kw.update(choose("tol", [{}, dict(ei_tol=None)]))
    if name in ("EI", "LCB"):
        kw.update(choose("dtol", [dict(dtol=1e-3 * diag), {}, dict(dtol=None)]))
    if case["extra"] is None:
        kw.update(choose("noextra", [{}, dict(extra_points=None, extra_vals=None)]))
    else:
        pts = np.array([p for p, _ in case["extra"]], dtype=choose("extradtype", [float, np.int64]))
        unknown = choose("unknown", [np.nan, np.inf, -np.inf])
        vals = np.array([[unknown if v == "?" else v] for _, v in case["extra"]])
        if all(v == "?" for _, v in case["extra"]) and "unknown" in variants and rng.randint(2):
            vals = None
        if vals is not None and "column" in variants:
            used.append("column")
            vals = vals.ravel()
        kw.update(extra_points=pts, extra_vals=vals)
    cast = choose("value", [float, np.float64, np.float32 if case["obj"] == "steps" else float,
                            int if case["obj"] == "steps" else float, lambda v: np.array(v)])
    seen = []

    def obj(x):
        seen.append(tuple(float(v) for v in np.ravel(x)))
        return cast(f(x))

    np.random.seed(case["seed"])
    ctrl = SerialController(objective=obj)
    ctrl.strategy = CLS[name](**kw)
    rec = ctrl.run()
    return seen, (tuple(float(v) for v in np.ravel(rec.params[0])), float(rec.value)), used


def run(case, stats):
    a, besta, _ = trace(case, [])
    b, bestb, used = trace(case, case["variants"])
    for k, (x, y) in enumerate(zip(a, b)):
        require(x == y, "evaluation %d is %s instead of %s after the replacements %s", k, y, x, used)
    require(len(a) == len(b), "%d evaluations instead of %d after the replacements %s", len(b), len(a), used)
    require(besta == bestb, "result %s instead of %s after the replacements %s", bestb, besta, used)
    for v in used:
        stats.label(v)
    stats.label(case["strategy"])
    stats.nontrivial = bool(used) and len(a) > case["npts"]
