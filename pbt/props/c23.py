"""C23: invalid configurations are refused, valid ones accepted."""
import numpy as np
from hypothesis import strategies as st
from sklearn.linear_model import Ridge

from pySOT.surrogate import (ConstantTail, CubicKernel, GPRegressor, LinearKernel, LinearTail, PolyRegressor, RBFInterpolant,
                             TPSKernel)
from pySOT.utils import GeneticAlgorithm, check_opt_prob

from ..core import Violation, require
from ..gen import seeds, sim_case
from ..sim import Prob, build, no_design

CASES = {"quick": 40000, "thorough": 600000}
RULE = (
    "a generated consistent configuration of any strategy, and the same configuration with one generated defect: the consistent one "
    "has to be accepted and propose an evaluation, the defective one has to raise while it is constructed; also generated "
    "kernel/tail pairs, points of wrong dimension for surrogates and initial populations of the genetic algorithm; "
    "non-trivial: a defective configuration"
)

COMMON = ["max_evals", "problem", "problem", "notproblem"]
BAD = {
    "RANDOM": COMMON,
    "SRBF": COMMON + ["budget", "surrogate", "design", "batch", "weights", "weights"],
    "DYCORS": COMMON + ["budget", "surrogate", "design", "batch", "weights", "weights"],
    "SOP": COMMON + ["budget", "surrogate", "design", "batch", "ncenters", "overbatch"],
    "EI": COMMON + ["budget", "surrogate", "design", "batch", "nongp", "nongp"],
    "LCB": COMMON + ["budget", "surrogate", "design", "batch", "nongp", "nongp"],
}
PROBLEMS = ["dim0", "dimneg", "dimfloat", "lblist", "ublist", "lblen", "ublen", "equal", "crossed", "nan", "intneg", "intbig", "contneg",
            "contbig", "overlap", "missing", "intlist", "contlist", "twice", "bothlen"]


@st.composite
def cases(draw, tier):
    what = draw(st.sampled_from(["strategy"] * 6 + ["kernel", "points", "ga", "check"]))
    c = dict(what=what)
    if what == "strategy":
        c.update(draw(sim_case(faults=False, maxdim=4)))
        c["script"] = []
        c["bad"] = draw(st.sampled_from(["none", "none"] + BAD[c["strategy"]]))
        c["which"] = draw(st.integers(0, 20 * 12 - 1))
        if c["bad"] in ("batch", "overbatch"):
            c["async"] = False
            c["batch"] = 2
        return c
    if what == "check":
        c.update(draw(sim_case(strategies=("RANDOM",), maxdim=4)))
        c["which"] = draw(st.integers(-40, 20 * 12 - 1))
        return c
    c["seed"] = draw(seeds)
    c["dim"] = draw(st.integers(1, 4))
    c["other"] = draw(st.integers(1, 5))
    if what == "kernel":
        c["kernel"] = draw(st.sampled_from(["cubic", "tps", "linear", "none", "class"]))
        c["tail"] = draw(st.sampled_from(["linear", "constant", "none", "class"]))
        c["same"] = draw(st.booleans())
    elif what == "points":
        c["surrogate"] = draw(st.sampled_from(["rbf", "gp", "poly"]))
        c["how"] = draw(st.sampled_from(["add", "rows", "predict", "deriv", "std", "vector"]))
    else:
        c["how"] = draw(st.sampled_from(["name", "rows", "cols", "low", "high", "ok"]))
        c["pop"] = draw(st.integers(3, 12))
    return c


def break_problem(prob, which):
    """Make a problem malformed; returns False if this defect does not apply."""
    kind = PROBLEMS[which % len(PROBLEMS)]
    which //= len(PROBLEMS)
    d = prob.dim
    if kind == "dim0":
        prob.dim, prob.lb, prob.ub = 0, np.zeros(0), np.zeros(0)
        prob.int_var = prob.cont_var = np.zeros(0, dtype=int)
    elif kind == "dimneg":
        prob.dim = -d
    elif kind == "dimfloat":
        prob.dim = float(d)
    elif kind == "lblist":
        prob.lb = list(prob.lb)
    elif kind == "ublist":
        prob.ub = list(prob.ub)
    elif kind == "lblen":
        prob.lb = np.append(prob.lb, 0.0) if which % 2 else prob.lb[:-1]
    elif kind == "ublen":
        prob.ub = np.append(prob.ub, 1e9) if which % 2 else prob.ub[:-1]
    elif kind == "bothlen":
        prob.lb, prob.ub = np.append(prob.lb, 0.0), np.append(prob.ub, 1.0)
    elif kind == "equal":
        prob.lb[which % d] = prob.ub[which % d]
    elif kind == "crossed":
        i = which % d
        prob.lb[i], prob.ub[i] = prob.ub[i], prob.lb[i]
    elif kind == "nan":
        (prob.ub if which % 2 else prob.lb)[which // 2 % d] = np.nan
    elif kind in ("intneg", "intbig", "contneg", "contbig"):
        big = kind.endswith("big")
        if kind.startswith("int"):
            if len(prob.int_var) == 0:
                prob.int_var, prob.cont_var = prob.cont_var, prob.int_var
            prob.int_var = prob.int_var.copy()
            prob.int_var[-1 if big else 0] = d if big else -1
        else:
            if len(prob.cont_var) == 0:
                prob.int_var, prob.cont_var = prob.cont_var, prob.int_var
            prob.cont_var = prob.cont_var.copy()
            prob.cont_var[-1 if big else 0] = d if big else -1
    elif kind == "overlap":
        prob.int_var = prob.cont_var = np.arange(d)
    elif kind == "missing":
        if len(prob.cont_var):
            prob.cont_var = prob.cont_var[:-1]
        else:
            prob.int_var = prob.int_var[1:]
    elif kind == "intlist":
        prob.int_var, prob.cont_var = list(range(d)), np.zeros(0, dtype=int)
    elif kind == "contlist":
        prob.cont_var, prob.int_var = list(range(d)), np.zeros(0, dtype=int)
    elif kind == "twice":
        if d < 2:
            return None
        prob.int_var, prob.cont_var = np.array([0] + list(range(d - 1))), np.zeros(0, dtype=int)
    return kind


class NotAProblem:
    def __init__(self, p):
        self.dim, self.lb, self.ub, self.int_var, self.cont_var = p.dim, p.lb, p.ub, p.int_var, p.cont_var

    def eval(self, x):
        return 0.0


class NotADesign:
    def __init__(self, d):
        self.dim, self.num_pts = d.dim, d.num_pts
        self.generate_points = d.generate_points


class NotASurrogate:
    def __init__(self, dim):
        self.dim, self.num_pts, self.X, self.fX, self.updated = dim, 0, np.empty((0, dim)), np.empty((0, 1)), False

    def reset(self):
        pass

    def add_points(self, x, f):
        pass

    def predict(self, x):
        return np.zeros((len(x), 1))


def spoil(case, cls, kw):
    """Put one defect into the arguments of a strategy; returns a description or None if it does not apply."""
    bad, w = case["bad"], case["which"]
    if bad == "max_evals":
        kw["max_evals"] = [0, -1, -50, float(kw["max_evals"]), kw["max_evals"] + 0.5, str(kw["max_evals"]), None, 1e9][w % 8]
        return "max_evals=%r" % (kw["max_evals"],)
    if bad == "budget":
        kw["max_evals"] = [kw["exp_design"].num_pts - 1, 1, kw["exp_design"].num_pts // 2][w % 3]
        return "max_evals=%d with %d design points" % (kw["max_evals"], kw["exp_design"].num_pts)
    if bad == "problem":
        kind = break_problem(kw["opt_prob"], w)
        return kind and "problem: " + kind
    if bad == "notproblem":
        kw["opt_prob"] = [NotAProblem(kw["opt_prob"]), NotAProblem][w % 2] if w % 2 == 0 else NotAProblem(kw["opt_prob"])
        return "not an OptimizationProblem"
    if bad == "surrogate":
        s = kw["surrogate"]
        kw["surrogate"] = [NotASurrogate(s.dim), Ridge(), None][w % 3]
        return "surrogate %r" % (kw["surrogate"],)
    if bad == "design":
        kw["exp_design"] = NotADesign(kw["exp_design"])
        return "not an ExperimentalDesign"
    if bad == "batch":
        kw["batch_size"] = None
        return "no batch size in synchronous mode"
    if bad == "weights":
        kw["weights"] = [[1.5], [-0.1], [0.3, 0.5, 2.0], [0.3, -1e-3, 0.5], 0.5, [float("nan")], [0.2, 1.0 + 1e-6], np.array([0.5, 1.5])][w % 8]
        return "weights=%r" % (kw["weights"],)
    if bad == "ncenters":
        kw["ncenters"] = [3, 0, -4, 4.5, 1, 2, 5.0][w % 7]
        if not kw["asynchronous"]:
            kw["batch_size"] = 1
        return "ncenters=%r" % (kw["ncenters"],)
    if bad == "overbatch":
        kw["batch_size"] = kw["ncenters"] + 1 + w % 3
        return "batch of %d with %d centers" % (kw["batch_size"], kw["ncenters"])
    if bad == "nongp":
        s = kw["surrogate"]
        kw["surrogate"] = [RBFInterpolant, PolyRegressor][w % 2](s.dim, s.lb, s.ub)
        return "%s for expected improvement/confidence bounds" % kw["surrogate"].__class__.__name__
    raise AssertionError(bad)


def refused(what, f):
    try:
        f()
    except Exception:
        return
    raise Violation("accepted: " + what)


def run_strategy(case, stats):
    np.random.seed(case["seed"])
    prob, des, sur, strat, _ = build(case, rec=False)
    stats.label(case["strategy"])
    if case["strategy"] == "RANDOM":
        cls, kw = type(strat), dict(max_evals=case["max_evals"], opt_prob=prob)
    else:
        cls, kw = strat
    if case["bad"] == "none":
        if kw.get("weights") is not None and case["which"] % 2:
            kw["weights"] = np.array(kw["weights"])
        if case["strategy"] not in ("RANDOM", "DYCORS", "SOP") and case["which"] % 5 == 0:
            kw["max_evals"] = case["npts"]
        if kw.get("asynchronous") and case["which"] % 3 == 0:
            kw["batch_size"] = 4  # ignored
        if len(prob.int_var) == 0 and case["which"] % 4 == 0:
            prob.int_var = np.array([])
        if len(prob.cont_var) == 0 and case["which"] % 4 == 0:
            prob.cont_var = np.array([])
        try:
            s = cls(**kw)
        except ValueError as e:
            if no_design(e):
                return
            raise
        p = s.propose_action()
        require(p is not None and p.action == "eval", "a valid configuration does not propose an evaluation but %r", p and p.action)
        stats.label("accepted")
        return
    text = spoil(case, cls, kw)
    if text is None:
        return
    refused("%s: %s" % (case["strategy"], text), lambda: cls(**kw))
    stats.label("refused " + case["bad"])
    stats.nontrivial = True


def run_points(case, stats):
    rng = np.random.RandomState(case["seed"])
    d, k = case["dim"], case["other"]
    lb, ub = np.zeros(d), np.ones(d)
    s = dict(rbf=RBFInterpolant, gp=GPRegressor, poly=PolyRegressor)[case["surrogate"]](d, lb, ub)
    if case["surrogate"] == "gp":
        s = GPRegressor(d, lb, ub, n_restarts_optimizer=0)
    s.add_points(rng.rand(2 * d + 4, d), rng.rand(2 * d + 4))
    how = case["how"]
    if how == "rows":
        refused("3 points with 2 values", lambda: s.add_points(rng.rand(3, d), rng.rand(2, 1)))
        require(s.num_pts == 2 * d + 4 and len(s.X) == len(s.fX) == s.num_pts, "a refused request changed the surrogate")
        stats.nontrivial = True
        return
    X = rng.rand(3, k) if how != "vector" else rng.rand(k)
    f = {"add": lambda: s.add_points(X, rng.rand(3, 1)), "predict": lambda: s.predict(X), "vector": lambda: s.predict(X),
         "deriv": lambda: s.predict_deriv(X), "std": lambda: s.predict_std(X)}[how]
    if (how == "deriv" and case["surrogate"] != "rbf") or (how == "std" and case["surrogate"] != "gp"):
        return
    if k == d:
        f()
        stats.label("accepted")
        return
    refused("%s with points of dimension %d for a %s in %d dimensions" % (how, k, case["surrogate"], d), f)
    require(s.num_pts == 2 * d + 4 and len(s.X) == len(s.fX) == s.num_pts, "a refused request changed the surrogate")
    stats.nontrivial = True
    stats.label("refused points")


def run_kernel(case, stats):
    d = case["dim"]
    td = d if case["same"] else case["other"]
    kernel = {"cubic": CubicKernel, "tps": TPSKernel, "linear": LinearKernel, "none": lambda: None, "class": lambda: CubicKernel}[case["kernel"]]()
    tail = {"linear": lambda: LinearTail(td), "constant": lambda: ConstantTail(td), "none": lambda: None, "class": lambda: LinearTail}[case["tail"]]()
    order = {"cubic": 2, "tps": 2, "linear": 1}
    degree = {"linear": 1, "constant": 0}
    if case["kernel"] == "none" or case["tail"] == "none":
        if case["kernel"] == case["tail"]:
            RBFInterpolant(d, np.zeros(d), np.ones(d), kernel=None, tail=None)
            stats.label("accepted")
        return
    make = lambda: RBFInterpolant(d, np.zeros(d), np.ones(d), kernel=kernel, tail=tail)  # noqa: E731
    bad = case["kernel"] == "class" or case["tail"] == "class" or td != d or order[case["kernel"]] - 1 > degree[case["tail"]]
    if bad:
        refused("%s kernel with %s tail of dimension %d in %d dimensions" % (case["kernel"], case["tail"], td, d), make)
        stats.nontrivial = True
        stats.label("refused kernel")
    else:
        make()
        stats.label("accepted")


def run_ga(case, stats):
    rng = np.random.RandomState(case["seed"])
    d, n = case["dim"], case["pop"] + case["pop"] % 2
    lb, ub = -1 - rng.rand(d), 1 + rng.rand(d)
    start = lb + rng.rand(n, d) * (ub - lb)
    how = case["how"]
    if how == "name":
        start = ["slhd", "Uniform", "", "random"][case["seed"] % 4]
    elif how == "rows":
        start = start[:-1] if case["seed"] % 2 else np.vstack((start, start[:1]))
    elif how == "cols":
        start = np.hstack((start, start[:, :1])) if case["seed"] % 2 or d == 1 else start[:, :-1]
    elif how in ("low", "high"):
        i, j = rng.randint(n), rng.randint(d)
        start[i, j] = lb[j] - 1e-3 if how == "low" else ub[j] + 1e-3
    ga = lambda: GeneticAlgorithm(lambda X: X.sum(axis=1), d, lb, ub, pop_size=case["pop"], num_gen=2, start=start).optimize()  # noqa: E731
    if how == "ok":
        ga()
        stats.label("accepted")
        return
    refused("initial population (%s)" % how, ga)
    stats.nontrivial = True
    stats.label("refused population")


def run(case, stats):
    what = case["what"]
    if what == "strategy":
        run_strategy(case, stats)
    elif what == "check":
        prob = Prob(case["lb"], case["ub"], case["int"])
        if case["which"] < 0:
            check_opt_prob(prob)
            stats.label("accepted")
            return
        kind = break_problem(prob, case["which"])
        if kind is None:
            return
        refused("problem: " + kind, lambda: check_opt_prob(prob))
        stats.nontrivial = True
        stats.label("refused problem")
    else:
        dict(kernel=run_kernel, points=run_points, ga=run_ga)[what](case, stats)
