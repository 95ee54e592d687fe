"""C18: the genetic algorithm returns the best feasible individual it evaluated."""
import numpy as np
from hypothesis import strategies as st

from pySOT.utils import GeneticAlgorithm

from ..core import Discard, require
from ..gen import box, seeds
from ..sim import Prob, no_design
from ..stat import ks_uniform, pit

CASES = {"quick": 8000, "thorough": 80000}
RULE = (
    "generated domain, integer variables, population size (odd and even), generations, initial population (SLHD, LHD, Random, "
    "user array incl. boundary points), objective (smooth, plateaus, infinite values, scripted by population so that the best value "
    "appears in any generation); every population is captured; for one generation of large populations the frequencies of mutation "
    "and crossover, the distribution of mutations and the selection pressure are compared with the documented ones (error "
    "probability below 1e-10 each); non-trivial: at least two generations and not a constant objective"
)


@st.composite
def cases(draw, tier):
    c = dict(seed=draw(seeds))
    if draw(st.integers(0, 39)) == 17:
        c["lb"], c["ub"], c["int"] = draw(box(5, allow_int=False, mindim=2))
        c["fn"] = "operators"
        return c
    large = draw(st.integers(0, 29)) == 29  # more variables and more points than small cases reach
    c["lb"], c["ub"], c["int"] = draw(box(14, min_int_width=1, mindim=5) if large else box(5, min_int_width=1))
    c["pop"] = draw(st.integers(30, 130) if large else st.integers(2, 30))
    c["gens"] = draw(st.one_of(st.integers(0, 3), st.integers(2, 25)))
    c["start"] = draw(st.sampled_from(["SLHD", "LHD", "Random", "array", "array", "default"]))
    c["edge"] = draw(st.booleans())
    c["fn"] = draw(st.sampled_from(["sphere", "rugged", "plateau", "const", "hash", "edge", "mostlyinf", "neg", "offgrid"]))
    c["shape"] = draw(st.sampled_from(["column", "column", "flat"]))
    c["intkind"] = draw(st.sampled_from(["array", "list", "none"])) if not c["int"] else draw(st.sampled_from(["array", "list"]))
    return c


def function(kind, prob, seed):
    w = prob.ub - prob.lb
    t = np.random.RandomState(seed).rand(prob.dim)

    def f(X):
        U = (X - prob.lb) / w
        s = ((U - t) ** 2).sum(axis=1)
        if kind == "sphere":
            return s
        if kind == "rugged":
            return s + np.sin(31 * U).sum(axis=1)
        if kind == "plateau":
            return np.round(3 * s)
        if kind == "const":
            return np.full(len(X), 4.5)
        if kind == "hash":
            return np.array([(hash(tuple(u)) % 100003) / 7.0 for u in X])
        if kind == "edge":
            return -np.abs(U - 0.5).sum(axis=1)
        if kind == "mostlyinf":
            return np.where(s < 0.3, s, np.inf)
        if kind == "neg":
            return -1e6 * s
        return np.where(s < 0.5, 1 + s, 100 - s)

    return f


def normal(mean, expect, var, n, what):
    """A mean of n independent values; seven standard deviations and the range of one value."""
    t = 7 * np.sqrt(var / n) + 20.0 / n
    require(abs(mean - expect) <= t, "%s: %.4f, expected %.4f +- %.4f (%d samples)", what, mean, expect, t, n)


def run_operators(case, stats):
    """One generation from a large population in a tiny box: the documented selection, crossover and mutation."""
    prob = Prob(case["lb"], case["ub"], [])
    d, n = prob.dim, 6000
    rng = np.random.RandomState(case["seed"])
    w, eps = prob.ub - prob.lb, 1e-4
    q = rng.rand(n, d)
    start = prob.lb + (0.5 + eps * (q - 0.5)) * w
    pops, j = [], case["seed"] % d

    def f(X):
        pops.append(np.array(X))
        return X[:, [j]] / w[j]

    np.random.seed(case["seed"] ^ 0x2E2E2E)
    GeneticAlgorithm(function=f, dim=d, lb=prob.lb, ub=prob.ub, pop_size=n, num_gen=1, start=start).optimize()
    require(len(pops) == 2 and pops[1].shape == (n, d), "%d populations", len(pops))
    Y = pops[1]
    require((Y == start[start[:, j].argmin()]).all(axis=1).any(), "the best individual does not survive")
    U = (Y - prob.lb) / w
    kept = np.abs(U - 0.5) <= eps / 2 + 1e-12
    normal(1 - kept.mean(), 1.0 / d, (d - 1.0) / d ** 2, n * d, "frequency of mutations")
    ks_uniform(np.concatenate([pit(U[~kept[:, i] & (U[:, i] > 0) & (U[:, i] < 1), i], 0.5, 0.2, 0.0, 1.0) for i in range(d)]),
               "distribution of the mutations")
    k = kept[:, j]
    order = np.sort((start[:, j] - prob.lb[j]) / w[j])
    win = ((n - np.arange(n)) / n) ** 5 - ((n - np.arange(1, n + 1)) / n) ** 5  # tournaments of five
    mean = (win * order).sum()
    normal((U[k, j].mean() - mean) / eps, 0.0, (win * (order - mean) ** 2).sum() / eps ** 2, k.sum(), "selection (mean of the winners)")
    same = np.isin(Y[k, j], start[:, j])
    normal(same.mean(), 0.1, 2 * 0.09, k.sum(), "frequency of individuals without crossover")
    stats.label("operators")
    stats.nontrivial = True


def run(case, stats):
    if case["fn"] == "operators":
        return run_operators(case, stats)
    prob = Prob(case["lb"], case["ub"], case["int"])
    d, n = prob.dim, case["pop"] + case["pop"] % 2
    rng = np.random.RandomState(case["seed"])
    base = function(case["fn"], prob, case["seed"])
    pops, vals = [], []

    def f(X):
        require(isinstance(X, np.ndarray) and X.ndim == 2, "the function was given %r", type(X))
        Y = np.array(X, dtype=float, copy=True)
        v = base(Y)
        pops.append(Y)
        vals.append(v.copy())
        return v.reshape(-1, 1) if case["shape"] == "column" else v

    start, kw = None, {}
    if case["start"] == "array":
        start = prob.lb + rng.rand(n, d) * (prob.ub - prob.lb)
        if case["edge"]:
            start = np.where(rng.rand(n, d) < 0.4, np.where(rng.rand(n, d) < 0.5, prob.lb, prob.ub), start)
        for i in prob.int_var:
            if rng.rand() < 0.5:
                start[:, i] = np.clip(np.round(start[:, i]), np.ceil(prob.lb[i]), np.floor(prob.ub[i]))
        kw["start"] = start
    elif case["start"] != "default":
        kw["start"] = case["start"]
    keep = None if start is None else start.copy()
    iv = {"array": prob.int_var, "list": [int(i) for i in prob.int_var], "none": None}[case["intkind"]]
    lb, ub = prob.lb.copy(), prob.ub.copy()
    np.random.seed(case["seed"] ^ 0x1F1F1F)
    ga = GeneticAlgorithm(function=f, dim=d, lb=lb, ub=ub, int_var=iv, pop_size=case["pop"], num_gen=case["gens"], **kw)
    try:
        x, v = ga.optimize()
    except ValueError as e:
        if no_design(e) and n < 2 * (d + 2):  # too few points for a Latin hypercube of full rank
            raise Discard("no valid design")
        raise
    stats.label("start %s" % case["start"])
    require(keep is None or np.array_equal(start, keep), "the initial population of the user was modified")
    require(np.array_equal(lb, prob.lb) and np.array_equal(ub, prob.ub), "the bounds were modified")
    require(len(pops) == case["gens"] + 1, "%d populations evaluated, %d generations requested", len(pops), case["gens"])
    for g, Y in enumerate(pops):
        require(Y.shape == (n, d), "generation %d has shape %s, expected %s", g, Y.shape, (n, d))
        bad = (Y < prob.lb) | (Y > prob.ub) | ~np.isfinite(Y)
        require(not bad.any(), "generation %d: individual out of bounds in coordinates %s", g, np.unique(np.where(bad)[1]))
        require(np.array_equal(Y[:, prob.int_var], np.round(Y[:, prob.int_var])), "generation %d: fractional integer variable", g)
    if start is not None:
        want = start.copy()
        near = np.abs(pops[0][:, prob.cont_var] - want[:, prob.cont_var])
        require(np.all(near == 0), "the initial population is not the user's")
        for i in prob.int_var:
            lo, hi = np.ceil(prob.lb[i]), np.floor(prob.ub[i])
            best = np.maximum(0.0, np.minimum(np.abs(np.clip(np.floor(want[:, i]), lo, hi) - want[:, i]),
                                              np.abs(np.clip(np.ceil(want[:, i]), lo, hi) - want[:, i])))
            require(np.all(np.abs(pops[0][:, i] - want[:, i]) <= best + 1e-9), "initial integers are not the closest ones")
    x = np.asarray(x)
    require(x.shape == (d,), "returned individual of shape %s", x.shape)
    allv = np.concatenate(vals)
    require(np.ndim(v) == 0 and float(v) == allv.min(), "returned value %r, the smallest evaluated is %r", v, allv.min())
    require(float(base(x[None, :])[0]) == float(v), "the value at the returned individual is %r, not %r", base(x[None, :])[0], v)
    require(any((Y == x).all(axis=1).any() for Y in pops), "the returned individual was never evaluated")
    stats.nontrivial = case["gens"] >= 2 and case["fn"] != "const"
    if len(vals) > 2 and vals[-1].min() < vals[0].min():
        stats.label("improved")
    if len(prob.int_var):
        stats.label("integer variables")
    if case["pop"] % 2:
        stats.label("odd population")
