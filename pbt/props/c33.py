"""C33: what is documented to be random is random: uniform, independent, and new every time."""
import numpy as np
from hypothesis import strategies as st

from pySOT.auxiliary_problems import candidate_uniform
from pySOT.experimental_design import LatinHypercube, SymmetricLatinHypercube
from pySOT.strategy import RandomStrategy
from pySOT.utils import GeneticAlgorithm

from ..core import Discard, require
from ..gen import box, seeds
from ..sim import IDW, Prob, no_design
from ..stat import ks_uniform

CASES = {"quick": 1200, "thorough": 20000}
RULE = (
    "generated domain, sizes and seed; several hundred points of random search, candidates of the uniform search, individuals of a "
    "random population or designs from one iteration: each coordinate, the coupling of coordinates and the coupling of successive "
    "draws are uniform (Kolmogorov-Smirnov with the Dvoretzky-Kiefer-Wolfowitz bound, error probability 1e-11 per test); "
    "non-trivial: at least 400 independent draws were judged"
)


@st.composite
def cases(draw, tier):
    c = dict(what=draw(st.sampled_from(["random", "uniform", "ga", "slhd", "lhd"])), seed=draw(seeds))
    c["lb"], c["ub"], c["int"] = draw(box(4, min_int_width=6))
    d = len(c["lb"])
    c["n"] = draw(st.integers(400, 900))
    c["npts"] = draw(st.one_of(st.integers(2 * (d + 1), 12), st.integers(2 * (d + 1), 30)))
    c["mapped"] = draw(st.booleans())
    c["subset"] = sorted(draw(st.sets(st.integers(0, d - 1), min_size=1))) if draw(st.booleans()) else None
    return c


def unit(X, prob, rng):
    """Probability integral transform of the (rounded) uniform distribution."""
    U = np.empty(X.shape)
    for j in range(X.shape[1]):
        lb, ub = prob.lb[j], prob.ub[j]
        lo, hi = X[:, j], X[:, j]
        if j in prob.int_var:
            a, b = np.ceil(lb), np.floor(ub)
            lo, hi = np.where(X[:, j] <= a, lb, X[:, j] - 0.5), np.where(X[:, j] >= b, ub, X[:, j] + 0.5)
        U[:, j] = (lo + rng.rand(len(X)) * (hi - lo) - lb) / (ub - lb)
    return U


def judge(U, what):
    """Rows are independent and uniform."""
    n, d = U.shape
    for j in range(d):
        ks_uniform(U[:, j], "%s: coordinate %d" % (what, j))
        half = n // 2  # disjoint pairs
        ks_uniform((U[0 : 2 * half : 2, j] - U[1 : 2 * half : 2, j]) % 1.0, "%s: coordinate %d of successive draws" % (what, j))
        ks_uniform((U[:half, j] - U[half : 2 * half, j]) % 1.0, "%s: coordinate %d of the first and the second half" % (what, j))
        for k in range(j):
            ks_uniform((U[:, j] - U[:, k]) % 1.0, "%s: difference of the coordinates %d and %d" % (what, k, j))
            ks_uniform((U[:, j] + U[:, k]) % 1.0, "%s: sum of the coordinates %d and %d" % (what, k, j))


def designs(case, prob, rng):
    """The level of every coordinate for the point with a given level of another one."""
    n, d = case["npts"], prob.dim
    slhd = case["what"] == "slhd"
    des = (SymmetricLatinHypercube if slhd else LatinHypercube)(d, n, iterations=1)
    cont = [j for j in range(d) if j not in prob.int_var] if case["mapped"] else list(range(d))
    if len(cont) < 2:
        raise Discard("no two continuous coordinates")
    kw = dict(lb=prob.lb, ub=prob.ub, int_var=prob.int_var) if case["mapped"] else {}
    rows, pairs = [], []
    for _ in range(case["n"] // 2):
        try:
            X = des.generate_points(**kw)
        except ValueError as e:
            if no_design(e):  # rank deficient, rare
                continue
            raise
        U = np.array([(X[:, j] - prob.lb[j]) / (prob.ub[j] - prob.lb[j]) if case["mapped"] else X[:, j] for j in cont]).T
        level = np.argsort(np.argsort(U, axis=0), axis=0)
        rows.append(level[level[:, 0] == rng.randint(n // 2)][0] if slhd else level[rng.randint(n)])
        pairs.append(level[[np.flatnonzero(level[:, 0] == k)[0] for k in rng.permutation(n // 2 if slhd else n)[:2]]])
    if len(rows) < case["n"] // 3:
        raise Discard("no valid design")
    L = np.array(rows, dtype=float)
    U = np.empty(L.shape)
    for j in range(L.shape[1]):
        if slhd and n % 2 == 1:  # the middle level belongs to the middle point
            L[:, j] = np.where(L[:, j] > n // 2, L[:, j] - 1, L[:, j])
        U[:, j] = (L[:, j] + rng.rand(len(L))) / (n - n % 2 if slhd else n)
    if slhd:
        U = U[:, 1:]
    what = "symmetric Latin hypercube" if slhd else "Latin hypercube"
    if U.shape[1]:
        judge(U, what + ", levels of a random point")
        P = np.array(pairs)[:, :, 1:]
        if slhd:  # two points that aren't mirrored: which half they are in, and the distance from the middle
            P = np.where((n % 2 == 1) & (P > n // 2), P - 1, P)
            m = n // 2
            judge((((P[:, 0] >= m) != (P[:, 1] >= m)) + rng.rand(*U.shape)) / 2.0, what + ", halves of two random points")
            P = np.minimum(P, 2 * m - 1 - P)
        else:
            m = n
        judge(((P[:, 0] - P[:, 1]) % m - 1 + rng.rand(*P[:, 0].shape)) / (m - 1.0), what + ", levels of two random points")
    return len(rows)


class Recorder(IDW):
    seen = None

    def predict(self, xx):
        self.seen = np.array(xx, dtype=float)
        return super().predict(xx)


def run(case, stats):
    prob = Prob(case["lb"], case["ub"], case["int"])
    rng = np.random.RandomState([case["seed"] % 100003, 77])
    np.random.seed(case["seed"])
    what, n = case["what"], case["n"]
    stats.label(what)
    if what in ("slhd", "lhd"):
        stats.nontrivial = designs(case, prob, rng) >= 100
        return
    if what == "random":
        s = RandomStrategy(max_evals=n, opt_prob=prob)
        X = []
        for _ in range(n):
            p = s.propose_action()
            X.append(np.array(p.args[0], dtype=float))
        judge(unit(np.array(X), prob, rng), "random search")
    elif what == "uniform":
        sur = Recorder(prob.dim, prob.lb, prob.ub)
        X = np.array([prob.lb + u * (prob.ub - prob.lb) for u in (0.25, 0.75)])
        for i in prob.int_var:
            X[:, i] = np.round(X[:, i])
        sur.add_points(X, np.array([1.0, 2.0]))
        sub = case["subset"] or list(range(prob.dim))
        parts = []
        for _ in range(2):
            candidate_uniform(num_pts=1, opt_prob=prob, surrogate=sur, X=X, fX=np.array([[1.0], [2.0]]), weights=[0.5],
                              num_cand=n // 2, subset=None if case["subset"] is None else np.array(sub))
            parts.append(sur.seen)
        require(not np.array_equal(*parts), "two uniform searches have the same candidates")
        judge(unit(np.vstack(parts), prob, rng)[:, sub], "uniform candidates")
    else:
        pops = []

        def f(P):
            pops.append(np.array(P, dtype=float))
            return np.arange(len(P), dtype=float)

        size = 2 * (n // 4)
        for _ in range(2):
            GeneticAlgorithm(function=f, dim=prob.dim, lb=prob.lb, ub=prob.ub, int_var=prob.int_var, pop_size=size, num_gen=0,
                             start="Random").optimize()
        judge(unit(np.vstack(pops), prob, rng), "random initial population")
    stats.nontrivial = True
