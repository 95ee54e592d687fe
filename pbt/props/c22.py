"""C22: the test problems are what they are documented to be."""
import math

import numpy as np
from hypothesis import strategies as st

import pySOT.optimization_problems as P
from pySOT.optimization_problems import OptimizationProblem
from pySOT.utils import check_opt_prob

from ..core import Violation, require
from ..gen import seeds

CASES = {"quick": 80000, "thorough": 800000}
RULE = (
    "generated problem (all 19), dimension 1-30, and points (random in the domain, on its boundary, lattice points, near the stored "
    "minimizer, vertices, outside), compared with independent scalar implementations of the published formulas; the lower bound is "
    "also attacked by a pattern search from generated points; non-trivial: a point with no two equal coordinates was judged"
)


def ackley(x):
    n = len(x)
    return (-20 * math.exp(-0.2 * math.sqrt(sum(v * v for v in x) / n)) - math.exp(sum(math.cos(2 * math.pi * v) for v in x) / n)
            + 20 + math.e)


def branin(x):
    a, b = x
    return (b - 5.1 / (4 * math.pi ** 2) * a * a + 5 / math.pi * a - 6) ** 2 + 10 * (1 - 1 / (8 * math.pi)) * math.cos(a) + 10


def exponential(x):
    return sum(math.exp(j * v) - math.exp(-5.12 * j) for j, v in enumerate(x, 1))


def goldstein(x):
    a, b = x
    return ((1 + (a + b + 1) ** 2 * (19 - 14 * a + 3 * a * a - 14 * b + 6 * a * b + 3 * b * b))
            * (30 + (2 * a - 3 * b) ** 2 * (18 - 32 * a + 12 * a * a + 48 * b - 36 * a * b + 27 * b * b)))


def griewank(x):
    p = 1.0
    for j, v in enumerate(x, 1):
        p *= math.cos(v / math.sqrt(j))
    return 1 + sum(v * v for v in x) / 4000 - p


ALPHA = [1.0, 1.2, 3.0, 3.2]
A3 = [[3, 10, 30], [0.1, 10, 35], [3, 10, 30], [0.1, 10, 35]]
P3 = [[3689, 1170, 2673], [4699, 4387, 7470], [1091, 8732, 5547], [381, 5743, 8828]]
A6 = [[10, 3, 17, 3.5, 1.7, 8], [0.05, 10, 17, 0.1, 8, 14], [3, 3.5, 1.7, 10, 17, 8], [17, 8, 0.05, 10, 0.1, 14]]
P6 = [[1312, 1696, 5569, 124, 8283, 5886], [2329, 4135, 8307, 3736, 1004, 9991], [2348, 1451, 3522, 2883, 3047, 6650],
      [4047, 8828, 8732, 5743, 1091, 381]]


def hartmann(A, Q):
    return lambda x: -sum(a * math.exp(-sum(r * (v - 1e-4 * q) ** 2 for r, v, q in zip(row, x, qq))) for a, row, qq in zip(ALPHA, A, Q))


def himmelblau(x):
    return sum(v ** 4 - 16 * v ** 2 + 5 * v for v in x) / (2 * len(x))


def levy(x):
    w = [1 + (v - 1) / 4 for v in x]
    return (math.sin(math.pi * w[0]) ** 2 + sum((v - 1) ** 2 * (1 + 10 * math.sin(math.pi * v + 1) ** 2) for v in w[:-1])
            + (w[-1] - 1) ** 2 * (1 + math.sin(2 * math.pi * w[-1]) ** 2))


def michalewicz(x):
    return -sum(math.sin(v) * math.sin(j * v * v / math.pi) ** 20 for j, v in enumerate(x, 1))


def perm(x):
    return sum(sum((j + 10) * (v ** i - (1 / j) ** i) for j, v in enumerate(x, 1)) ** 2 for i in range(1, len(x) + 1))


def rastrigin(x):
    return 10 * len(x) + sum(v * v - 10 * math.cos(2 * math.pi * v) for v in x)


def rosenbrock(x):
    return sum(100 * (x[i + 1] - x[i] ** 2) ** 2 + (1 - x[i]) ** 2 for i in range(len(x) - 1))


def schwefel(x):
    return 418.9829 * len(x) - sum(v * math.sin(math.sqrt(abs(v))) for v in x)


def camel(x):
    a, b = x
    return (4 - 2.1 * a * a + a ** 4 / 3) * a * a + a * b + (-4 + 4 * b * b) * b * b


def sphere(x):
    return sum(v * v for v in x)


def sumsq(x):
    return sum(j * v * v for j, v in enumerate(x, 1))


def weierstrass(x):
    f0 = sum(2.0 ** -k * math.cos(math.pi * 3 ** k) for k in range(12))
    s = sum(2.0 ** -k * math.cos(2 * math.pi * 3 ** k * (v + 0.5)) for k in range(12) for v in x)
    return 10 * (s / len(x) - f0) ** 3


def zakharov(x):
    s = sum(0.5 * j * v for j, v in enumerate(x, 1))
    return sphere(x) + s ** 2 + s ** 4


# name: formula, fixed dimension, documented box, tolerance of the stored minimum (digits given in the documentation)
TABLE = {
    "Ackley": (ackley, None, (-15, 20), 1e-9),
    "Branin": (branin, 2, None, 1e-5),
    "Exponential": (exponential, None, (-5.12, 5.12), 1e-9),
    "GoldsteinPrice": (goldstein, 2, None, 1e-9),
    "Griewank": (griewank, None, (-512, 512), 1e-9),
    "Hartmann3": (hartmann(A3, P3), 3, None, 1e-4),
    "Hartmann6": (hartmann(A6, P6), 6, None, 1e-4),
    "Himmelblau": (himmelblau, None, None, 1e-6),
    "Levy": (levy, None, None, 1e-9),
    "Michalewicz": (michalewicz, None, (0, math.pi), None),
    "Perm": (perm, None, None, 1e-9),
    "Rastrigin": (rastrigin, None, (-5.12, 5.12), 1e-9),
    "Rosenbrock": (rosenbrock, None, (-2.048, 2.048), 1e-9),
    "Schwefel": (schwefel, None, (-512, 512), None),
    "SixHumpCamel": (camel, 2, None, 1e-4),
    "Sphere": (sphere, None, (-5.12, 5.12), 1e-9),
    "SumOfSquares": (sumsq, None, None, 1e-9),
    "Weierstrass": (weierstrass, None, None, 1e-9),
    "Zakharov": (zakharov, None, None, 1e-9),
}


@st.composite
def cases(draw, tier):
    c = dict(name=draw(st.sampled_from(sorted(TABLE))), seed=draw(seeds))
    fixed = TABLE[c["name"]][1]
    c["dim"] = fixed or draw(st.one_of(st.integers(1, 4), st.integers(1, 30), st.just(10)))
    c["default"] = fixed is not None or (c["dim"] == 10 and draw(st.booleans()))
    c["at"] = draw(st.sampled_from(["random", "random", "edge", "lattice", "near", "vertex", "search", "wrong"]))
    c["off"] = draw(st.sampled_from([-1, 1, 2, -2, 5]))
    return c


def finite(f, name, x):
    require(np.ndim(f) == 0 and np.isfinite(float(f)) and not isinstance(f, complex), "%s returns %r at %s", name, f, x)
    return float(f)


def run(case, stats):
    name, d = case["name"], case["dim"]
    stats.label(name)
    ref, fixed, dbox, mintol = TABLE[name]
    prob = getattr(P, name)() if case["default"] else getattr(P, name)(dim=d)
    rng = np.random.RandomState(case["seed"])
    require(isinstance(prob, OptimizationProblem), "not an OptimizationProblem")
    check_opt_prob(prob)
    require(prob.dim == d and isinstance(prob.dim, int), "dim is %r", prob.dim)
    lb, ub = np.array(prob.lb, dtype=float), np.array(prob.ub, dtype=float)
    require(lb.shape == (d,) and ub.shape == (d,) and np.all(lb < ub) and np.all(np.isfinite(lb) & np.isfinite(ub)), "bounds %s %s", lb, ub)
    if dbox is not None:
        require(np.allclose(lb, dbox[0], rtol=1e-12) and np.allclose(ub, dbox[1], rtol=1e-12), "bounds [%s, %s], documented %s", lb, ub, dbox)
    require(len(prob.int_var) == 0 and sorted(prob.cont_var) == list(range(d)), "variables %s %s", prob.int_var, prob.cont_var)
    if name == "Schwefel":
        mintol = 1.2e-4 * d  # the constant of the formula is documented with four and with six digits
    if case["at"] == "wrong":
        n = d + case["off"]
        if n < 0:
            n = d + 1
        x = lb[0] + rng.rand(n) * (ub[0] - lb[0])
        try:
            prob.eval(x)
        except ValueError:
            stats.nontrivial = True
            return
        raise Violation("%s of dimension %d evaluates a point of dimension %d" % (name, d, n))
    xmin = None
    if mintol is not None:
        xmin, fmin = np.array(prob.minimum, dtype=float), float(prob.min)
        require(xmin.shape == (d,) and np.all(xmin >= lb) and np.all(xmin <= ub), "the minimizer %s is not in the domain", xmin)
        f = finite(prob.eval(xmin.copy()), name, xmin)
        require(abs(f - fmin) <= mintol, "value %r at the stored minimizer, stored minimum %r", f, fmin)
    else:
        require(getattr(prob, "minimum", None) is None, "a minimizer is stored")
    U = rng.rand(4, d)
    if case["at"] == "edge":
        U = np.where(rng.rand(4, d) < 0.5, np.round(U), U)
    elif case["at"] == "vertex":
        U = np.round(U)
    X = lb + U * (ub - lb)
    if case["at"] == "lattice":
        X = np.clip(np.round(X), lb, ub)
    if case["at"] == "near" and xmin is not None:
        X = np.clip(xmin + 10.0 ** rng.uniform(-8, 0) * (ub - lb) * rng.randn(4, d), lb, ub)
    if case["at"] == "search":
        X = X[:1]

    def value(x):
        keep = x.copy()
        f = finite(prob.eval(x), name, x)
        require(np.array_equal(x, keep), "the argument was modified")
        with np.errstate(all="ignore"):
            want = ref([float(v) for v in keep])
        mag = magnitude(name, keep)
        allow = 1e-9 * abs(want) + 1e-11 * mag
        if name == "Schwefel":
            allow += 1.2e-4 * d
        require(abs(f - want) <= allow, "%s(%s) = %r, the formula gives %r", name, keep, f, want)
        if mintol is not None:
            require(f >= fmin - mintol - 1e-11 * mag, "%s(%s) = %r is below the stored minimum %r", name, keep, f, fmin)
        return f

    for x in X:
        f = value(x)
        require(finite(prob.eval(x.copy()), name, x) == f, "not deterministic")
        if case["at"] == "lattice" and np.array_equal(x, np.round(x)) and (name != "Perm" or d <= 10):  # larger powers overflow
            g = finite(prob.eval(x.astype(np.int64)), name, x)
            require(abs(g - f) <= 1e-12 * (abs(f) + magnitude(name, x)), "%s(%s) = %r, but %r for an array of integers", name, x, f, g)
            stats.label("integer array")
        if case["at"] == "search":
            step = 0.3 * (ub - lb)
            for k in range(60):
                y = np.clip(x + step * rng.randn(d) * (rng.rand(d) < max(0.3, 1.0 / d)), lb, ub)
                g = value(y)
                if g < f:
                    x, f = y, g
                elif k % 3 == 0:
                    step *= 0.8
        stats.nontrivial |= len(np.unique(x)) == d
    require(np.array_equal(lb, prob.lb) and np.array_equal(ub, prob.ub), "the bounds were modified")


def magnitude(name, x):
    """Size of the terms that are added, for rounding errors."""
    a = np.abs(x)
    d = len(x)
    if name == "Perm":
        j = np.arange(1, d + 1)
        s = 0.0
        for i in range(1, d + 1):
            s += ((j + 10) @ (a ** i + 1)) ** 2
        return 1 + s
    if name == "Exponential":
        return 1 + np.exp(np.minimum(700, np.arange(1, d + 1) * x)).sum()
    if name == "Zakharov":
        s = 0.5 * (np.arange(1, d + 1) * a).sum()
        return 1 + (a ** 2).sum() + s ** 2 + s ** 4
    if name == "GoldsteinPrice":
        return 1e8
    if name == "Weierstrass":
        return 1e6  # high frequencies
    return 1e3 + (a ** 4).sum() + d * 100
