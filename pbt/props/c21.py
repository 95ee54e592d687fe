"""C21: box maps, rescaling and rounding are exact inverses and projections."""
import numpy as np
from hypothesis import strategies as st

from pySOT.utils import from_unit_box, round_vars, to_unit_box, unit_rescale

from ..core import require
from ..gen import seeds

CASES = {"quick": 120000, "thorough": 1000000}
RULE = (
    "generated boxes (offsets and widths over many magnitudes), points inside, on and outside of the bounds, arrays of any shape, "
    "integer index sets in any order with fractional or infinitesimally narrow bounds and points at half integers; "
    "non-trivial: a non-constant array, at least one integer variable, or at least two points"
)


@st.composite
def cases(draw, tier):
    what = draw(st.sampled_from(["box", "rescale", "round", "round"]))
    c = dict(what=what, seed=draw(seeds))
    if what == "rescale":
        c["shape"] = draw(st.sampled_from([[1], [5], [7, 1], [1, 4], [3, 3], [2, 2, 2]]))
        c["kind"] = draw(st.sampled_from(["random", "const", "ties", "int", "big", "tiny", "neg", "two"]))
        return c
    d = draw(st.integers(1, 5))
    c["n"] = draw(st.integers(1, 6))
    c["lb"] = [draw(st.sampled_from([0.0, -1.0, -0.5, 0.25, 3.0, -20.0, 1e3, -1e6, 1e-3, 2.5, 7.9])) for _ in range(d)]
    c["w"] = [draw(st.sampled_from([1.0, 2.0, 0.5, 10.0, 1e-3, 1e4, 3.3, 1.4, 5.0])) for _ in range(d)]
    c["at"] = draw(st.sampled_from(["inside", "inside", "edge", "outside", "half"]))
    c["oned"] = draw(st.booleans())
    if what == "round":
        c["lb"] = [v if abs(v) < 1e5 else -4.5 for v in c["lb"]]
        c["w"] = [max(v, 1.0) for v in c["w"]]  # the bounds contain an integer
        c["int"] = draw(st.lists(st.integers(0, d - 1), unique=True, max_size=d))
        c["kind"] = draw(st.sampled_from(["array", "list"]))
        c["order"] = draw(st.sampled_from(["C", "F"]))
    return c


def run(case, stats):
    rng = np.random.RandomState(case["seed"])
    what = case["what"]
    stats.label(what)
    if what == "rescale":
        s = tuple(case["shape"])
        x = {"random": lambda: rng.randn(*s), "const": lambda: np.full(s, -3.7), "ties": lambda: np.round(rng.randn(*s)),
             "int": lambda: rng.randint(-5, 6, s), "big": lambda: 1e12 + 1e3 * rng.randn(*s), "tiny": lambda: 1e-9 * rng.randn(*s),
             "neg": lambda: -5 - rng.rand(*s), "two": lambda: rng.randint(0, 2, s) * 4.0}[case["kind"]]()
        keep = x.copy()
        y = unit_rescale(x)
        require(np.array_equal(x, keep), "the array was modified")
        require(y.shape == x.shape, "shape %s became %s", x.shape, y.shape)
        f, g = x.astype(float).ravel(), np.asarray(y, dtype=float).ravel()
        lo, hi = f.min(), f.max()
        if lo == hi:
            require(np.all(g == 1.0), "a constant array becomes %s", g)
            return
        require(g.min() == 0.0 and g.max() == 1.0, "range [%r, %r]", g.min(), g.max())
        tol = 1e-12 + 8 * np.finfo(float).eps * max(abs(lo), abs(hi)) / (hi - lo)
        require(np.all(np.abs(g - (f - lo) / (hi - lo)) <= tol), "not the affine map onto [0, 1]: %s -> %s", f, g)
        o = np.argsort(f)
        require(np.all(np.diff(g[o]) >= 0), "not increasing")
        stats.nontrivial = True
        return
    lb = np.array(case["lb"])
    ub = lb + np.array(case["w"])
    d, n = len(lb), case["n"]
    U = rng.rand(n, d)
    if case["at"] == "edge":
        U = np.round(U)
    if case["at"] == "outside":
        U = 3 * U - 1
    if what == "box":
        if case["oned"]:
            U = U[0]
        keep = U.copy(), lb.copy(), ub.copy()
        X = from_unit_box(U, lb, ub)
        k2 = X.copy()
        V = to_unit_box(X, lb, ub)
        require(all(np.array_equal(a, b) for a, b in zip((U, lb, ub, X), keep + (k2,))), "an argument was modified")
        require(X.shape == U.shape and V.shape == U.shape, "shapes %s %s %s", U.shape, X.shape, V.shape)
        eps = 16 * np.finfo(float).eps
        mag = np.abs(lb) + np.abs(ub)
        require(np.all(np.abs(X - (lb + U * (ub - lb))) <= eps * (mag + np.abs(X))), "from_unit_box is not the affine map")
        require(np.all(np.abs(V - U) <= eps * (1 + np.abs(U)) * (1 + mag / (ub - lb))), "to_unit_box does not invert from_unit_box")
        require(np.all(np.abs(from_unit_box(V, lb, ub) - X) <= 4 * eps * (mag + np.abs(X))), "from_unit_box does not invert to_unit_box")
        zero, one = to_unit_box(lb, lb, ub), to_unit_box(ub, lb, ub)
        require(np.all(zero == 0) and np.all(np.abs(one - 1) <= eps), "the bounds are sent to %s and %s", zero, one)
        a, b = from_unit_box(np.zeros(d), lb, ub), from_unit_box(np.ones(d), lb, ub)
        require(np.all(np.abs(a - lb) <= eps * mag) and np.all(np.abs(b - ub) <= eps * mag), "corners are sent to %s and %s", a, b)
        stats.nontrivial = n > 1
        return
    X = lb + U * (ub - lb)
    if case["at"] == "half":
        X = np.floor(X) + 0.5
    X = np.array(X, order=case["order"])
    iv = np.array(case["int"], dtype=int) if case["kind"] == "array" else list(case["int"])
    keep = X.copy(), np.array(iv), lb.copy(), ub.copy()
    Y = round_vars(X, iv, lb, ub)
    require(np.array_equal(np.array(iv), keep[1]) and np.array_equal(lb, keep[2]) and np.array_equal(ub, keep[3]),
            "an argument was modified")
    require(Y.shape == (n, d), "shape %s", Y.shape)
    Y = Y.copy()
    for j in range(d):
        for i in range(n):
            v, y = keep[0][i, j], Y[i, j]
            if j not in case["int"]:
                require(v == y, "continuous variable %d changed from %r to %r", j, v, y)
                continue
            lo, hi = np.ceil(lb[j]), np.floor(ub[j])
            require(y == np.floor(y) and lo <= y <= hi, "integer variable %d became %r in [%r, %r]", j, y, lb[j], ub[j])
            best = abs(np.clip(np.round(v), lo, hi) - v)
            require(abs(y - v) <= best + 1e-12 * (1 + abs(v)), "integer variable %d: %r became %r, [%r, %r]", j, v, y, lb[j], ub[j])
    Z = round_vars(Y.copy(), iv, lb, ub)
    require(np.array_equal(Z, Y), "round_vars is not idempotent")
    stats.nontrivial = len(case["int"]) > 0
    stats.label("fractional bounds", any(lb[j] % 1 or ub[j] % 1 for j in case["int"]))
