"""C19: experimental designs have their defining structure."""
import itertools

import numpy as np
from hypothesis import strategies as st
from scipy.spatial.distance import cdist

from pySOT.experimental_design import LatinHypercube, SymmetricLatinHypercube, TwoFactorial

from ..core import Discard, Violation, require
from ..gen import box, seeds

CASES = {"quick": 24000, "thorough": 250000}
RULE = (
    "generated dimension, number of points, iterations, domain (none, one bound only, continuous, mixed, integer with fractional "
    "bounds) and unusable requests (fewer points than dimensions, fewer integers than points, too large two-factorial designs); "
    "whether the best of the iterations is kept is decided against the exhaustively enumerated small symmetric designs and against "
    "the quantiles of designs from one iteration; non-trivial: a design of at least four points was judged"
)


@st.composite
def cases(draw, tier):
    what = draw(st.sampled_from(["slhd"] * 6 + ["lhd"] * 6 + ["tf"] * 2 + ["bad"] * 2 + ["best", "best", "bestlhd"]))
    c = dict(what=what, seed=draw(seeds))
    large = draw(st.integers(0, 39)) == 39  # more variables and more points than small cases reach
    large = large and what in ("slhd", "lhd")
    c["lb"], c["ub"], c["int"] = draw(box(12, min_int_width=1, mindim=4) if large else box(5, min_int_width=1))
    c["domain"] = draw(st.sampled_from(["none", "full", "full", "full", "half"]))
    c["intkind"] = draw(st.sampled_from(["array", "list"]))
    d = len(c["lb"])
    if what == "tf":
        extra = draw(st.integers(0, 5))
        for _ in range(extra):
            c["lb"].append(-1.0)
            c["ub"].append(2.0)
    elif what == "bad":
        c["kind"] = draw(st.sampled_from(["few", "few", "ints", "tf"]))
        c["design"] = draw(st.sampled_from(["slhd", "lhd"]))
        c["npts"] = draw(st.integers(2, 8))
        c["iters"] = draw(st.integers(1, 30))
        if c["kind"] == "few":
            c["lb"], c["ub"], c["int"] = [0.0] * (c["npts"] + d), [1.0 + k for k in range(c["npts"] + d)], []
        if c["kind"] == "ints":
            width = draw(st.integers(1, 3))
            c["lb"], c["ub"], c["int"] = [2.0] * d, [2.0 + width] * d, list(range(d))
            c["npts"] = (width + 1) ** d + draw(st.integers(1, 5))
    elif what == "best":
        c["npts"], k = draw(st.sampled_from([(4, 2), (5, 2), (6, 2), (4, 3), (5, 3), (8, 2)]))
        lb, ub, ints = draw(box(3, min_int_width=8).filter(lambda b: len(b[0]) >= 2))
        while len(lb) < k:
            lb, ub = lb + [0.0], ub + [1.0]
        c["lb"], c["ub"], c["int"] = lb[:k], ub[:k], [i for i in ints if i < k]
    elif what == "bestlhd":
        c["lb"], c["ub"], c["int"] = draw(box(3))
        c["npts"] = len(c["lb"]) + draw(st.integers(2, 8))
    else:
        c["npts"] = draw(st.integers(2 * (d + 1), 130) if large else st.one_of(st.integers(2, 14), st.integers(2 * (d + 1), 30)))
        c["iters"] = draw(st.sampled_from([1, 1, 2, 10]))
    return c


def near_round(v, lo, hi):
    """Possible closest integers inside the bounds."""
    a, b = np.ceil(lo), np.floor(hi)
    res = set()
    for e in (-1e-9, 0.0, 1e-9):
        res.add(float(min(max(np.floor(v + 0.5 + e), a), b)))
        res.add(float(min(max(np.ceil(v - 0.5 + e), a), b)))
    return res


def judge_mapped(name, X, U01, lb, ub, ints):
    """Levels of every coordinate; U01 gives the range of the k-th smallest unit value."""
    n = len(X)
    for j in range(X.shape[1]):
        col = np.sort(X[:, j])
        w = ub[j] - lb[j]
        lo, hi = lb[j] + w * U01[0], lb[j] + w * U01[1]
        if j in ints:
            require(np.array_equal(col, np.round(col)) and col[0] >= lb[j] and col[-1] <= ub[j],
                    "%s: integer coordinate %d has the values %s in [%s, %s]", name, j, col, lb[j], ub[j])
            for k in range(n):
                a, b = min(near_round(lo[k], lb[j], ub[j])), max(near_round(hi[k], lb[j], ub[j]))
                require(a <= col[k] <= b, "%s: integer coordinate %d, value %d is %s, expected in [%s, %s]", name, j, k, col[k], a, b)
        else:
            tol = 1e-12 * (abs(lb[j]) + abs(ub[j]))
            bad = np.where((col < lo - tol) | (col > hi + tol))[0]
            require(len(bad) == 0, "%s: coordinate %d: sorted value %s is not in its slice", name, j, bad[:1])


def judge_symmetry(X, lb, ub, ints):
    cont = [j for j in range(X.shape[1]) if j not in ints]
    if not cont:
        return
    j0 = cont[0]  # levels are distinct, so the partner is unique
    order = np.argsort(X[:, j0])
    for k, i in enumerate(order):
        p = order[len(order) - 1 - k]
        for j in range(X.shape[1]):
            gap = abs(X[i, j] + X[p, j] - lb[j] - ub[j])
            if j in ints:
                room = 1.0 + (abs(np.ceil(lb[j]) - lb[j]) + abs(np.floor(ub[j]) - ub[j]))
            else:
                room = 1e-12 * (1 + abs(lb[j]) + abs(ub[j]))
            require(gap <= room + 1e-9 * (j in ints), "points %s and %s are not symmetric in coordinate %d", X[i], X[p], j)


def judge_common(name, X, n, d):
    require(isinstance(X, np.ndarray) and X.shape == (n, d), "%s: shape %s instead of %s", name, np.shape(X), (n, d))
    require(bool(np.isfinite(X).all()), "%s: not finite", name)
    require(len({tuple(r) for r in X}) == n, "%s: points are not distinct", name)
    require(np.linalg.matrix_rank(X) == d, "%s: rank deficient", name)


def domain_args(case):
    lb, ub = np.array(case["lb"], dtype=float), np.array(case["ub"], dtype=float)
    iv = np.array(case["int"], dtype=int) if case["intkind"] == "array" else [int(i) for i in case["int"]]
    kind = case["domain"]
    if kind == "none":
        kw = {}
    elif kind == "half":
        kw = dict(int_var=iv)
        kw.update(dict(lb=lb) if case["seed"] % 2 else dict(ub=ub))
    else:
        kw = dict(lb=lb, ub=ub, int_var=iv)
        if not case["int"] and case["seed"] % 2:
            kw["int_var"] = None
    return lb, ub, kw


def may_be_refused(case, n):
    """One design can be rank deficient, and an integer grid may not have room for the points."""
    d = len(case["lb"])
    if n < 2 * (d + 1) or case["iters"] < 10:
        return True
    if case["domain"] != "full" or not case["int"]:
        return False
    return len(case["int"]) == d or any(case["ub"][i] - case["lb"][i] < 6 for i in case["int"])


def make(case, iters=None):
    D = SymmetricLatinHypercube if case["what"] in ("slhd", "best") else LatinHypercube
    return D(len(case["lb"]), case["npts"], iterations=case["iters"] if iters is None else iters)


def generate(des, kw):
    keep = {k: np.array(v, copy=True) for k, v in kw.items() if v is not None}
    X = des.generate_points(**kw)
    for k, v in keep.items():
        require(np.array_equal(np.asarray(kw[k]), v), "%s was modified", k)
    return X


def all_slhd(n, d):
    """Every symmetric Latin hypercube of n points up to reordering, in the unit box."""
    half = n // 2
    cols = []
    for perm in itertools.permutations(range(half)):
        for flip in itertools.product([0, 1], repeat=half):
            top = [n - 1 - p if f else p for p, f in zip(perm, flip)]
            cols.append(top + ([half] if n % 2 else []) + [n - 1 - t for t in reversed(top)])
    first = list(range(n))
    for rest in itertools.product(cols, repeat=d - 1):
        yield np.array([first] + list(rest), dtype=float).T / (n - 1)


def score(X):
    D = cdist(X, X)
    np.fill_diagonal(D, np.inf)
    return D.min()


def run(case, stats):
    what = case["what"]
    stats.label(what)
    np.random.seed(case["seed"] ^ 0x2D2D2D)
    d = len(case["lb"])
    lb, ub, kw = domain_args(case)
    ints = case["int"] if case["domain"] == "full" else []
    if case["domain"] != "full":
        lb, ub = np.zeros(d), np.ones(d)
    if what == "tf":
        des = TwoFactorial(d)
        require(des.dim == d and des.num_pts == 2 ** d, "dim %r num_pts %r", des.dim, des.num_pts)
        X = generate(des, kw)
        judge_common("two-factorial", X, 2 ** d, d)
        corners = set()
        for bits in itertools.product([0, 1], repeat=d):
            p = []
            for j, b in enumerate(bits):
                v = ub[j] if b else lb[j]
                if j in ints:
                    v = np.floor(v) if b else np.ceil(v)
                p.append(float(v))
            corners.add(tuple(p))
        tol = 1e-12 * (np.abs(lb) + np.abs(ub))
        snap = np.array(sorted(corners))
        D = np.abs(X[:, None, :] - snap[None, :, :]) <= tol
        hit = D.all(axis=2)
        require(hit.any(axis=1).all() and hit.any(axis=0).all() and len(snap) == 2 ** d, "the design is not the set of corners")
        stats.nontrivial = d >= 2
        return
    if what == "bad":
        kind = case["kind"]
        try:
            if kind == "tf":
                TwoFactorial(15 + case["npts"]).generate_points()
            elif kind == "few":
                D = SymmetricLatinHypercube if case["design"] == "slhd" else LatinHypercube
                D(d, case["npts"], iterations=case["iters"]).generate_points(**(kw if case["seed"] % 3 else {}))
            else:
                D = SymmetricLatinHypercube if case["design"] == "slhd" else LatinHypercube
                D(d, case["npts"], iterations=case["iters"]).generate_points(lb=lb if len(ints) else np.array(case["lb"]),
                                                                             ub=ub if len(ints) else np.array(case["ub"]),
                                                                             int_var=np.array(case["int"], dtype=int))
        except ValueError:
            stats.nontrivial = True
            stats.label("refused " + kind)
            return
        raise Violation("unusable request (%s) of %d points in %d dimensions was not refused" % (kind, case["npts"], d))
    n = case["npts"]
    if what == "best":
        best = -1.0
        half = n // 2
        total = 0
        count = 0
        for U in all_slhd(n, d):
            total += 1
            X = lb + U * (ub - lb)
            for i in ints:
                X[:, i] = np.clip(np.round(X[:, i]), np.ceil(lb[i]), np.floor(ub[i]))
            s = score(X)
            if s > 0 and np.linalg.matrix_rank(X) == d:
                if s > best * (1 + 1e-9):
                    best, count = s, 0
                count += s >= best * (1 - 1e-9)
        if best <= 0:
            raise Discard("no valid design")
        iters = int(np.ceil(26 * total / count)) + 1  # missing the best one has probability exp(-26)
        if iters > 4000:
            raise Discard("too expensive")
        X = generate(make(case, iters), kw)
        require(abs(score(X) - best) <= 1e-9 * best, "minimum distance %r of the best of %d designs, the best possible is %r",
                score(X), iters, best)
        judge_common("slhd", X, n, d)
        judge_symmetry(X, lb, ub, ints)
        stats.nontrivial = True
        return
    if what == "bestlhd":
        single = []
        while len(single) < 60:
            try:
                single.append(score(generate(make(case, 1), kw)))
            except ValueError:
                raise Discard("no valid design")
        q = np.sort(single)[44]  # its probability level exceeds 0.96 with probability < 1e-6
        X = generate(make(case, 600), kw)
        require(score(X) >= q, "minimum distance %r of the best of 600 designs, a quarter of the single designs reaches %r", score(X), q)
        stats.nontrivial = True
        return
    try:
        des = make(case)
        require(des.dim == d and des.num_pts == n, "dim %r num_pts %r", des.dim, des.num_pts)
        X = generate(des, kw)
    except ValueError as e:
        if may_be_refused(case, n):
            raise Discard("no valid design (%s)" % type(e).__name__)
        raise
    judge_common(what, X, n, d)
    k = np.arange(n)
    if what == "slhd":
        judge_mapped(what, X, (k / (n - 1), k / (n - 1)), lb, ub, ints)
        judge_symmetry(X, lb, ub, ints)
    else:
        judge_mapped(what, X, (k / n, (k + 1) / n), lb, ub, ints)
    stats.nontrivial = n >= 4
    stats.label("mapped" if case["domain"] == "full" else "unit box")
    if ints:
        stats.label("integer variables")
