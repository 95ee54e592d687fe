"""C11: the RBF interpolant depends only on its data and solves the RBF system."""
import numpy as np
from hypothesis import strategies as st

from ..core import require
from ..gen import seeds
from ..surref import (TRANSFORMS, VALUES, RefRBF, domain, from_unit, make_rbf, rbf_kind, ref_kernel, tail_cols, unit_points,
                      values)

CASES = {"quick": 24000, "thorough": 400000}
RULE = (
    "generated kernel/tail/eta/output transformation/domain/data set and a history of additions (single points and batches), "
    "predictions in between and resets; every prediction is compared with a dense solve of the documented system for the data "
    "added so far; non-trivial: at least two predictions separated by an addition"
)
ASSUMPTIONS = ["data sets with at least as many points as tail functions; comparison tolerance proportional to the condition number"]


@st.composite
def cases(draw, tier):
    large = draw(st.integers(0, 39)) == 39  # more variables and more points than small cases reach
    lb, ub = draw(domain(10, mindim=3) if large else domain(4 if tier == "quick" else 7))
    dim = len(lb)
    kernel, tail = draw(rbf_kind())
    if draw(st.integers(0, 7)) == 0:
        kernel, tail = "default", None
    ops = []
    for _ in range(draw(st.integers(2, 10 if tier == "quick" else 25))):
        k = draw(st.integers(0, 9))
        if k <= 3:
            ops.append(["add", draw(st.integers(1, 30 if large else 5))])
        elif k <= 8:
            ops.append(["predict", draw(seeds)])
        else:
            ops.append(["reset", 0])
    ops.append(["predict", draw(seeds)])
    eta = draw(st.sampled_from([0.0, 1e-6, 1e-6, 1e-6, 1e-3, 0.1, 1.0]))
    pts = draw(st.sampled_from(["uniform", "uniform", "edge", "grid", "dup"]))
    if pts == "dup":
        eta = max(eta, 1e-6)
    return dict(lb=lb, ub=ub, kernel=kernel, tail=tail, eta=eta, ops=ops, seed=draw(seeds), pts=pts,
                first=draw(st.integers(40, 150) if large else st.integers(0, 12)), values=draw(st.sampled_from(VALUES)), order=draw(st.booleans()),
                transform=draw(st.sampled_from([None, None, "median", "inplace", "affine"])))


def close(a, b, tol, what):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    require(a.shape == b.shape, "%s: shape %s, expected %s", what, a.shape, b.shape)
    err = np.max(np.abs(a - b)) if a.size else 0.0
    require(np.all(np.abs(a - b) <= tol), "%s: differs by %.3g (tolerance %.3g), got %s, expected %s", what, err, np.max(tol),
            a.ravel()[:4], b.ravel()[:4])
    return err


def run(case, stats):
    lb, ub = np.array(case["lb"]), np.array(case["ub"])
    dim = len(lb)
    kernel, tail = ref_kernel(case)
    ntail = 1 + dim if tail == "linear" else 1
    nadd = sum(a for o, a in case["ops"] if o == "add")
    total = ntail + case["first"] + nadd
    sep = {1: 0.01, 2: 0.03}.get(dim, 0.05)
    U = unit_points(case["seed"], dim, total, case["pts"], sep)
    total = len(U)
    X = from_unit(U, lb, ub)
    f = values(case["seed"], U, case["values"])
    s = make_rbf(case)
    ref_f = TRANSFORMS[case["transform"]][1]
    pos, start = 0, 0
    fits = 0
    changed = True

    def add(k):
        nonlocal pos
        k = min(k, total - pos)
        if k == 1:
            s.add_points(X[pos], f[pos])
        elif k > 1:
            s.add_points(X[pos: pos + k], f[pos: pos + k, None])
        pos += k

    add(ntail + case["first"])
    for op, arg in case["ops"]:
        if op == "add":
            add(arg)
            changed = True
        elif op == "reset":
            s.reset()
            start = pos
            changed = True
        elif pos - start >= ntail:
            D, fd = X[start:pos], ref_f(f[start:pos])
            P = tail_cols(tail, U[start:pos])
            sv = np.linalg.svd(P, compute_uv=False)
            if sv[-1] < 1e-3 * sv[0]:
                stats.label("degenerate data skipped")
                return
            ref = RefRBF(kernel, tail, case["eta"], lb, ub, D, fd)
            rng = np.random.RandomState(arg)
            Q = from_unit(rng.rand(6, dim) * 1.4 - 0.2, lb, ub)
            Q = np.vstack((Q, D[rng.permutation(len(D))[:3]]))
            tol = ref.tol(Q)
            got = s.predict(Q)
            close(got, ref.predict(Q)[:, None], tol, "prediction with %d points" % len(D))
            if case["values"] == "linear" and case["transform"] is None and tail == "linear":
                rng2 = np.random.RandomState(case["seed"] + 1)
                coef = rng2.randn(dim)
                want = 2.0 + ((Q - lb) / (ub - lb)) @ coef
                close(got, want[:, None], tol, "linear function reproduced")
            if case["values"] == "const" and case["transform"] is None:
                close(got, np.full_like(got, -3.25), tol, "constant function reproduced")
            if case["order"]:
                t = make_rbf(case)
                perm = rng.permutation(len(D))
                t.add_points(D[perm], f[start:pos][perm])
                close(got, t.predict(Q), 2 * tol, "prediction does not depend on order and increments")
            fits += changed
            changed = False
            stats.label("tolerance %s 1e-6 of the scale" % ("<=" if tol <= 1e-6 * ref.scale else ">"))
    stats.label(kernel + "/" + tail)
    stats.label("transform %s" % case["transform"])
    stats.nontrivial = fits >= 2
