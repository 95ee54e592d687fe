"""C12: derivatives are consistent with values."""
import numpy as np
from hypothesis import strategies as st

from ..core import require
from ..gen import seeds
from ..surref import (KERNELS, TAILS, VALUES, TRANSFORMS, RefRBF, domain, from_unit, make_rbf, rbf_kind, ref_kernel, tail_cols,
                      unit_points, values)
from .c11 import close

CASES = {"quick": 16000, "thorough": 300000}
RULE = (
    "generated RBF (kernel, tail, eta, domain, data added in increments) whose gradient is compared at random points and at "
    "data points with the gradient of an independent dense solve and with central differences of predict; and generated "
    "distance matrices/points for the kernels and tails; non-trivial: non-constant data, or any kernel/tail case"
)


@st.composite
def cases(draw, tier):
    if draw(st.integers(0, 3)) == 0:
        return dict(what="parts", kernel=draw(st.sampled_from(["cubic", "tps", "linear"])), dim=draw(st.integers(1, 6)),
                    n=draw(st.integers(1, 6)), m=draw(st.integers(1, 6)), seed=draw(seeds),
                    zeros=draw(st.sampled_from([0.0, 0.0, 0.3, 1.0])), scale=draw(st.sampled_from([1.0, 1e-3, 10.0])))
    large = draw(st.integers(0, 39)) == 39  # more variables and more points than small cases reach
    lb, ub = draw(domain(10, mindim=3) if large else domain(4 if tier == "quick" else 6))
    kernel, tail = draw(rbf_kind())
    if draw(st.integers(0, 9)) == 0:
        kernel, tail = "default", None
    return dict(what="rbf", lb=lb, ub=ub, kernel=kernel, tail=tail, eta=draw(st.sampled_from([0.0, 1e-6, 1e-6, 1e-3, 0.1])),
                seed=draw(seeds), pts=draw(st.sampled_from(["uniform", "uniform", "edge", "grid"])), n=draw(st.integers(40, 150) if large else st.integers(0, 14)),
                split=draw(st.booleans()), values=draw(st.sampled_from([v for v in VALUES])), nq=draw(st.integers(1, 30 if large else 5)),
                transform=draw(st.sampled_from([None, None, "median"])))


def parts(case, stats):
    rng = np.random.RandomState(case["seed"])
    cls, phi, dphi = KERNELS[case["kernel"]]
    k = cls()
    R = case["scale"] * rng.rand(case["n"], case["m"]) + (1e-8 if case["zeros"] == 0 else 0)
    R[rng.rand(*R.shape) < case["zeros"]] = 0.0
    keep = R.copy()
    e, d = np.array(k.eval(R)), np.array(k.deriv(R))
    require(np.array_equal(R, keep), "%s kernel modifies its input", case["kernel"])
    close(e, phi(keep), 1e-12 * max(1.0, np.max(np.abs(e))), "%s kernel value" % case["kernel"])
    close(d, dphi(keep), 1e-12 * max(1.0, np.max(np.abs(d))), "%s kernel derivative" % case["kernel"])
    B = case["scale"] * (0.1 + rng.rand(case["n"], case["m"]))
    h = 1e-5 * case["scale"]
    fd = (np.array(k.eval(B + h)) - np.array(k.eval(B - h))) / (2 * h)
    d = np.array(k.deriv(B))
    close(d, fd, 1e-6 * max(case["scale"] ** 2, np.max(np.abs(d))) + 1e-9, "%s kernel deriv vs differences" % case["kernel"])
    dim = case["dim"]
    for name, T in TAILS.items():
        t = T(dim)
        X = rng.randn(case["n"], dim)
        keep = X.copy()
        P = np.array(t.eval(X))
        require(np.array_equal(X, keep), "%s tail modifies its input", name)
        close(P, tail_cols(name, keep), 1e-12 * max(1, np.abs(keep).max()), "%s tail value" % name)
        require(t.dim_tail == P.shape[1], "%s tail: dim_tail=%s", name, t.dim_tail)
        x = X[0] if case["seed"] % 2 else X[:1]
        J = np.array(t.deriv(x))
        require(np.array_equal(X, keep), "%s tail's deriv modifies its input", name)
        require(J.shape == (dim, t.dim_tail), "%s tail: deriv has shape %s", name, J.shape)
        h = 1e-3
        for i in range(dim):
            e = np.zeros((1, dim))
            e[0, i] = h
            x2 = np.atleast_2d(keep[0])
            fd = (np.array(t.eval(x2 + e)) - np.array(t.eval(x2 - e))).ravel() / (2 * h)
            close(J[i], fd, 1e-8 * max(1.0, np.abs(keep).max()), "%s tail: derivative by coordinate %d" % (name, i))
        for bad in (dim + 1, dim - 1):
            if bad > 0:
                for fn in (t.eval, t.deriv):
                    try:
                        fn(np.zeros((1, bad)))
                    except ValueError:
                        continue
                    require(False, "%s tail accepts a point of dimension %d instead of %d", name, bad, dim)
    stats.label("kernel and tails: " + case["kernel"])
    stats.nontrivial = True


def run(case, stats):
    if case["what"] == "parts":
        return parts(case, stats)
    lb, ub = np.array(case["lb"]), np.array(case["ub"])
    dim = len(lb)
    kernel, tail = ref_kernel(case)
    n = (1 + dim if tail == "linear" else 1) + case["n"]
    U = unit_points(case["seed"], dim, n, case["pts"], {1: 0.02, 2: 0.04}.get(dim, 0.08))
    sv = np.linalg.svd(tail_cols(tail, U), compute_uv=False)
    if len(sv) < (1 + dim if tail == "linear" else 1) or sv[-1] < 1e-2 * sv[0]:
        stats.label("degenerate data skipped")
        return
    X, f = from_unit(U, lb, ub), values(case["seed"], U, case["values"])
    fd_ = TRANSFORMS[case["transform"]][1](f)
    s = make_rbf(case)
    k = max(len(U) // 2, 1 + dim)
    first = np.linalg.svd(tail_cols(tail, U[:k]), compute_uv=False)  # nearly degenerate first points lose digits
    if case["split"] and k < len(U) and first[-1] >= 1e-2 * first[0]:
        s.add_points(X[:k], f[:k])
        s.predict(X[0])
        s.add_points(X[k:], f[k:])
        stats.label("incremental fit")
    else:
        s.add_points(X, f)
    ref = RefRBF(kernel, tail, case["eta"], lb, ub, X, fd_)
    rng = np.random.RandomState(case["seed"] + 2)
    V = rng.rand(case["nq"], dim) * 1.2 - 0.1
    if kernel != "linear":  # the linear kernel has no derivative at the data points
        V = np.vstack((V, U[:2]))
        V = V[rng.permutation(len(V))]
    else:
        r = np.sqrt(((V[:, None] - U[None]) ** 2).sum(axis=2)).min(axis=1)
        V = V[r > 2e-3]
        # close to the data points, where the gradient turns quickly but exists
        near = rng.rand(3, dim) - 0.5
        near *= 10.0 ** rng.uniform(-5.5, -2.5, size=(3, 1)) / np.linalg.norm(near, axis=1)[:, None]
        V = np.vstack((V, U[rng.randint(len(U), size=3)] + near))
    Q = from_unit(V, lb, ub)
    keep = Q.copy()
    g = np.array(s.predict_deriv(Q))
    require(np.array_equal(Q, keep), "predict_deriv modifies its input")
    require(g.shape == (len(Q), dim), "gradient of %d points has shape %s", len(Q), g.shape)
    w = ub - lb
    tol = 10 * ref.tol(Q) * np.ones((len(Q), 1))
    if kernel == "linear":  # the direction to a close data point loses digits if the domain is far from the origin
        V = (Q - lb) / w
        r = np.sqrt(((V[:, None] - U[None]) ** 2).sum(axis=2)).min(axis=1)
        tol += (4e-15 * (1 + np.max(np.maximum(np.abs(lb), np.abs(ub)) / w)) * ref.scale / np.maximum(r, 1e-300))[:, None]
    close(g * w, ref.grad(Q) * w, tol, "gradient (unit-box coordinates)")
    g1 = np.array(s.predict_deriv(Q[0]))
    require(g1.size == dim, "gradient of one point has shape %s", g1.shape)
    close(g1.ravel() * w, g[0] * w, tol[0], "gradient of a single point")
    if kernel == "cubic" or len(V) == case["nq"]:  # second derivatives are bounded enough for differences
        h = 1e-5
        sc = max(1.0, np.max(np.abs(ref.coef[ref.m:])) * len(U) + np.max(np.abs(ref.coef)))
        near = np.sqrt(((V[:, None] - U[None]) ** 2).sum(axis=2)).min(axis=1)
        for i in range(dim):
            e = np.zeros(dim)
            e[i] = h * w[i]
            d = (np.array(s.predict(Q + e)) - np.array(s.predict(Q - e))).ravel() / (2 * h)
            ok = (near > 1e-2) | (kernel == "cubic")
            close((g[:, i] * w[i])[ok], d[ok], 1e-6 * sc + 1e-9 * ref.scale / 1e-2, "gradient vs differences of predict")
    stats.label(kernel + "/" + tail)
    stats.nontrivial = case["values"] != "const" and case["n"] > 0
