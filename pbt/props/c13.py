"""C13: surrogates do not depend on the units of the variables or of the values."""
import numpy as np
from hypothesis import strategies as st
from sklearn.gaussian_process import GaussianProcessRegressor
from sklearn.gaussian_process.kernels import RBF, ConstantKernel, Matern, WhiteKernel

from pySOT.surrogate import GPRegressor, PolyRegressor

from ..core import require
from ..gen import seeds
from ..surref import VALUES, RefGP, RefRBF, domain, from_unit, make_rbf, rbf_kind, ref_kernel, tail_cols, unit_points, values
from .c11 import close

CASES = {"quick": 8000, "thorough": 160000}
RULE = (
    "generated surrogate and data; a second surrogate gets the same data with every variable rescaled and shifted together with "
    "its bounds and/or with affinely changed values; predictions, gradients and standard deviations are compared; non-trivial: "
    "non-constant values and a transformation that is not the identity"
)


@st.composite
def cases(draw, tier):
    kind = draw(st.sampled_from(["rbf", "rbf", "rbf", "gp", "gp", "poly", "gpdefault"]))
    if kind == "gpdefault" and draw(st.integers(0, 7)):
        kind = "rbf"
    large = draw(st.integers(0, 29)) == 29  # more variables and more points than small cases reach
    lb, ub = draw(domain(9, mindim=3) if large else domain(4))
    c = dict(kind=kind, lb=lb, ub=ub, seed=draw(seeds), pts=draw(st.sampled_from(["uniform", "edge", "grid"])),
             n=draw(st.integers(40, 110) if large else st.integers(2, 12)), values=draw(st.sampled_from(VALUES)), split=draw(st.booleans()))
    c["xmap"] = [[draw(st.sampled_from([1.0, 2.0, 0.5, 1024.0, 3.0, 1e-3, 0.37, 1e4])),
                  draw(st.sampled_from([0.0, 1.0, -7.5, 1e3, 0.123]))] for _ in lb]
    c["fmap"] = [draw(st.sampled_from([1.0, 2.0, 0.5, 1e3, 0.037, 17.0, 1e6, 1e-2, 1e-3, 1e-4])), draw(st.sampled_from([0.0, 0.0, 1.0, -1e3, 55.5]))]
    if kind == "rbf":
        c["kernel"], c["tail"] = draw(rbf_kind())
        if draw(st.integers(0, 7)) == 0:
            c["kernel"], c["tail"] = "default", None
        c["eta"] = draw(st.sampled_from([0.0, 1e-6, 1e-3, 0.1]))
    if kind == "gp":
        c["kern"] = draw(st.sampled_from(["se", "se+white", "matern"]))
        c["alpha"] = draw(st.sampled_from([1e-6, 1e-3, 1e-2]))
    if kind == "poly":
        c["degree"] = draw(st.integers(1, 2 if large else 4))
    if kind == "gpdefault":  # power-of-two maps of dyadic data leave the fitted hyperparameters bitwise unchanged
        c["lb"], c["ub"] = [0.0 for _ in lb], [draw(st.sampled_from([1.0, 4.0, 64.0])) for _ in lb]
        c["pts"] = "dyadic"
        c["xmap"] = [[draw(st.sampled_from([2.0, 0.5, 1024.0, 1.0])), draw(st.sampled_from([0.0, 1.0, -8.0]))] for _ in lb]
        c["fmap"] = [draw(st.sampled_from([1.0, 2.0, 0.25, 2.0 ** 20, 2.0 ** -10, 2.0 ** -13])), 0.0]
        c["values"] = draw(st.sampled_from(["smooth", "noise", "ties"]))
    return c


def build(case, lb, ub):
    d = len(lb)
    if case["kind"] == "rbf":
        return make_rbf(dict(case, lb=lb, ub=ub))
    if case["kind"] == "poly":
        return PolyRegressor(d, lb, ub, degree=case["degree"])
    if case["kind"] == "gpdefault":
        return GPRegressor(d, lb, ub, n_restarts_optimizer=0)
    k = ConstantKernel(1.5) * RBF(0.4 * np.ones(d)) if case["kern"] != "matern" else Matern(0.5 * np.ones(d), nu=2.5)
    if case["kern"] == "se+white":
        k = k + WhiteKernel(1e-3)
    return GPRegressor(d, lb, ub, gp=GaussianProcessRegressor(kernel=k, alpha=case["alpha"], optimizer=None))


def feed(s, X, f, split):
    if split:
        s.add_points(X[:split], f[:split])
        s.predict(X[:1])
        s.add_points(X[split:], f[split:])
    else:
        s.add_points(X, f)


def run(case, stats):
    lb, ub = np.array(case["lb"]), np.array(case["ub"])
    dim = len(lb)
    n = dim + 2 + case["n"]
    rng = np.random.RandomState(case["seed"] + 3)
    if case["pts"] == "dyadic":
        U = np.unique(rng.randint(0, 65, size=(n, dim)), axis=0) / 64.0
    else:
        U = unit_points(case["seed"], dim, n, case["pts"], {1: 0.02, 2: 0.04}.get(dim, 0.08))
    f = values(case["seed"], U, case["values"])
    X = from_unit(U, lb, ub)
    m = np.array(case["xmap"])
    lb2, ub2 = m[:, 0] * lb + m[:, 1], m[:, 0] * ub + m[:, 1]
    X2 = m[:, 0] * X + m[:, 1]
    a, b = case["fmap"]
    f2 = a * f + b
    V = rng.rand(6, dim) * 1.2 - 0.1
    if case["pts"] == "dyadic":
        V = np.round(V * 64) / 64
    Q, Q2 = from_unit(V, lb, ub), m[:, 0] * from_unit(V, lb, ub) + m[:, 1]
    loss = np.max(np.maximum(np.abs(lb2), np.abs(ub2)) / (ub2 - lb2)) + np.max(np.maximum(np.abs(lb), np.abs(ub)) / (ub - lb))
    scale = np.max(np.abs(f)) + np.max(np.abs(f2)) / a + 1e-300
    if case["kind"] == "rbf":
        k, t = ref_kernel(case)
        sv = np.linalg.svd(tail_cols(t, U), compute_uv=False)
        if sv[-1] < 1e-2 * sv[0]:
            return
        ref = RefRBF(k, t, case["eta"], lb, ub, X, f)
        # the values only differ by an affine map, but rounding acts on values as large as `scale`
        tol = (ref.tol(Q) / ref.scale + 1e3 * 2.3e-16 * loss * ref.cond) * (ref.scale + scale)
        tolg = 20 * tol
    elif case["kind"] == "gp":
        ref = RefGP(1.5, 0.4 * np.ones(dim), 0.0, case["alpha"], lb, ub, X, f)
        tol = 1e-9 * scale * max(1.0, 1e-3 / case["alpha"]) * max(1.0, loss)
        if case["values"] != "const" and f.std() < 1e-9 * scale:
            return
    elif case["kind"] == "gpdefault":
        tol = 1e-9 * scale
    else:
        tol = 1e-10 * scale * max(1.0, loss) * 1e2
    split = len(U) // 2 if case["split"] and len(U) // 2 > dim + 1 else 0
    sv = np.linalg.svd(tail_cols("linear", U[:split]), compute_uv=False) if split else [1.0]
    if sv[-1] < 1e-2 * sv[0]:  # these points alone do not determine a surrogate
        split = 0
    s, s2, s3 = build(case, lb, ub), build(case, lb2, ub2), build(case, lb, ub)
    feed(s, X, f, split)
    feed(s2, X2, f, split)
    feed(s3, X, f2, split)
    p, p2, p3 = np.array(s.predict(Q)), np.array(s2.predict(Q2)), np.array(s3.predict(Q))
    close(p2, p, tol, "prediction after a change of the variables' units")
    close(p3 / a, (a * p + b) / a, tol, "prediction after an affine change of the values")
    if case["kind"] == "rbf":
        near = np.sqrt(((V[:, None] - U[None]) ** 2).sum(axis=2)).min(axis=1) > 1e-2
        if near.any():
            g, g2, g3 = (np.array(x) for x in (s.predict_deriv(Q[near]), s2.predict_deriv(Q2[near]), s3.predict_deriv(Q[near])))
            w = ub - lb
            close(g2 * m[:, 0] * w, g * w, tolg, "gradient after a change of the variables' units")
            close(g3 * w / a, g * w, tolg, "gradient after an affine change of the values")
    if case["kind"] in ("gp", "gpdefault") and f.std() > 1e-5 and f2.std() > 1e-5 and case["values"] != "const":
        d, d2, d3 = (np.array(x) for x in (s.predict_std(Q), s2.predict_std(Q2), s3.predict_std(Q)))
        # squared: the root amplifies rounding where the variance vanishes
        t2 = 1e-9 * max(1.0, loss) * (10 * f.std()) ** 2 * max(1.0, 1e-3 / case.get("alpha", 1e-6)) + 1e-9 * (f.std() * scale)
        close(d2 ** 2, d ** 2, t2, "standard deviation after a change of the variables' units")
        close((d3 / a) ** 2, d ** 2, t2, "standard deviation after an affine change of the values")
    stats.label(case["kind"])
    stats.nontrivial = case["values"] != "const" and (any(x != [1.0, 0.0] for x in case["xmap"]) or case["fmap"] != [1.0, 0.0])
