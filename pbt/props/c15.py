"""C15: GP and polynomial surrogates match independent reference models."""
import numpy as np
from hypothesis import strategies as st
from sklearn.gaussian_process import GaussianProcessRegressor
from sklearn.gaussian_process.kernels import RBF, ConstantKernel, WhiteKernel

from pySOT.surrogate import GPRegressor, PolyRegressor

from ..core import require
from ..gen import seeds
from ..surref import TRANSFORMS, VALUES, RefGP, RefPoly, domain, from_unit, unit_points, values
from .c11 import close

CASES = {"quick": 4800, "thorough": 80000}
RULE = (
    "generated data (added in increments with predictions in between), kernel parameters or degree, domain and output "
    "transformation; mean and standard deviation vs. the closed-form posterior, polynomial vs. ridge normal equations; "
    "non-trivial: non-constant values"
)


@st.composite
def cases(draw, tier):
    kind = draw(st.sampled_from(["gp", "gp", "poly", "poly", "default"]))
    if kind == "default" and draw(st.integers(0, 2)):
        kind = "gp"
    large = draw(st.integers(0, 29)) == 29  # more variables and more points than small cases reach
    lb, ub = draw(domain(9, mindim=3) if large else domain(4))
    c = dict(kind=kind, lb=lb, ub=ub, seed=draw(seeds), pts=draw(st.sampled_from(["uniform", "edge", "grid", "dup"])),
             n=draw(st.integers(40, 110 if kind != "default" else 60) if large else st.integers(2, 16)), values=draw(st.sampled_from(VALUES)), steps=draw(st.integers(1, 3)),
             transform=draw(st.sampled_from([None, None, None, "median", "affine"])))
    if kind == "gp":
        c["const"] = draw(st.sampled_from([0.1, 1.0, 7.0]))
        c["length"] = [draw(st.sampled_from([0.1, 0.3, 0.5, 1.5])) for _ in lb]
        c["noise"] = draw(st.sampled_from([0.0, 1e-4, 1e-2]))
        c["alpha"] = draw(st.sampled_from([1e-8, 1e-4, 1e-2]))
    if kind == "poly":
        c["degree"] = draw(st.integers(1, 2 if large else 4))
    return c


def run(case, stats):
    lb, ub = np.array(case["lb"]), np.array(case["ub"])
    dim = len(lb)
    U = unit_points(case["seed"], dim, dim + 1 + case["n"], case["pts"], {1: 0.01, 2: 0.03}.get(dim, 0.06))
    X, f = from_unit(U, lb, ub), values(case["seed"], U, case["values"])
    tr, ref_tr = TRANSFORMS[case["transform"]]
    if case["kind"] == "poly":
        s = PolyRegressor(dim, lb, ub, output_transformation=tr, degree=case["degree"])
    elif case["kind"] == "default":
        s = GPRegressor(dim, lb, ub, output_transformation=tr, n_restarts_optimizer=1)
    else:
        k = ConstantKernel(case["const"]) * RBF(np.array(case["length"]))
        if case["noise"]:
            k = k + WhiteKernel(case["noise"])
        s = GPRegressor(dim, lb, ub, output_transformation=tr,
                        gp=GaussianProcessRegressor(kernel=k, alpha=case["alpha"], optimizer=None))
    rng = np.random.RandomState(case["seed"] + 3)
    cuts = np.linspace(0, len(X), case["steps"] + 1).astype(int)
    for a, b in zip(cuts[:-1], cuts[1:]):
        s.add_points(X[a:b], f[a:b])
        D = X[:b]
        t = np.array(ref_tr(f[:b]), dtype=float)
        Q = np.vstack((from_unit(rng.rand(5, dim) * 1.2 - 0.1, lb, ub), D[:2]))
        scale = max(1e-300, float(np.max(np.abs(t))))
        if case["kind"] == "poly":
            ref = RefPoly(case["degree"], lb, ub, D, t)
            close(s.predict(Q), ref.predict(Q)[:, None], 1e-8 * scale, "polynomial with %d points" % b)
            stats.label("polynomial degree %d" % case["degree"])
            continue
        first_std = rng.rand() < 0.5
        if first_std:
            sd = np.asarray(s.predict_std(Q))
        p = np.asarray(s.predict(Q))
        if not first_std:
            sd = np.asarray(s.predict_std(Q))
        if case["kind"] == "default":
            k = s.model.kernel_
            ref = RefGP(None, None, None, s.model.alpha, lb, ub, D, t, kernel=k)
            stats.label("fitted default kernel")
        else:
            ref = RefGP(case["const"], case["length"], case["noise"], case["alpha"], lb, ub, D, t)
        if ref.cond > 1e11:
            stats.label("ill-conditioned GP skipped")
            continue
        mean, std, prior, var = ref.posterior(Q)
        # standardized values of nearly constant data carry the rounding of mean and deviation
        loss = scale / max(t.std(), 1e-6)
        tol = ref.sigma * (1e3 * 2.3e-16 * ref.cond * ref.zmax * (1 + loss) + 1e-9) + 1e-12 * scale
        require(p.shape == (len(Q), 1), "mean of %d points has shape %s", len(Q), p.shape)
        require(sd.shape == (len(Q), 1), "standard deviation of %d points has shape %s", len(Q), sd.shape)
        close(p, mean[:, None], tol, "GP mean with %d points" % b)
        require(bool(np.all(sd >= 0)), "negative standard deviation %s", sd.min())
        require(bool(np.all(sd[:, 0] <= prior * (1 + 1e-9))), "standard deviation %s exceeds the prior's %s", sd.max(),
                prior.max())
        close((sd / ref.sigma) ** 2, ((std / ref.sigma) ** 2)[:, None], 1e3 * 2.3e-16 * ref.cond * (1 + prior.max() / ref.sigma) ** 2
              + 1e-10, "GP variance (standardized) with %d points" % b)
    stats.label(case["kind"])
    stats.nontrivial = case["values"] != "const"
