"""C14: surrogates are faithful, lazy containers of their data."""
import sys

import numpy as np
from hypothesis import strategies as st
from sklearn.gaussian_process import GaussianProcessRegressor
from sklearn.gaussian_process.kernels import RBF, ConstantKernel

from pySOT.surrogate import GPRegressor, MARSInterpolant, PolyRegressor, RBFInterpolant

from .. import earth
from ..core import require
from ..gen import seeds
from ..surref import KERNELS, TAILS, TRANSFORMS, VALUES, RefRBF, domain, from_unit, rbf_kind, tail_cols, unit_points, values
from .c11 import close

CASES = {"quick": 8000, "thorough": 160000}
RULE = (
    "generated histories of add_points (single points and batches, scalar/0-d/1-d/column values, int and float types, the "
    "caller's arrays overwritten afterwards), predictions (batches, single vectors, standard deviations, gradients) and "
    "resets, for every surrogate and output transformation, against a list model and freshly built surrogates; non-trivial: "
    "at least two additions and a prediction after the last one"
)
ASSUMPTIONS = ["MARSInterpolant runs with a stand-in for py-earth, which is not installed"]
earth.install()


@st.composite
def cases(draw, tier):
    kind = draw(st.sampled_from(["rbf", "rbf", "rbf", "gp", "gp", "poly", "poly", "mars"]))
    large = draw(st.integers(0, 29)) == 29  # more variables and more points than small cases reach
    lb, ub = draw(domain(9, mindim=3) if large else domain(3))
    ops = []
    for _ in range(draw(st.integers(2, 9 if tier == "quick" else 20))):
        k = draw(st.integers(0, 11))
        if k <= 4:
            ops.append(["add", draw(st.integers(1, 30 if large else 3)), draw(st.integers(0, 7))])
        elif k <= 8:
            ops.append(["predict", draw(seeds), draw(st.integers(0, 3))])
        elif k == 9:
            ops.append(["reset", 0, 0])
        else:
            ops.append(["read", 0, 0])
    ops.append(["predict", draw(seeds), draw(st.integers(0, 3))])
    c = dict(kind=kind, lb=lb, ub=ub, ops=ops, seed=draw(seeds), first=draw(st.integers(30, 110) if large else st.integers(0, 6)),
             pts=draw(st.sampled_from(["uniform", "edge", "grid"])), values=draw(st.sampled_from(VALUES)),
             transform=draw(st.sampled_from([None, None, "median", "inplace", "affine"])))
    if kind == "rbf":
        c["kernel"], c["tail"] = draw(rbf_kind())
    return c


def make(case):
    d, lb, ub = len(case["lb"]), np.array(case["lb"]), np.array(case["ub"])
    tr = TRANSFORMS[case["transform"]][0]
    if case["kind"] == "rbf":
        return RBFInterpolant(d, lb, ub, output_transformation=tr, kernel=KERNELS[case["kernel"]][0](),
                              tail=TAILS[case["tail"]](d))
    if case["kind"] == "poly":
        return PolyRegressor(d, lb, ub, output_transformation=tr, degree=2)
    if case["kind"] == "mars":
        return MARSInterpolant(d, lb, ub, output_transformation=tr)
    gp = GaussianProcessRegressor(kernel=ConstantKernel(1.3) * RBF(0.5 * np.ones(d)), alpha=1e-4, optimizer=None)
    return GPRegressor(d, lb, ub, output_transformation=tr, gp=gp)


def make_plain(case):
    return make(dict(case, transform=None))


def run(case, stats):
    lb, ub = np.array(case["lb"]), np.array(case["ub"])
    dim = len(lb)
    need = dim + 1
    total = need + case["first"] + sum(a for o, a, _ in case["ops"] if o == "add")
    U = unit_points(case["seed"], dim, total, case["pts"], {1: 0.01, 2: 0.03}.get(dim, 0.06))
    X, f = from_unit(U, lb, ub), values(case["seed"], U, case["values"])
    if case["values"] == "ties":
        f = np.round(f)
    total = len(X)
    s = make(case)
    standin = case["kind"] == "mars" and sys.modules["pyearth"].Earth is earth.Earth
    mx, mf = [], []  # the model
    pos, nadd = 0, 0

    def check():
        n = len(mx)
        require(s.num_pts == n, "num_pts is %s after adding %d points", s.num_pts, n)
        SX, SF = np.asarray(s.X), np.asarray(s.fX)
        require(SX.shape == (n, dim), "X has shape %s, %d points were added", SX.shape, n)
        require(SF.shape == (n, 1), "fX has shape %s, %d values were added", SF.shape, n)
        if n:
            require(np.array_equal(SX, np.array(mx)), "X differs from the points added")
            require(np.array_equal(SF[:, 0], np.array(mf)), "fX differs from the values added: %s, %s", SF[:, 0], mf)

    def add(k, style):
        nonlocal pos, nadd
        k = min(k, total - pos)
        if k == 0:
            return
        before = s.updated
        if k == 1 and style < 5:
            x = X[pos].copy()
            v = f[pos]
            arg = [v, float(v), np.array(v), np.array([v]), np.array([[v]])][style]
            if style == 1 and v == round(v) and abs(v) < 1e6:
                arg = int(v)
            if style == 4:
                x = x[None, :]
        else:
            x = X[pos: pos + k].copy()
            arg = f[pos: pos + k].copy()
            if style % 2:
                arg = arg[:, None]
            if style == 6:
                x = np.asfortranarray(x)
        keep = x.copy(), np.array(arg, copy=True)
        s.add_points(x, arg)
        require(np.array_equal(x, keep[0]) and np.array_equal(np.array(arg), keep[1]), "add_points modified its arguments")
        require(s.updated is False or s.updated == 0, "updated is %s after add_points", s.updated)
        mx.extend(X[pos: pos + k])
        mf.extend(f[pos: pos + k])
        pos += k
        nadd += 1
        x[...] = 1e30  # the caller may reuse its arrays
        if isinstance(arg, np.ndarray):
            arg[...] = -1e30
        check()

    add(need + case["first"], case["seed"] % 8)
    last = None
    for op, arg, style in case["ops"]:
        if op == "add":
            add(arg, style)
            last = "add"
        elif op == "reset":
            s.reset()
            mx, mf = [], []
            check()
            require(not s.updated, "updated is %s after reset", s.updated)
            add(min(need + 2, total - pos), style)
            last = "add"
        elif op == "read":
            check()
        else:
            n = len(mx)
            if n < need:
                continue
            D, fd = np.array(mx), np.array(mf)
            t = np.array(TRANSFORMS[case["transform"]][1](fd), dtype=float)
            scale = max(1e-300, np.max(np.abs(t)))
            sv = np.linalg.svd(tail_cols("linear", (D - lb) / (ub - lb)), compute_uv=False)
            if sv[-1] < 1e-2 * sv[0]:
                stats.label("degenerate data skipped")
                return
            if case["kind"] == "rbf":
                tol = 2 * RefRBF(case["kernel"], case["tail"], 1e-6, lb, ub, D, t).tol() * 3
            else:
                tol = 1e-7 * scale
            Q = from_unit(np.random.RandomState(arg).rand(4, dim), lb, ub)
            keep = Q.copy()
            if style == 2 and case["kind"] == "gp":
                sd = np.asarray(s.predict_std(Q))
                require(sd.shape == (4, 1), "predict_std of 4 points has shape %s", sd.shape)
            elif style == 3 and case["kind"] == "rbf":
                g = np.asarray(s.predict_deriv(Q))
                require(g.shape == (4, dim), "predict_deriv of 4 points has shape %s", g.shape)
            elif style == 3 and case["kind"] == "mars" and standin:
                g = np.asarray(s.predict_deriv(Q))
                require(g.shape == (4, dim), "predict_deriv of 4 points has shape %s", g.shape)
                model = earth.Earth().fit((D - lb) / (ub - lb), t)
                want = model.predict_deriv((Q - lb) / (ub - lb))[:, :, 0]
                close(g * (ub - lb), want, tol, "gradient of MARS")
                g = np.asarray(s.predict_deriv(Q[2]))
                require(g.size == dim, "predict_deriv of a vector has shape %s", g.shape)
                close(g.ravel() * (ub - lb), want[2], tol, "gradient of MARS at a single point")
            elif style == 1:
                s.predict(Q[0])
            p = np.asarray(s.predict(Q))
            require(bool(s.updated) is True, "updated is %s after a prediction", s.updated)
            require(p.shape == (4, 1), "prediction of 4 points has shape %s", p.shape)
            if case["kind"] == "mars" and standin:
                model = earth.Earth().fit((D - lb) / (ub - lb), t)
                close(p, model.predict((Q - lb) / (ub - lb))[:, None], tol, "prediction of MARS")
            one = np.asarray(s.predict(Q[1]))
            require(one.shape == (1, 1), "prediction of a vector has shape %s", one.shape)
            two = np.asarray(s.predict(Q[1:2]))
            require(two.shape == (1, 1), "prediction of one row has shape %s", two.shape)
            close(one, p[1:2], tol, "prediction of a vector vs. of a row of a matrix")
            close(two, p[1:2], tol, "prediction of one row vs. of many")
            if case["kind"] == "gp":
                one = np.asarray(s.predict_std(Q[1]))
                require(one.shape == (1, 1), "predict_std of a vector has shape %s", one.shape)
            require(np.array_equal(Q, keep), "prediction modified the query points")
            fresh = make(case)
            fresh.add_points(D, fd)
            close(p, np.asarray(fresh.predict(Q)), tol, "prediction vs. a new surrogate with the same data")
            plain = make_plain(case)
            plain.add_points(D, t)
            close(p, np.asarray(plain.predict(Q)), tol, "output transformation %s" % case["transform"])
            last = "predict"
            check()
    check()
    stats.label(case["kind"])
    stats.label("transform %s" % case["transform"])
    stats.nontrivial = nadd >= 2 and last == "predict"
