"""Reference models for the surrogates, written from the documentation (dense linear algebra, closed forms)."""
import itertools

import numpy as np
from hypothesis import strategies as st

from pySOT.surrogate import (ConstantTail, CubicKernel, GPRegressor, LinearKernel, LinearTail, PolyRegressor,
                             RBFInterpolant, TPSKernel, median_capping)

from .core import Discard
from .gen import seeds

EPS = np.finfo(float).eps
KERNELS = {
    "cubic": (CubicKernel, lambda r: r ** 3, lambda r: 3 * r ** 2),
    "tps": (TPSKernel, lambda r: np.where(r > 0, r * r * np.log(np.where(r > 0, r, 1.0)), 0.0),
            lambda r: np.where(r > 0, r * (1 + 2 * np.log(np.where(r > 0, r, 1.0))), 0.0)),
    "linear": (LinearKernel, lambda r: r, lambda r: np.ones_like(r)),
}
TAILS = {"linear": LinearTail, "constant": ConstantTail}


def capping(f):
    """Median capping as documented: values above the median are replaced by the median."""
    f = np.array(f, dtype=float)
    m = np.median(f)
    return np.where(f > m, m, f)


def inplace_capping(f):
    """A user-supplied transformation that works in place."""
    m = np.median(f)
    f[f > m] = m
    return f


def own_offset(f):
    return 2.0 * np.asarray(f) + 1.0


TRANSFORMS = {
    None: (None, lambda f: np.array(f, dtype=float)),
    "median": (median_capping, capping),
    "inplace": (inplace_capping, capping),
    "affine": (own_offset, lambda f: 2.0 * np.array(f, dtype=float) + 1.0),
}


def tail_cols(name, U):
    one = np.ones((len(U), 1))
    return np.hstack((one, U)) if name == "linear" else one


class RefRBF:
    """Direct solution of the documented system for given data."""

    def __init__(self, kernel, tail, eta, lb, ub, X, f):
        self.k, self.dk = KERNELS[kernel][1:]
        self.tail, self.lb, self.w = tail, np.asarray(lb), np.asarray(ub) - np.asarray(lb)
        self.U = (np.asarray(X) - self.lb) / self.w
        n = len(self.U)
        self.R = self.dist(self.U)
        P = tail_cols(tail, self.U)
        m = P.shape[1]
        self.m = m
        self.A = np.block([[np.zeros((m, m)), P.T], [P, self.k(self.R) + eta * np.eye(n)]])
        self.P = P
        rhs = np.concatenate((np.zeros(m), np.asarray(f, dtype=float).ravel()))
        self.cond = np.linalg.cond(self.A)
        if not self.cond < 1e12:
            raise Discard("ill-conditioned data")
        self.coef = np.linalg.solve(self.A, rhs)
        self.scale = max(1e-300, float(np.max(np.abs(f))), float(np.max(np.abs(self.coef))))

    def dist(self, V):
        return np.sqrt(np.maximum(((V[:, None, :] - self.U[None, :, :]) ** 2).sum(axis=2), 0.0))

    def predict(self, Q):
        V = (np.atleast_2d(Q) - self.lb) / self.w
        return tail_cols(self.tail, V) @ self.coef[: self.m] + self.k(self.dist(V)) @ self.coef[self.m:]

    def grad(self, Q):
        V = (np.atleast_2d(Q) - self.lb) / self.w
        r = self.dist(V)
        q = np.where(r > 0, self.dk(r) / np.where(r > 0, r, 1.0), 0.0) * self.coef[self.m:][None, :]
        g = q.sum(axis=1)[:, None] * V - q @ self.U
        if self.tail == "linear":
            g = g + self.coef[1: self.m][None, :]
        return g / self.w

    def tol(self, Q=None):
        """Bound for the effect of rounding errors in a backward stable solve."""
        rad = 1.0 if Q is None else max(1.0, float(np.max(np.abs((np.atleast_2d(Q) - self.lb) / self.w))) ** 3)
        return 1e4 * EPS * self.cond * self.scale * rad + 1e-10 * self.scale * rad


@st.composite
def domain(draw, maxdim=4, mindim=1):
    """Bounds (float lists) with very different widths and offsets."""
    dim = draw(st.integers(mindim, maxdim))
    lb, ub = [], []
    for _ in range(dim):
        lo = draw(st.sampled_from([0.0, -1.0, -5.0, 2.5, 100.0, -1000.0, 1e-3]))
        lb.append(lo)
        ub.append(lo + draw(st.sampled_from([1.0, 2.0, 10.0, 0.25, 1000.0, 1e-2, 3.7])))
    return lb, ub


def unit_points(seed, dim, n, kind, sep=0.04):
    """n points of the unit box, pairwise at least sep apart (kind dup: with repetitions)."""
    rng = np.random.RandomState(seed)
    if kind == "grid":
        m = 2
        while m ** dim < 2 * n:
            m += 1
        g = np.array(list(itertools.islice(itertools.product(range(m), repeat=dim), 4000)), dtype=float) / (m - 1)
        return g[rng.permutation(len(g))[:n]]
    pts = []
    tries = 0
    while len(pts) < n:
        p = rng.rand(dim)
        if kind == "edge":
            p = np.where(rng.rand(dim) < 0.4, np.round(p), p)
        tries += 1
        if tries > 200 * n:
            raise Discard("no separated points")
        if kind == "dup" and pts and rng.rand() < 0.2:
            pts.append(pts[rng.randint(len(pts))].copy())
            continue
        if all(np.linalg.norm(p - q) >= sep for q in pts):
            pts.append(p)
    return np.array(pts)


def values(seed, U, kind):
    rng = np.random.RandomState(seed + 1)
    n, d = U.shape
    if kind == "smooth":
        return np.sin(3 * U.sum(axis=1)) + (U ** 2) @ np.arange(1, d + 1)
    if kind == "noise":
        return rng.randn(n)
    if kind == "big":
        return 1e6 * (1 + rng.rand(n))
    if kind == "offset":
        return 1e3 + rng.randn(n)
    if kind == "linear":
        return 2.0 + U @ rng.randn(d)
    if kind == "const":
        return np.full(n, -3.25)
    if kind == "ties":
        return np.round(2 * rng.rand(n))
    raise ValueError(kind)


VALUES = ["smooth", "noise", "big", "offset", "linear", "const", "ties"]


def from_unit(U, lb, ub):
    lb, ub = np.asarray(lb), np.asarray(ub)
    return lb + U * (ub - lb)


@st.composite
def rbf_kind(draw):
    kernel = draw(st.sampled_from(["cubic", "tps", "linear"]))
    tail = draw(st.sampled_from(["linear", "constant"])) if kernel == "linear" else "linear"
    return kernel, tail


def make_rbf(case):
    d, lb, ub = len(case["lb"]), np.array(case["lb"]), np.array(case["ub"])
    tr = TRANSFORMS[case.get("transform")][0]
    if case["kernel"] == "default":
        return RBFInterpolant(d, lb, ub, output_transformation=tr, eta=case["eta"])
    return RBFInterpolant(d, lb, ub, output_transformation=tr, kernel=KERNELS[case["kernel"]][0](),
                          tail=TAILS[case["tail"]](d), eta=case["eta"])


def ref_kernel(case):
    return ("cubic", "linear") if case["kernel"] == "default" else (case["kernel"], case["tail"])


# == GP and polynomial references ==


def se_kernel(A, B, const, length):
    d = (A[:, None, :] - B[None, :, :]) / np.asarray(length)
    return const * np.exp(-0.5 * (d ** 2).sum(axis=2))


class RefGP:
    """Posterior of a GP with kernel const*SE(length) + noise*delta, observation jitter alpha, standardized values."""

    def __init__(self, const, length, noise, alpha, lb, ub, X, f, kernel=None):
        """kernel: a scikit-learn kernel object to use instead of the closed form."""
        if kernel is None:
            length = np.asarray(length, dtype=float)
            self.cross = lambda A, B: se_kernel(A, B, const, length)
            self.diag = lambda A: np.full(len(A), const + noise)
        else:
            self.cross = kernel
            self.diag = kernel.diag
        self.lb, self.w = np.asarray(lb), np.asarray(ub) - np.asarray(lb)
        self.U = (np.asarray(X) - self.lb) / self.w
        f = np.asarray(f, dtype=float).ravel()
        self.mu, self.sigma = f.mean(), max(f.std(), 1e-6)
        z = (f - self.mu) / self.sigma
        K = self.cross(self.U, self.U) + np.diag(self.diag(self.U) - np.diag(self.cross(self.U, self.U)) + alpha)
        self.cond = np.linalg.cond(K)
        self.Kinv_z = np.linalg.solve(K, z)
        self.K = K
        self.zmax = max(1.0, np.max(np.abs(self.Kinv_z)))

    def posterior(self, Q):
        V = (np.atleast_2d(Q) - self.lb) / self.w
        k = self.cross(V, self.U)
        mean = self.mu + self.sigma * (k @ self.Kinv_z)
        diag = self.diag(V)
        var = diag - np.einsum("ij,ji->i", k, np.linalg.solve(self.K, k.T))
        return mean, self.sigma * np.sqrt(np.maximum(var, 0.0)), self.sigma * np.sqrt(diag), var


def monomials(U, degree):
    n, d = U.shape
    cols = []
    for total in range(1, degree + 1):
        for c in itertools.combinations_with_replacement(range(d), total):
            cols.append(np.prod(U[:, list(c)], axis=1))
    return np.array(cols).T.reshape(n, -1)


class RefPoly:
    """Ridge regression with unit penalty and unpenalized intercept on all monomials of the unit-box coordinates."""

    def __init__(self, degree, lb, ub, X, f):
        self.degree = degree
        self.lb, self.w = np.asarray(lb), np.asarray(ub) - np.asarray(lb)
        Z = monomials((np.asarray(X) - self.lb) / self.w, degree)
        f = np.asarray(f, dtype=float).ravel()
        self.zm, self.fm = Z.mean(axis=0), f.mean()
        Zc = Z - self.zm
        self.beta = np.linalg.solve(Zc.T @ Zc + np.eye(Z.shape[1]), Zc.T @ (f - self.fm))

    def predict(self, Q):
        Z = monomials((np.atleast_2d(Q) - self.lb) / self.w, self.degree)
        return self.fm + (Z - self.zm) @ self.beta
