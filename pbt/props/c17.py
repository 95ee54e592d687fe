"""C17: expected improvement and lower confidence bound follow their formulas, and the searches built on them."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy.spatial.distance import cdist
from scipy.stats import norm

from pySOT.auxiliary_problems import ei_ga, ei_merit, lcb_ga, lcb_merit

from ..core import require
from ..gen import box, seeds, sim_case
from ..sim import make_surrogate, Monitor, Prob, Sim, label

CASES = {"quick": 3200, "thorough": 80000}
RULE = (
    "merit: generated means, deviations (including zero), data, tolerances, compared with the closed forms for every row; "
    "search: generated problems and deterministic stand-in posteriors, all populations captured through the surrogate; "
    "strategy: whole EI/LCB runs whose adaptive points are judged with the posterior at the time of the proposal; "
    "non-trivial: at least one row with dtol active and one without, a search that returned points, or an adaptive point"
)


@st.composite
def cases(draw, tier):
    what = draw(st.sampled_from(["merit"] * 7 + ["search"] * 4 + ["strategy"]))
    if what == "strategy":
        c = draw(sim_case(strategies=("EI", "LCB"), maxdim=3, gp_adapt=4, maxlen=40, restarts=(True, False),
                          objs=("sphere", "rugged", "steps", "linear", "hash")))
        c["what"] = what
        c["dt"] = draw(st.sampled_from([None, None, 0.02, 0.1]))
        c["kappa"] = draw(st.sampled_from([None, 0.5, 4.0]))
        return c
    large = draw(st.integers(0, 29)) == 29  # more variables and more points than small cases reach
    c = dict(what=what, seed=draw(seeds), n=draw(st.integers(20, 160) if large else st.integers(1, 10)),
             npend=draw(st.sampled_from([None, 0, 1, 4, 20 if large else 4])))
    c["fn"] = draw(st.sampled_from(["ei", "lcb"]))
    c["kappa"] = draw(st.sampled_from([None, 0.0, 0.5, 2.0, 3.7]))
    c["mu"] = draw(st.sampled_from(["random", "random", "far", "equal", "big", "better"]))
    c["sig"] = draw(st.sampled_from(["random", "random", "zeros", "tiny", "huge"]))
    if what == "merit":
        c["dim"] = draw(st.integers(1, 12 if large else 4))
        c["m"] = draw(st.integers(1, 300 if large else 20))
        c["cand"] = draw(st.sampled_from(["random", "known", "near", "lattice"]))
        c["dtol"] = draw(st.sampled_from([None, 0.0, 1e-3, 0.1, 0.3, 3.0]))
        return c
    c["lb"], c["ub"], c["int"] = draw(box(9, mindim=4) if large else box(4))
    c["num_pts"] = draw(st.sampled_from([1, 1, 1, 2, 3] if not large else [2, 5, 7]))
    c["dtol"] = draw(st.sampled_from([None, 1e-3, 0.02, 0.2, 0.5, 2.0]))  # relative to the diagonal
    c["tol"] = draw(st.sampled_from([None, "low", "low", "mid", "high"]))
    c["wave"] = draw(st.sampled_from([0.0, 3.0, 9.0]))
    c["smu"] = draw(st.sampled_from([0.0, 0.3, 2.0]))
    return c


def ref_ei(mu, sig, best):
    """Closed-form expected improvement, row by row, with its limit for vanishing uncertainty."""
    res = []
    for m, s in zip(mu, sig):
        if s <= 0:
            res.append(max(best - m, 0.0))
            continue
        z = (best - m) / s
        phi = math.exp(-0.5 * z * z) / math.sqrt(2 * math.pi)
        res.append((best - m) * float(norm.cdf(z)) + s * phi)
    return np.array(res)


def near(fn, x, y, scale):
    """Equal up to rounding of terms of the given size."""
    if np.isinf(x) or np.isinf(y):
        return x == y
    return abs(x - y) <= 1e-11 * scale


class Fixed:
    def __init__(self, mu, sig):
        self.mu, self.sig = mu, sig

    def predict(self, X):
        return self.mu.copy().reshape(-1, 1)

    def predict_std(self, X):
        return self.sig.copy().reshape(-1, 1)


def run_merit(case, stats):
    rng = np.random.RandomState(case["seed"])
    d, n, m = case["dim"], case["n"], case["m"]
    X = rng.rand(n, d)
    P = np.zeros((0, d)) if case["npend"] is None else rng.rand(case["npend"], d)
    XX = np.vstack((X, P))
    C = rng.rand(m, d)
    if case["cand"] == "lattice":
        XX, C = np.round(5 * XX) / 5, np.round(5 * C) / 5
    elif case["cand"] != "random":
        k = rng.randint(0, m + 1)
        C[:k] = XX[rng.randint(0, len(XX), k)]
        if case["cand"] == "near":
            C[:k] += 10.0 ** rng.uniform(-5, 0, size=(k, 1)) * rng.randn(k, d)
    fX = 10 * rng.randn(n, 1)
    best = fX.min()
    mu = {"random": lambda: 10 * rng.randn(m), "far": lambda: best + 100 * rng.rand(m), "equal": lambda: np.full(m, best),
          "big": lambda: 1e6 * rng.randn(m), "better": lambda: best - 5 * rng.rand(m)}[case["mu"]]()
    sig = {"random": lambda: 5 * rng.rand(m), "zeros": lambda: rng.rand(m) * (rng.rand(m) < 0.6), "tiny": lambda: 1e-8 * rng.rand(m),
           "huge": lambda: 1e4 * rng.rand(m)}[case["sig"]]()
    kw = {}
    dtol = 0.0 if case["dtol"] is None else case["dtol"]
    if case["dtol"] is not None:
        kw["dtol"] = dtol
    if dtol > 0 or rng.rand() < 0.5:
        kw["XX"] = XX
    kappa = 2.0 if case["kappa"] is None else case["kappa"]
    if case["fn"] == "lcb" and case["kappa"] is not None:
        kw["kappa"] = kappa
    args = [C, fX, XX]
    keep = [a.copy() for a in args]
    with np.errstate(all="ignore"):
        got = (ei_merit if case["fn"] == "ei" else lcb_merit)(C, Fixed(mu, sig), fX, **kw)
    require(all(np.array_equal(a, b) for a, b in zip(args, keep)), "an input was modified")
    got = np.asarray(got)
    require(got.size == m and got.shape[0] == m, "shape %s for %d points", got.shape, m)
    got = got.ravel()
    want = ref_ei(mu, sig, best) if case["fn"] == "ei" else mu - kappa * sig
    dist = cdist(C, XX).min(axis=1)
    far = close = 0
    for i in range(m):
        w, unclear = want[i], dtol > 0 and abs(dist[i] - dtol) <= 1e-12
        alt = 0.0 if case["fn"] == "ei" else np.inf
        if dtol > 0 and dist[i] < dtol and not unclear:
            w = alt
            close += 1
        else:
            far += 1
        scale = abs(mu[i]) + abs(best) + (1 + kappa) * sig[i] + 1e-300
        require(near(case["fn"], got[i], w, scale) or (unclear and near(case["fn"], got[i], alt, scale)),
                "%s of row %d is %r, expected %r (mu=%r sigma=%r best=%r dist=%r dtol=%r kappa=%r)",
                case["fn"], i, got[i], w, mu[i], sig[i], best, dist[i], dtol, kappa)
    stats.nontrivial = far > 0 and (close > 0 or dtol == 0)
    stats.label("too close", close > 0)


class Posterior:
    """A deterministic function of the point that remembers every query."""

    def __init__(self, prob, case):
        self.lb, self.w = prob.lb, prob.ub - prob.lb
        rng = np.random.RandomState(case["seed"] % 1000003)
        self.c, self.e = rng.rand(prob.dim), rng.rand(prob.dim)
        self.wave, self.smu, self.kind = case["wave"], case["smu"], case["sig"]
        self.calls = []

    def both(self, X):
        U = (np.asarray(X, dtype=float) - self.lb) / self.w
        mu = 3 * ((U - self.c) ** 2).sum(axis=1) + self.smu * np.sin(self.wave * U).sum(axis=1)
        s = np.abs(U - self.e).sum(axis=1)
        sig = {"random": 0.3 * s + 0.05, "zeros": np.maximum(s - 0.3, 0.0), "tiny": 1e-4 * s + 1e-6, "huge": 20 * s}[self.kind]
        return mu, sig

    def predict(self, X):
        self.calls.append(np.array(X, dtype=float, copy=True))
        return self.both(X)[0].reshape(-1, 1)

    def predict_std(self, X):
        return self.both(X)[1].reshape(-1, 1)


def feasible(prob, Z):
    if not (np.all(Z >= prob.lb) and np.all(Z <= prob.ub)):
        return False
    return bool(np.all(Z[:, prob.int_var] == np.round(Z[:, prob.int_var])))


def run_search(case, stats):
    prob = Prob(case["lb"], case["ub"], case["int"])
    rng = np.random.RandomState(case["seed"])
    d, n = prob.dim, case["n"]

    def points(k):
        Z = prob.lb + rng.rand(k, d) * (prob.ub - prob.lb)
        for i in prob.int_var:
            Z[:, i] = np.clip(np.round(Z[:, i]), np.ceil(prob.lb[i]), np.floor(prob.ub[i]))
        return Z

    X = points(n)
    P = None if case["npend"] is None else points(case["npend"])
    post = Posterior(prob, case)
    if rng.rand() < 0.5:  # the best known point is near the minimizer of the mean
        X[0] = prob.lb + post.c * (prob.ub - prob.lb)
        for i in prob.int_var:
            X[0, i] = np.clip(np.round(X[0, i]), np.ceil(prob.lb[i]), np.floor(prob.ub[i]))
    fX = (post.both(X)[0] + rng.rand(n)).reshape(-1, 1)
    best = fX.min()
    diag = np.linalg.norm(prob.ub - prob.lb)
    dtol = 1e-3 if case["dtol"] is None else case["dtol"] * diag
    kw = {} if case["dtol"] is None else dict(dtol=dtol)
    ei = case["fn"] == "ei"
    kappa = 2.0 if case["kappa"] is None else case["kappa"]
    if not ei and case["kappa"] is not None:
        kw["kappa"] = kappa

    def merit(Z):
        """Smaller is better, without the distance condition."""
        mu, sig = post.both(Z)
        return -ref_ei(mu, sig, best) if ei else mu - kappa * sig

    sample = np.sort(merit(points(200)))
    goal = {None: None, "low": sample[-1], "mid": sample[0], "high": sample[0] - 0.05 * (sample[-1] - sample[0])}[case["tol"]]
    if ei:
        tol = 1e-6 if goal is None else max(-goal, 1e-9)
        if goal is not None:
            kw["ei_tol"] = tol
        goal = -tol
    elif goal is not None:
        kw["lcb_target"] = goal
    args = dict(X=X, fX=fX, P=P, lb=prob.lb, ub=prob.ub, int_var=prob.int_var)
    keep = {k: None if a is None else a.copy() for k, a in args.items()}
    np.random.seed(case["seed"] ^ 0x3C3C3C)
    with np.errstate(all="ignore"):
        new = (ei_ga if ei else lcb_ga)(num_pts=case["num_pts"], opt_prob=prob, surrogate=post, X=X, fX=fX, Xpend=P, **kw)
    for k, a in args.items():
        require(keep[k] is None or np.array_equal(a, keep[k]), "%s was modified", k)
    XX = X if P is None else np.vstack((X, P))
    calls = post.calls
    require(len(calls) > 0, "the posterior was not used")
    slack = 1e-12 * (1 + diag)
    mscale = 1e-10 * (1 + np.abs(sample).max())

    def best_of(pops, XX):
        Z = np.vstack(pops)
        require(feasible(prob, Z), "the search considers an infeasible point")
        v = merit(Z)
        ok = cdist(Z, XX).min(axis=1) >= dtol + slack
        return v[ok].min() if ok.any() else np.inf

    per = None  # populations per point, if it can be told
    if case["num_pts"] == 1:
        per = len(calls)
    elif new is not None and len(calls) % case["num_pts"] == 0:
        per = len(calls) // case["num_pts"]
    if new is None:
        stats.label("gave up")
        if case["num_pts"] == 1:
            b = best_of(calls, XX)
            require(not b < (goal - mscale if goal is not None else np.inf),
                    "the search gave up although its population has a point with merit %r (goal %r)", b, goal)
            stats.nontrivial = True
        return
    new = np.asarray(new)
    require(new.shape == (case["num_pts"], d), "shape %s", new.shape)
    require(feasible(prob, new), "infeasible point %s", new)
    for k in range(case["num_pts"]):
        dist = cdist(new[k: k + 1], XX).min()
        require(dist >= dtol - slack, "point %d is %r away from a known or chosen point, dtol is %r", k, dist, dtol)
        v = merit(new[k: k + 1])[0]
        require(goal is None or v <= goal + mscale, "point %d has merit %r, the goal is %r", k, v, goal)
        if per is not None:
            b = best_of(calls[k * per: (k + 1) * per], XX)
            require(v <= b + mscale, "point %d has merit %r, the search saw %r", k, v, b)
        XX = np.vstack((XX, new[k: k + 1]))
    stats.nontrivial = True
    stats.label("%d points" % case["num_pts"])


class Mon(Monitor):
    """Every adaptive point of a run reaches the tolerance and keeps the distance."""

    def __init__(self, case):
        self.case, self.judged, self.gave_up = case, 0, 0
        self.pops = []

    def before_propose(self, sim):
        self.pops = []

    def on_predict(self, sim, sur, X, y):
        if self.case["surrogate"] != "gp" or (sim.sync and self.case["batch"] > 1):
            return
        if not self.pops:
            run = [e for e in sim.evs if e.run == sim.run_no]
            self.data = np.array(sur.X), np.array(sur.fX), [e.x for e in run if e.state in ("completed", "inflight")]
            self.data[2].extend(e.x for e in sim.inflight if e.run != sim.run_no)
            if sim.run_no == 0:
                self.data[2].extend(k[0] for k in sim.known)
        self.pops.append(np.array(X, dtype=float))

    def after(self, sim, kind, ev=None):
        """A search that ends without a proposal (restart, waiting or termination) saw no point worth proposing."""
        if not self.pops or kind in ("complete", "fail", "running") or (kind in ("accept", "reject") and sim.adaptive):
            return
        X, fX, old = self.data
        model = make_surrogate("gp", sim.prob, rec=False)
        model.add_points(X, fX)
        Z = np.vstack(self.pops)
        self.pops = []
        diag = np.linalg.norm(sim.prob.ub - sim.prob.lb)
        dtol = (1e-3 if self.case["dt"] is None else self.case["dt"]) * diag
        Z = Z[cdist(Z, old).min(axis=1) >= dtol + 1e-12 * (1 + diag)]
        self.gave_up += 1
        if len(Z) == 0:
            return
        mu, sig = model.predict(Z).ravel(), model.predict_std(Z).ravel()
        everything = [e.value for e in sim.completed] + [k[1] for k in sim.known]
        span = 1e-6 * (max(everything) - min(everything))
        tol = self.case.get("tol")
        scale = 1e-9 * (np.abs(mu).max() + np.abs(sig).max() + np.abs(everything).max())
        if sim.name == "EI":
            v = ref_ei(mu, sig, fX.min()).max()
            t = span if tol is None else tol
            require(v < t + scale, "the run gives up although the search saw an expected improvement of %r, tolerance %r", v, t)
        else:
            v = (mu - (2.0 if self.case["kappa"] is None else self.case["kappa"]) * sig).min()
            target = min(everything) - (span if tol is None else tol)
            require(v > target - scale, "the run gives up although the search saw a lower confidence bound of %r, target %r", v, target)

    def on_eval(self, sim, x, p):
        if not sim.adaptive:
            return
        run = [e for e in sim.evs if e.run == sim.run_no]
        old = [e.x for e in run if e.state in ("completed", "inflight")]
        if sim.run_no == 0:
            old += [k[0] for k in sim.known]
        diag = np.linalg.norm(sim.prob.ub - sim.prob.lb)
        dtol = (1e-3 if self.case["dt"] is None else self.case["dt"]) * diag
        dist = cdist([x], old).min()
        require(dist >= dtol - 1e-12 * (1 + diag), "adaptive point %s is %r from a known point, dtol=%r", x, dist, dtol)
        if sim.predicts_in_call == 0 or sim.designs_in_call:
            return
        vals = [e.value for e in run if e.state == "completed"]
        everything = [e.value for e in sim.completed]
        if sim.run_no == 0:
            vals += [k[1] for k in sim.known]
        everything += [k[1] for k in sim.known]
        sur = sim.strategy.surrogate
        sink, sur.sink = sur.sink, None
        try:
            mu, sig = float(np.ravel(sur.predict(x[None, :]))[0]), float(np.ravel(sur.predict_std(x[None, :]))[0])
        finally:
            sur.sink = sink
        tol = self.case.get("tol")
        scale = 1e-9 * (abs(mu) + abs(sig) + np.abs(everything).max())
        span = 1e-6 * (max(everything) - min(everything))
        if sim.name == "EI":
            v = ref_ei([mu], [sig], min(vals))[0]
            t = span if tol is None else tol
            require(v >= t - scale, "expected improvement %r of the proposal, tolerance %r", v, t)
        else:
            k = 2.0 if self.case["kappa"] is None else self.case["kappa"]
            v = mu - k * sig
            target = min(everything) - (span if tol is None else tol)
            require(v <= target + scale, "lower confidence bound %r of the proposal, target %r", v, target)
        self.judged += 1


def run(case, stats):
    stats.label(case["what"] if case["what"] == "strategy" else case["what"] + "/" + case["fn"])
    if case["what"] == "merit":
        run_merit(case, stats)
    elif case["what"] == "search":
        run_search(case, stats)
    else:
        mon = Mon(case)
        sim = Sim(case, mon, stats)
        sim.run()
        label(sim, stats)
        stats.nontrivial = mon.judged > 0
        stats.count("judged proposals", mon.judged)
        stats.count("judged searches without a proposal", mon.gave_up)
