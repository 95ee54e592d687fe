"""C16: candidate search returns the best candidate under the documented merit."""
import numpy as np
from hypothesis import strategies as st
from scipy.spatial.distance import cdist

from pySOT.auxiliary_problems import candidate_dycors, candidate_srbf, candidate_uniform
from pySOT.auxiliary_problems.candidate_srbf import weighted_distance_merit

from ..core import require
from ..gen import box, seeds
from ..sim import Prob
from ..stat import ks_uniform, pit

CASES = {"quick": 24000, "thorough": 400000}
RULE = (
    "generated candidate sets (random, on a lattice, containing evaluated/pending points, all too close), predictions (random, "
    "constant, ties), weights and tolerances for the selection; generated problems, data, subsets, radii and probabilities for "
    "the three candidate searches, whose candidates are captured through the surrogate; non-trivial: some candidate was "
    "eligible and another one was not, or a search with at least 50 candidates"
)


@st.composite
def cases(draw, tier):
    what = draw(st.sampled_from(["merit", "merit", "srbf", "dycors", "dycors", "uniform"]))
    large = draw(st.integers(0, 39)) == 39  # more variables and more points than small cases reach
    c = dict(what=what, seed=draw(seeds), n=draw(st.integers(20, 160) if large else st.integers(1, 8)),
             npend=draw(st.sampled_from([None, 0, 1, 3, 20 if large else 3])))
    c["num_pts"] = draw(st.integers(1, 20 if large else 5))
    c["weights"] = draw(st.lists(st.sampled_from([0.0, 0.0, 0.3, 0.5, 0.95, 1.0, 1.0]), min_size=c["num_pts"], max_size=c["num_pts"]))
    c["npw"] = draw(st.booleans())
    c["pred"] = draw(st.sampled_from(["random", "random", "const", "ties", "tiny", "linear"]))
    c["dtol"] = draw(st.sampled_from([None, None, 1e-3, 1e-6, 0.1, 0.5, 3.0, 0.0]))
    if what == "merit":
        c["dim"] = draw(st.integers(1, 12 if large else 4))
        c["m"] = draw(st.integers(1, 300 if large else 30))
        c["cand"] = draw(st.sampled_from(["random", "lattice", "known", "known", "dup", "near"]))
        return c
    lb, ub, ints = draw(box(5) if draw(st.integers(0, 15)) != 7 else box(24, mindim=8))
    c.update(lb=lb, ub=ub, int=ints)
    c["num_cand"] = draw(st.sampled_from([None, 5, 60, 60, 400, 2000]))
    c["radius"] = draw(st.sampled_from([None, 0.2, 0.1, 0.0125, 0.5]))
    c["subset"] = draw(st.one_of(st.none(), st.lists(st.integers(0, len(lb) - 1), min_size=1, max_size=len(lb), unique=True)))
    c["subset_np"] = draw(st.booleans())
    c["p"] = draw(st.sampled_from([1.0, 0.7, 0.5, 0.3, 0.1, 0.01]))
    c["xbest"] = draw(st.booleans())
    c["onedge"] = draw(st.booleans())
    return c


class Stub:
    """Surrogate with prescribed predictions; records what it is asked for."""

    def __init__(self, kind, seed):
        self.kind, self.seed, self.calls = kind, seed, []

    def predict(self, xx):
        xx = np.atleast_2d(np.array(xx, dtype=float))
        rng = np.random.RandomState(self.seed + len(self.calls))
        n = len(xx)
        y = {
            "random": lambda: rng.randn(n) * 10,
            "const": lambda: np.full(n, 2.5),
            "ties": lambda: np.round(3 * rng.rand(n)),
            "tiny": lambda: 1e-9 * rng.randn(n) + 5,
            "linear": lambda: xx.sum(axis=1),
        }[self.kind]()
        self.calls.append((xx.copy(), y.copy()))
        return y.reshape(-1, 1)


def rescale(v):
    v = np.asarray(v, dtype=float)
    lo, hi = v.min(), v.max()
    return np.ones_like(v) if hi == lo else (v - lo) / (hi - lo)


def judge_selection(new, cand, pred, X, Xpend, weights, dtol, stats):
    """Every returned point is the best eligible candidate, given the ones chosen before it."""
    D = X if Xpend is None else np.vstack((X, Xpend))
    dist = cdist(cand, D).min(axis=1)
    s = rescale(pred)
    taken = np.zeros(len(cand), dtype=bool)
    eligible_seen = ineligible_seen = False
    require(new.shape == (len(weights), cand.shape[1]), "%d points requested, shape %s returned", len(weights), new.shape)
    for k, w in enumerate(weights):
        rows = np.where((cand == new[k]).all(axis=1))[0]
        require(len(rows) > 0, "chosen point %s is not a candidate", new[k])
        merit = w * s + (1 - w) * (1 - rescale(dist))
        slack = 1e-12 * (1 + dist)
        ok = (dist >= dtol + slack) & ~taken
        maybe = (dist >= dtol - slack) & ~taken
        if ok.any():
            eligible_seen = True
            require(maybe[rows].any(), "chosen point %d has distance %.6g < dtol=%.6g from evaluated, pending or chosen points "
                    "although %d candidates keep it", k, dist[rows].max(), dtol, ok.sum())
            mine = merit[rows][maybe[rows]].min()
            best = merit[ok].min()
            require(mine <= best + 1e-9, "chosen point %d has merit %.9g (w=%s), an eligible candidate has %.9g", k, mine, w, best)
        ineligible_seen |= bool((~maybe).any())
        free = [r for r in rows if not taken[r]]
        if free:
            r = min(free, key=lambda i: merit[i])
            taken[r] = True
        dist = np.minimum(dist, np.sqrt(((cand - new[k]) ** 2).sum(axis=1)))
    if eligible_seen:
        stats.label("eligible candidates")
    return eligible_seen and ineligible_seen


def run_merit(case, stats):
    rng = np.random.RandomState(case["seed"])
    d, n, m = case["dim"], case["n"], case["m"]
    X = rng.rand(n, d)
    P = None if case["npend"] is None else rng.rand(case["npend"], d)
    C = rng.rand(m, d)
    if case["cand"] == "lattice":
        X, C = np.round(4 * X) / 4, np.round(4 * C) / 4
        P = None if P is None else np.round(4 * P) / 4
    if case["cand"] in ("known", "near"):
        A = X if P is None else np.vstack((X, P))
        k = rng.randint(0, m + 1)
        C[:k] = A[rng.randint(0, len(A), k)]
        if case["cand"] == "near":
            C[:k] += 10.0 ** rng.uniform(-6, 0, size=(k, 1)) * rng.randn(k, d)
    if case["cand"] == "dup":
        C = C[rng.randint(0, max(1, m // 3), m)]
    fX = rng.randn(n, 1)
    w = np.array(case["weights"]) if case["npw"] else list(case["weights"])
    keep = [np.array(a, copy=True) if a is not None else None for a in (X, fX, C, P, w)]
    sur = Stub(case["pred"], case["seed"])
    kw = {} if case["dtol"] is None else dict(dtol=case["dtol"])
    dtol = 1e-3 if case["dtol"] is None else case["dtol"]
    new = weighted_distance_merit(num_pts=case["num_pts"], surrogate=sur, X=X, fX=fX, cand=C, weights=w, Xpend=P, **kw)
    for a, b in zip((X, fX, C, P, w), keep):
        require((a is None) == (b is None) and (a is None or np.array_equal(np.asarray(a), b)), "an input was modified")
    require(len(sur.calls) == 1 and np.array_equal(sur.calls[0][0], C), "the surrogate was not asked for the candidates")
    stats.nontrivial = judge_selection(np.asarray(new), C, sur.calls[0][1], X, P, case["weights"], dtol, stats)


def run_search(case, stats):
    prob = Prob(case["lb"], case["ub"], case["int"])
    rng = np.random.RandomState(case["seed"])
    d, n = prob.dim, case["n"]

    def points(k):
        Z = prob.lb + rng.rand(k, d) * (prob.ub - prob.lb)
        if case["onedge"]:
            Z = np.where(rng.rand(k, d) < 0.3, np.where(rng.rand(k, d) < 0.5, prob.lb, prob.ub), Z)
        for i in prob.int_var:
            Z[:, i] = np.clip(np.round(Z[:, i]), np.ceil(prob.lb[i]), np.floor(prob.ub[i]))
        return Z

    X, fX = points(n), np.round(rng.randn(n, 1), 1)
    P = None if case["npend"] is None else points(case["npend"])
    w = np.array(case["weights"]) if case["npw"] else list(case["weights"])
    sub = case["subset"]
    subarg = np.array(sub) if sub is not None and case["subset_np"] else (None if sub is None else list(sub))
    xb = points(1)[0] if case["what"] == "dycors" and case["xbest"] else None
    sur = Stub(case["pred"], case["seed"])
    kw = dict(num_pts=case["num_pts"], opt_prob=prob, surrogate=sur, X=X, fX=fX, weights=w, Xpend=P, subset=subarg)
    if case["num_cand"] is not None or case["npw"]:
        kw["num_cand"] = case["num_cand"]
    if case["dtol"] is not None:
        kw["dtol"] = case["dtol"]
    dtol = kw.get("dtol", 1e-3)
    radius = 0.2 if case["radius"] is None else case["radius"]
    if case["what"] != "uniform" and case["radius"] is not None:
        kw["sampling_radius"] = radius
    if case["what"] == "dycors":
        kw.update(prob_perturb=case["p"], xbest=xb)
    inputs = [X, fX, P, w, subarg, xb, prob.lb, prob.ub, prob.int_var, prob.cont_var]
    keep = [None if a is None else np.array(a, copy=True) for a in inputs]
    np.random.seed(case["seed"] ^ 0x5A5A5A)
    new = dict(srbf=candidate_srbf, dycors=candidate_dycors, uniform=candidate_uniform)[case["what"]](**kw)
    for name, a, b in zip("X fX Xpend weights subset xbest lb ub int_var cont_var".split(), inputs, keep):
        require(b is None or np.array_equal(np.asarray(a), b), "%s was modified", name)
    require(len(sur.calls) >= 1, "the surrogate was not used")
    C, pred = sur.calls[-1]
    m = 100 * d if case["num_cand"] is None else case["num_cand"]
    require(C.shape == (m, d), "%s candidates, expected %s", C.shape, (m, d))
    tol = 1e-12 * np.maximum(1, np.abs(prob.lb) + np.abs(prob.ub))
    require(bool(np.all(C >= prob.lb - tol) and np.all(C <= prob.ub + tol)), "a candidate is out of bounds")
    for i in prob.int_var:
        require(bool(np.all(C[:, i] == np.round(C[:, i])) and np.all(C[:, i] >= prob.lb[i]) and np.all(C[:, i] <= prob.ub[i])),
                "a candidate has a bad value in integer variable %d", i)
    sub = list(range(d)) if sub is None else sub
    if xb is None:
        arg = [X[k] for k in np.where(fX[:, 0] == fX.min())[0]]
    else:
        arg = [xb]
    rest = [i for i in range(d) if i not in sub]
    centers = [c for c in arg if np.array_equal(np.tile(c[rest], (m, 1)), C[:, rest])]
    require(len(centers) > 0, "candidates differ from the search center in coordinates outside of the subset %s", sub)
    uniq = {tuple(c) for c in centers}
    if len(uniq) == 1:
        c = np.array(uniq.pop())
        u = []
        changed = C != c
        cont = [i for i in sub if i not in prob.int_var]
        every = case["what"] != "dycors" or len(sub) == 1 or case["p"] == 1.0  # all coordinates of the subset are perturbed
        for i in sub:
            isint = i in prob.int_var
            sig = radius * (prob.ub[i] - prob.lb[i])
            if isint:
                sig = max(sig, 1.0)
            if case["what"] == "uniform":
                if not isint:
                    u.append((C[:, i] - prob.lb[i]) / (prob.ub[i] - prob.lb[i]))
            elif every:
                u.append(pit(C[:, i], c[i], sig, prob.lb[i], prob.ub[i], isint, case["seed"] % 1000))
            elif not isint:
                col = C[changed[:, i], i]
                if len(col):
                    u.append(pit(col, c[i], sig, prob.lb[i], prob.ub[i]))
        for i, v in enumerate(u):
            ks_uniform(v, "distribution of the candidates (%s), one coordinate" % case["what"])
        if u:
            ks_uniform(np.concatenate(u), "distribution of the candidates (%s)" % case["what"])
        if case["what"] == "dycors":
            if len(cont) == len(sub):
                bad = ~changed[:, sub].any(axis=1)
                require(not bad.any(), "%d candidates are not perturbed at all", bad.sum())
            k, p = len(sub), case["p"]
            if k > 1:
                none = (1 - p) ** k
                lo, hi = sorted((p + none / k, p / (1 - none)))
                t = np.sqrt(np.log(2e11) / (2 * m))
                for i in cont:
                    fr = changed[:, i].mean()
                    require(lo - t <= fr <= hi + t, "coordinate %d is perturbed in a fraction %.3f of the candidates, "
                            "prob_perturb=%s, %d coordinates", i, fr, p, k)
                frs = changed[:, cont].mean() if cont else None
                t = t  # the pooled frequency has the same bound
                require(frs is None or lo - t <= frs <= hi + t, "coordinates are perturbed with frequency %s", frs)
                for i in prob.int_var:
                    if i in sub and m * p > 150 and prob.ub[i] - prob.lb[i] > 4:
                        require(changed[:, i].any(), "integer coordinate %d is never perturbed", i)
    judge_selection(np.asarray(new), C, pred, X, P, case["weights"], dtol, stats)
    stats.nontrivial = m >= 50
    stats.label("subset" if case["subset"] is not None else "all coordinates")


def run(case, stats):
    stats.label(case["what"])
    if case["what"] == "merit":
        run_merit(case, stats)
    else:
        run_search(case, stats)
