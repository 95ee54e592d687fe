"""C25: SOP searches around centers selected by the documented rule."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy.spatial.distance import cdist

from ..core import Violation, require
from ..gen import sim_case
from ..sim import Monitor, Sim, label
from .c16 import judge_selection
from .c24 import LOGA, Columns

CASES = {"quick": 1600, "thorough": 40000}
RULE = (
    "generated configuration, schedule and objective values; a reference model of the archive (ranks, failure counts, tabu list, "
    "radii) predicts the available centers; the center and the radius of every candidate set are inferred from the candidates "
    "(exactly from repeated coordinates, else by likelihood ratios with error probability 1e-12); ties that rounding could decide "
    "end the judgement of a run; non-trivial: at least six candidate sets were judged and a center failed"
)
TIE = 1e-9


@st.composite
def cases(draw, tier):
    quick = tier == "quick"
    c = draw(sim_case(strategies=("SOP",), maxdim=4, max_adapt=60 if quick else 160, maxlen=120 if quick else 400,
                      objs=("pattern", "pattern", "pattern", "sphere", "rugged", "hash"), surrogates=["idw"]))
    if c["obj"] == "pattern":
        pat = []
        for _ in range(draw(st.integers(1, 8))):
            pat += [draw(st.sampled_from([0, 1, 2, 4]))] * draw(st.sampled_from([1, 3, 8, 20, 40]))
            pat += [draw(st.sampled_from([5, 6, 7]))] * draw(st.sampled_from([0, 1, 1, 2, 4]))
        c["pattern"] = pat
    c["design"] = "uniform"
    if "extra" in c:
        c["noval"] = True  # known points are no evaluations: the documentation does not say whether they can be centers
    c["num_cand"] = draw(st.sampled_from([40, 80, 150]))
    return c


class Stop(Exception):
    """Rounding may decide what happens next."""


def stop(why):
    raise Stop(why)


class Archive:
    """Reference model of SOP's memory."""

    def __init__(self, prob, case):
        self.prob, self.case = prob, case
        self.x, self.f, self.nfail, self.ntabu, self.sigma = [], [], [], [], []
        self.centers = []  # [index of the evaluation, proposed point or None, index of the new evaluation or None]
        self.tabu = self.fails = 0

    def add(self, x, f):
        if any(np.array_equal(x, y) for y in self.x):
            raise Stop("the same point twice")
        if f in self.f:
            raise Stop("the same value twice")
        self.x.append(x)
        self.f.append(f)
        self.nfail.append(0)
        self.ntabu.append(0)
        self.sigma.append(0.2)

    def unit(self):
        return (np.array(self.x) - self.prob.lb) / (self.prob.ub - self.prob.lb)

    def ranks(self):
        U, f = self.unit(), np.array(self.f)
        n = len(U)
        if n < 2:
            raise Stop("one point")
        D = cdist(U, U)
        np.fill_diagonal(D, np.inf)
        near, nn = D.min(axis=1), D.argmin(axis=1)
        same = nn[nn] == np.arange(n)  # mutual nearest neighbors have the same distance
        tie = np.abs(near[:, None] - near[None, :]) <= TIE
        np.fill_diagonal(tie, False)
        i = np.arange(n)[same]
        tie[i, nn[i]] = False
        if tie.any():
            raise Stop("two points with the same distance to the nearest other point")
        dom = (f[:, None] < f[None, :]) & (near[:, None] > near[None, :])  # dom[i, j]: i dominates j
        dom[i, nn[i]] = False
        rank = np.full(n, np.inf)
        left, r, count = np.arange(n), 1, 0
        while len(left) and count < 100:
            front = ~dom[np.ix_(left, left)].any(axis=0)
            rank[left[front]] = r
            count += front.sum()
            left, r = left[~front], r + 1
        return rank

    def update(self, done):
        """A round ends; done are the centers that were searched in it."""
        rank = self.ranks()
        for c in done:
            if rank[c[2]] != 1:
                self.nfail[c[0]] += 1
                self.sigma[c[0]] /= 2
                self.fails += 1
        for i in range(len(self.x)):
            if 0 < self.ntabu[i] < 5:
                self.ntabu[i] += 1
            elif self.ntabu[i] == 5:
                self.nfail[i], self.ntabu[i], self.sigma[i] = 0, 0, 0.2
        for c in done:
            if self.nfail[c[0]] > 3:
                self.nfail[c[0]], self.ntabu[c[0]], self.sigma[c[0]] = 0, 1, 0.2
                self.tabu += 1

    def select(self):
        """Replace the centers that were searched."""
        self.centers = [c for c in self.centers if c[2] is None]
        need = self.case["ncenters"] - len(self.centers)
        if need <= 0:
            return
        rank, U = self.ranks(), self.unit()
        n, case = len(U), self.case
        busy = {c[0] for c in self.centers}
        dt = 1 - (n - case["npts"]) / (case["max_evals"] - case["npts"])
        results = []
        for tenure in (True, False):  # the order of the tabu points among each other is not documented
            order = sorted(range(n), key=lambda i: (i in busy, self.ntabu[i] if tenure else self.ntabu[i] > 0, rank[i], self.f[i]))
            best = int(np.argmin(self.f))
            if best not in busy:
                order.remove(best)
                order.insert(0, best)
            chosen = [order[0]]
            for i in order[1:]:
                if len(chosen) == need:
                    break
                ok = True
                for c in chosen:
                    d = np.linalg.norm(U[i] - U[c])
                    r = 0.2 * 0.5 ** self.nfail[c] * dt / math.sqrt(self.prob.dim)
                    if abs(d - r) <= TIE:
                        raise Stop("distance equals the radius")
                    ok &= bool(d >= r)
                if ok:
                    chosen.append(i)
            k = len(chosen)
            results.append([chosen[j % k] for j in range(need)])
        if results[0] != results[1] or any(i in busy for i in results[0]):
            raise Stop("not enough points that are not tabu")
        self.centers += [[i, None, None] for i in results[0]]


class Mon(Monitor):
    def start(self, sim):
        self.ar = Archive(sim.prob, sim.case)
        self.on = True
        self.judged = self.identified = 0
        self.freq = (0.0, 0.0, 0.0)
        self.sets = []
        self.open = []

    def guard(self, sim, fun, *args):
        if self.on:
            try:
                return fun(*args)
            except Stop as e:
                self.on = False
                sim.stats.label("undecided: %s" % e)

    def after(self, sim, kind, ev=None):
        if kind == "complete":
            self.guard(sim, self.complete, sim, ev)
        elif kind in ("fail", "reject"):
            self.guard(sim, self.lost, sim, kind, ev)

    def complete(self, sim, ev):
        ar = self.ar
        ar.add(ev.x, ev.value)
        if not ev.adaptive:
            return
        mine = [c for c in ar.centers if c[2] is None and c[1] is not None and np.array_equal(c[1], ev.x)]
        if len(mine) != 1:
            raise Stop("two centers proposed the same point")
        mine[0][2] = len(ar.x) - 1
        if not sim.sync:
            ar.update(mine)
        elif sim.batch_open == 0 and not sim.inflight:
            ar.update([c for c in ar.centers if c[2] is not None])

    def lost(self, sim, kind, ev):
        ar = self.ar
        if kind == "reject" and (sim.sync or not sim.adaptive):
            return
        x = sim.proposals[-1][0] if kind == "reject" else ev.x
        for c in ar.centers:
            if c[2] is None and c[1] is not None and np.array_equal(c[1], x):
                c[1] = None
                break
        if kind == "fail" and ev.adaptive and sim.sync and sim.batch_open == 0 and not sim.inflight:
            ar.update([c for c in ar.centers if c[2] is not None])

    def before_propose(self, sim):
        self.sets = []

    def on_predict(self, sim, sur, X, y):
        data = [e.x for e in sim.completed]
        self.sets.append((X, y.ravel(), np.array(data), np.array([e.x for e in sim.inflight]).reshape(-1, sim.prob.dim)))

    def on_eval(self, sim, x, p):
        if not sim.adaptive:
            return
        if sim.predicts_in_call:
            k = sim.case["batch"] if sim.sync else 1
            require(len(self.sets) == k, "%d candidate sets for %d points", len(self.sets), k)
            self.unclear = False
            self.open = [s + ([0, None, None],) for s in self.sets]
            self.guard(sim, self.judge_sets, sim)
        if len(sim.proposals) > 1 and not sim.predicts_in_call:
            y, accepted = sim.proposals[-2]
            if not accepted and np.array_equal(x, y):
                return  # the rejected point of a batch is proposed again
        self.judge_point(sim, x)

    def judge_point(self, sim, x):
        """Some candidate set of this batch has x as its best eligible candidate."""
        err, fits = None, []
        for k, s in enumerate(self.open):
            C, y, X, P = s[:4]
            if not (C == x).all(axis=1).any():
                continue
            for dtol in (1e-3, 1e-3 * math.sqrt(sim.prob.dim)):
                try:
                    judge_selection(np.array([x]), C, y, X, P, [1.0], dtol, sim.stats)
                    fits.append(k)
                    break
                except Violation as e:
                    err = err or e
        if not fits and self.unclear:
            return
        require(fits, "%s is not the candidate with the smallest prediction: %s", x, err or "it is no candidate")
        if len(fits) > 1:
            self.unclear = True
            self.guard(sim, stop, "two centers may have proposed the same point")
        s = self.open.pop(fits[-1])
        s[4][1] = x.copy()

    def judge_sets(self, sim):
        ar = self.ar
        ar.select()
        taken = []
        for k, s in enumerate(self.sets):
            free = [c for c in ar.centers if c[1] is None and c[2] is None and not any(c is t for t in taken)]
            require(free, "all centers are being searched already")
            c = self.judge_set(sim, s[0], free)
            taken.append(c)
            self.sets[k] = s + (c,)
        self.open = list(self.sets)

    def judge_set(self, sim, C, free):
        ar, prob, d = self.ar, sim.prob, sim.prob.dim
        require(C.shape == (sim.case["num_cand"], d), "%s candidates instead of %d", C.shape, sim.case["num_cand"])
        X = np.array(ar.x)
        cont = [i for i in range(d) if i not in prob.int_var]
        fits = free
        if d > 1:
            for i in cont:  # a value that occurs twice belongs to a coordinate that was not perturbed
                v, n = np.unique(C[:, i], return_counts=True)
                fits = [c for c in fits if np.all(v[n > 1] == ar.x[c[0]][i])]
        pts = [ar.x[c[0]] for c in free]
        require(fits, "the candidates are not perturbations of one of the available centers %s", pts)
        cols = Columns(C, prob, X if d > 1 else None)
        like = lambda x, r: float(cols.loglik(x[None, :], r)[0])
        with np.errstate(all="ignore"):
            own = [like(ar.x[c[0]], ar.sigma[c[0]]) for c in fits]
            best = max(own)
            c = fits[0] if own[0] > best - 15 else fits[int(np.argmax(own))]  # the center that waited longest, if possible
            for r in 0.2 * 0.5 ** np.arange(6):
                alt = max(like(ar.x[e[0]], r) for e in fits)
                require(not alt > best + LOGA + math.log(len(fits)), "the candidates around %s have the spread of radius %s, expected %s "
                        "(log likelihood ratio %.1f)", ar.x[c[0]], r, ar.sigma[c[0]], alt - best)
            if d == 1 or not any((np.unique(C[:, i], return_counts=True)[1] > 1).any() for i in cont):
                alt = cols.loglik(X, ar.sigma[c[0]])
                require(not alt.max() > best + LOGA + math.log(len(X)), "the candidates are centered at %s instead of one of the "
                        "available centers %s", X[alt.argmax()], pts)
            else:
                self.identified += 1
        self.judged += 1
        budget = sim.max_evals - sim.case["npts"]
        n = len(sim.completed) + len(sim.known) + len(sim.inflight) - sim.case["npts"] + 1
        if d > 1 and cont and len(fits) == 1 and budget > 1 and n >= 1:
            p = min(1.0, max(min(20.0 / d, 1.0) * (1 - math.log(n) / math.log(budget)), 1.0 / d))
            expect = p + (1 - p) ** d / d
            frac = (C[:, cont] != ar.x[c[0]][cont]).mean(axis=1).sum()
            self.freq = [a + b for a, b in zip(self.freq, (frac, expect * len(C), len(C)))]
            for o, e, m in ((frac, expect * len(C), len(C)), self.freq):
                require(abs(o - e) <= math.sqrt(m * LOGA / 2), "coordinates are perturbed with frequency %.3f in %d candidates, expected %.3f "
                        "(evaluation %d of %d, dimension %d)", o / m, m, e / m, n, budget, d)
        return c


class S(Sim):
    def value_of(self, ev):
        v = super().value_of(ev)
        if self.obj is None:  # no two values are equal
            v += 1e-8 * (len(self.completed) + 1) * max(1.0, abs(v))
        return v


def run(case, stats):
    mon = Mon()
    sim = S(case, mon, stats)
    sim.run()
    label(sim, stats)
    stats.count("judged candidate sets", mon.judged)
    stats.count("centers identified exactly", mon.identified)
    stats.count("failures of a center", mon.ar.fails)
    stats.count("tabu", mon.ar.tabu)
    if mon.ar.tabu:
        stats.label("tabu")
    stats.nontrivial = mon.judged >= 6 and mon.ar.fails > 0
