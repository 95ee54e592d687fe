"""C24: SRBF/DYCORS adapt the sampling radius and restart as documented."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy.special import log_ndtr

from ..core import Discard, Violation, require
from ..gen import sim_case
from ..sim import Monitor, Sim, label
from ..stat import ks_uniform, pit
from .c16 import judge_selection

CASES = {"quick": 3200, "thorough": 60000}
RULE = (
    "generated configuration and schedule with objective scripts made of blocks of failures and improvements; a reference state "
    "machine predicts radius, restarts and weights from the observed results; every candidate set is tested against the predicted "
    "radius and center by likelihood ratios (error probability 1e-12 each), candidates' distribution and perturbation frequency by "
    "pooled tests; non-trivial: the radius changed, or the run restarted, or at least eight adaptive proposals were judged"
)
LOGA = math.log(1e13)
RADII = [0.2 * 0.5 ** k for k in range(8)]


@st.composite
def cases(draw, tier):
    quick = tier == "quick"
    c = draw(sim_case(strategies=("SRBF", "DYCORS"), maxdim=4, max_adapt=75 if quick else 200, maxlen=120 if quick else 400,
                      objs=("pattern", "pattern", "pattern", "pattern", "const", "sphere", "hash"), surrogates=["idw"],
                      restarts=(True, True, True, False)))
    if c["obj"] == "pattern":
        pat = []
        for _ in range(draw(st.integers(1, 10))):
            pat += [draw(st.sampled_from([0, 1, 3, 4]))] * draw(st.sampled_from([0, 2, 3, 4, 4, 4, 5, 8, 16, 20]))
            pat += [draw(st.sampled_from([5, 6, 6]))] * draw(st.sampled_from([0, 1, 1, 2, 3, 3, 4]))
        c["pattern"] = pat or [0]
    c["num_cand"] = draw(st.sampled_from([60, 100, 200]))
    return c


def lognorm_mass(lo, hi):
    """log(Phi(hi) - Phi(lo)) without cancellation in the tails."""
    lo, hi = np.broadcast_arrays(np.asarray(lo, dtype=float), np.asarray(hi, dtype=float))
    flip = lo > 0
    a, b = np.where(flip, -hi, lo), np.where(flip, -lo, hi)
    la, lb = log_ndtr(a), log_ndtr(b)
    return lb + np.log1p(-np.exp(np.minimum(la - lb, -1e-300)))


class Columns:
    """Sufficient statistics of a candidate set; likelihood of a center and a radius."""

    def __init__(self, C, prob, skip):
        self.cols = []
        for i in range(prob.dim):
            col = C[:, i]
            isint = i in prob.int_var
            if skip is not None:  # coordinates that were not perturbed; integers may round back
                if isint:
                    continue
                col = col[~np.isin(col, skip[:, i])]
            if not len(col):
                continue
            w = prob.ub[i] - prob.lb[i]
            if isint:
                v, n = np.unique(col, return_counts=True)
                lo, hi = math.ceil(prob.lb[i]), math.floor(prob.ub[i])
                left, right = np.where(v <= lo, prob.lb[i], v - 0.5), np.where(v >= hi, prob.ub[i], v + 0.5)
                self.cols.append((i, w, prob.lb[i], prob.ub[i], len(col), (left, right, n)))
            else:
                m = col.mean()
                self.cols.append((i, w, prob.lb[i], prob.ub[i], len(col), (m, float(((col - m) ** 2).sum()))))

    def loglik(self, centers, rad):
        """Log-likelihoods of normals around the centers, truncated to the bounds (and rounded)."""
        total = np.zeros(len(centers))
        for i, w, lb, ub, n, data in self.cols:
            c = centers[:, i]
            sig = rad * w
            if len(data) == 3:
                sig = max(sig, 1.0)
                left, right, count = data
                m = lognorm_mass((left[None, :] - c[:, None]) / sig, (right[None, :] - c[:, None]) / sig)
                total += m @ count
            else:
                m, s2 = data
                total -= (s2 + n * (m - c) ** 2) / (2 * sig * sig) + n * math.log(sig * math.sqrt(2 * math.pi))
            total -= n * lognorm_mass((lb - c) / sig, (ub - c) / sig)
        return total


class Model:
    """The documented radius rule."""

    def __init__(self, dim, batch):
        if batch is None:
            self.failtol = max(dim, 4)
        else:
            self.failtol = max(-(-dim // batch), -(-4 // batch))
        self.reset(0)

    def reset(self, t):
        self.radius, self.status, self.failcount, self.fbest = 0.2, 0, 0, math.inf
        self.changed, self.converged, self.queue = t, False, []

    def adjust(self, t):
        f = min(self.queue)
        self.queue = []
        if math.isfinite(self.fbest):
            thr = self.fbest - 1e-3 * abs(self.fbest)
            if abs(f - thr) <= 1e-12 * (1e-300 + abs(self.fbest)) and f != self.fbest:
                raise Discard("result at the threshold of significance")
            better = f < thr
        else:
            better = True
        if better:
            self.fbest = f
            self.status = max(1, self.status + 1)
            self.failcount = 0
        else:
            self.status = min(-1, self.status - 1)
            self.failcount += 1
        what = None
        if self.status <= -self.failtol:
            self.radius, self.status, self.changed, what = self.radius / 2, 0, t, "halved"
        elif self.status >= 3:
            self.radius, self.status, self.changed, what = min(0.2, 2 * self.radius), 0, t, "doubled"
        if self.failcount >= 4 * self.failtol:
            self.converged, what = True, "many failures"
        if self.radius <= 0.2 / 64 * (1 + 1e-9):
            self.converged, what = True, "minimal radius"
        return what


class Mon(Monitor):
    def start(self, sim):
        self.model = Model(sim.prob.dim, sim.case["batch"] if sim.sync else None)
        self.weights = sim.case.get("weights") or [0.3, 0.5, 0.8, 0.95]
        self.nextw = 0
        self.cand = None
        self.pits, self.dyc, self.judged, self.changes = [], [], 0, 0
        self.batch, self.batch_data, self.rejected_last = [], None, False
        self.committed = False

    # -- the state machine --
    def after(self, sim, kind, ev=None):
        m = self.model
        if kind not in ("complete", "fail") or not ev.adaptive or ev.run != sim.run_no or ev.t <= m.changed:
            if kind == "complete" and ev.adaptive:
                sim.stats.label("stale result")
            return
        if kind == "complete":
            m.queue.append(ev.value)
        elif not (sim.sync and m.queue):  # crashes do not count, a batch is judged by its other results
            return
        if not sim.sync or (sim.batch_open == 0 and not sim.inflight):
            what = m.adjust(sim.t)
            if what:
                sim.stats.label(what)
                self.changes += 1

    def before_propose(self, sim):
        self.was_converged = self.model.converged
        # once the whole budget is committed the strategy may stop for good, even if an evaluation fails after that
        self.committed |= len(sim.completed) + len(sim.inflight) >= sim.max_evals
        self.cand = None

    def on_design(self, sim, X):
        if sim.run_no > 0:
            require(self.model.converged, "the run restarted with radius %s after %d consecutive failures (tolerance %d)",
                    self.model.radius, self.model.failcount, 4 * self.model.failtol)
        self.model.reset(sim.t)
        self.batch_data = None

    def on_terminate(self, sim):
        left = sim.max_evals - len(sim.completed) - len(sim.inflight)
        if left > 0 and not sim.user_stop and not self.committed:
            require(self.model.converged and not sim.case["restarts"], "terminated with a budget of %d left", left)

    # -- proposals --
    def on_predict(self, sim, sur, X, y):
        run = [e for e in sim.evs if e.run == sim.run_no]
        data = [(e.x, e.value) for e in sim.completed if e.run == sim.run_no]
        if sim.run_no == 0:
            data += sim.known
        pend = [e.x for e in sim.inflight]
        self.cand = (X, y.ravel(), data, pend, len(run))

    def on_eval(self, sim, x, p):
        if self.was_converged:
            require(sim.designs_in_call == 1, "converged (radius %s, %d consecutive failures), but no new run was started",
                    self.model.radius, self.model.failcount)
        if not sim.adaptive:
            return
        if sim.predicts_in_call:
            self.judge_candidates(sim)
            k = sim.case["batch"] if sim.sync else 1
            w = [self.weights[(self.nextw + i) % len(self.weights)] for i in range(k)]
            self.nextw += k
            self.batch_data = (self.cand, w)
            self.batch = []
        if self.batch_data is None:
            return
        if sim.sync and len(self.batch) and np.array_equal(self.batch[-1], x) and self.rejected_last:
            self.batch.pop()  # the rejected point is proposed again
        self.batch.append(x)
        self.rejected_last = not sim.proposals[-1][1]
        w = self.batch_data[1]
        if len(self.batch) == len(w):
            self.judge_weights(sim, w)
            self.batch_data = None if not (sim.sync and self.rejected_last) else self.batch_data

    def judge_weights(self, sim, w):
        C, y, data, pend, _ = self.batch_data[0]
        X = np.array([d[0] for d in data])
        P = np.array(pend).reshape(len(pend), sim.prob.dim)
        err = None
        for dtol in (1e-3, 1e-3 * math.sqrt(sim.prob.dim)):
            for new in (self.batch[::-1], self.batch):
                try:
                    judge_selection(np.array(new), C, y, X, P, w, dtol, sim.stats)
                    return
                except Violation as e:
                    err = err or e
        raise Violation("weights %s (used cyclically in the order %s): %s" % (w, self.weights, err))

    def judge_candidates(self, sim):
        C, y, data, pend, _ = self.cand
        case, prob = sim.case, sim.prob
        d, r = prob.dim, self.model.radius
        require(C.shape == (case["num_cand"], d), "%s candidates instead of %d", C.shape, case["num_cand"])
        best = min(f for _, f in data)
        centers = {tuple(x) for x, f in data if f == best}
        others = {tuple(e.x) for e in sim.evs if e.state == "completed"} | {tuple(x) for x, _ in sim.known}
        dyc = case["strategy"] == "DYCORS" and d > 1
        ints = set(int(i) for i in prob.int_var)

        cen = np.array(sorted(centers))
        if len(cen) > 6:
            sim.stats.label("many best points")
            return
        if dyc:
            cont = [i for i in range(d) if i not in ints]
            atoms = {}
            for i in cont:  # a value that occurs twice belongs to a coordinate that was not perturbed
                v, n = np.unique(C[:, i], return_counts=True)
                atoms[i] = v[n > 1]
            fits = [c for c in cen if all(np.all(v == c[i]) for i, v in atoms.items())]
            require(fits, "run %d: the candidates are not perturbations of the best point of the run %s", sim.run_no, cen[0])
            cen = np.array(fits)
        cols = Columns(C, prob, cen if dyc else None)
        with np.errstate(all="ignore"):
            base = cols.loglik(cen, r).max()
            for rad in RADII:
                if abs(rad - r) > 1e-9:
                    alt = cols.loglik(cen, rad).max()
                    require(not alt > base + LOGA + math.log(len(cen)), "run %d: the candidates have the spread of radius %s, expected %s "
                            "(log likelihood ratio %.1f)", sim.run_no, rad, r, alt - base)
            others = np.array(sorted(others - centers))
            if not dyc and len(others):
                alt = cols.loglik(others, r)
                require(not alt.max() > base + LOGA + math.log(len(others)), "run %d: the candidates are centered at %s instead of the "
                        "best point of the run %s", sim.run_no, others[alt.argmax()], cen[0])
        self.judged += 1
        if len(cen) > 1:
            return
        c = cen[0]
        cont = [i for i in range(d) if i not in ints]
        for i in range(d):
            sig = r * (prob.ub[i] - prob.lb[i])
            if i in ints:
                sig = max(sig, 1.0)
            if dyc and i in ints:
                continue
            col = C[:, i] if not dyc else C[C[:, i] != c[i], i]
            if len(col):
                self.pits.append(pit(col, c[i], sig, prob.lb[i], prob.ub[i], i in ints, case["seed"] % 9973 + self.judged))
        if dyc and cont and sim.max_evals - case["npts"] > 1:
            n = len(sim.completed) + len(sim.known) + len(pend) - case["npts"] + 1
            p = min(20.0 / d, 1.0) * (1 - math.log(n) / math.log(sim.max_evals - case["npts"]))
            p = min(1.0, max(p, 1.0 / d))
            expect = p + (1 - p) ** d / d
            frac = (C[:, cont] != c[cont]).mean(axis=1)
            t = math.sqrt(len(C) * LOGA / 2)
            require(abs(frac.sum() - expect * len(C)) <= t, "coordinates are perturbed with frequency %.3f, expected %.3f (evaluation %d of %d, "
                    "dimension %d)", frac.mean(), expect, n, sim.max_evals - case["npts"], d)
            self.dyc.append((frac.sum(), expect * len(C), len(C)))

    def end(self, sim):
        if self.pits:
            ks_uniform(np.concatenate(self.pits), "distribution of the candidates around the best point of the run", alpha=1e-12)
        if self.dyc:
            a = np.array(self.dyc)
            o, e, n = a.sum(axis=0)
            t = math.sqrt(n * LOGA / 2)
            require(abs(o - e) <= t, "coordinates are perturbed with frequency %.3f in %d candidates, expected %.3f", o / n, n, e / n)


def run(case, stats):
    mon = Mon()
    sim = Sim(case, mon, stats)
    sim.run()
    label(sim, stats)
    stats.count("judged candidate sets", mon.judged)
    stats.nontrivial = mon.judged > 0 and (mon.changes > 0 or len(sim.designs) > 1 or mon.judged >= 8)
