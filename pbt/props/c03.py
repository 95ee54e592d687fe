"""C03: bookkeeping equals the true evaluation history."""
import numpy as np

from ..core import require
from ..gen import sim_case
from ..sim import Monitor, Sim, label, same_points

CASES = {"quick": 4800, "thorough": 80000}
RULE = (
    "generated configuration and schedule of proposals, rejections, completions (any order), failures, kills and progress "
    "updates; after every event X, fX, Xpend, counters and fevals are compared with the harness's own record of the history; "
    "non-trivial: at least one adaptive evaluation and at least one of: two evaluations in flight, a rejection, a failure"
)
STRATS = ("SRBF", "DYCORS", "EI", "LCB", "SOP")


def cases(tier):
    return sim_case(strategies=STRATS, max_adapt=30 if tier == "quick" else 80, maxlen=120 if tier == "quick" else 300)


def check_history(sim):
    s = sim.strategy
    xs = [x for x, _ in sim.known] + [e.x for e in sim.completed]
    fs = [f for _, f in sim.known] + [e.value for e in sim.completed]
    X, fX = np.asarray(s.X), np.asarray(s.fX)
    n = len(xs)
    require(X.shape == (n, sim.prob.dim), "X has shape %s, expected %s", X.shape, (n, sim.prob.dim))
    require(fX.shape == (n, 1), "fX has shape %s, expected %s", fX.shape, (n, 1))
    if n:
        require(np.array_equal(X, np.array(xs)), "X differs from the completed evaluations\n%s\n%s", X, np.array(xs))
        require(np.array_equal(fX[:, 0], np.array(fs)), "fX differs from the completed values\n%s\n%s", fX[:, 0], fs)
    require(s.num_evals == len(sim.completed), "num_evals=%s, completed %d", s.num_evals, len(sim.completed))


def check_pending(sim):
    s = sim.strategy
    require(s.pending_evals == len(sim.inflight), "pending_evals=%s, in flight %d", s.pending_evals, len(sim.inflight))
    Xp = np.asarray(s.Xpend)
    require(Xp.shape == (len(sim.inflight), sim.prob.dim), "Xpend has %s rows, in flight %d", Xp.shape, len(sim.inflight))
    if len(sim.inflight):
        require(same_points(Xp, [e.x for e in sim.inflight]), "Xpend differs from the points in flight\n%s\n%s",
                Xp, [e.x for e in sim.inflight])


def check_fevals(sim):
    fe = sim.strategy.fevals
    require(len(fe) == len(sim.finished) and all(a is b.rec for a, b in zip(fe, sim.finished)),
            "fevals does not list the finished records in order (%d listed, %d finished)", len(fe), len(sim.finished))


class Mon(Monitor):
    def after(self, sim, kind, ev=None):
        check_history(sim)
        check_pending(sim)
        check_fevals(sim)
        if len(sim.inflight) >= 2:
            sim.stats.label("parallel")
            pts = [tuple(e.x) for e in sim.inflight]
            if len(set(pts)) < len(pts):
                sim.stats.label("same point in flight twice")


def run(case, stats):
    sim = Sim(case, Mon(), stats)
    sim.run()
    adaptive = label(sim, stats)
    stats.nontrivial = adaptive > 0 and (sim.rejected > 0 or sim.failed > 0 or "parallel" in stats.labels)
