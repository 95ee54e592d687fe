"""C06: the surrogate is trained on exactly the data of the current run."""
import numpy as np

from ..core import require
from ..gen import sim_case
from ..sim import Monitor, Sim, label

CASES = {"quick": 3200, "thorough": 60000}
RULE = (
    "generated configuration, objective script and schedule, biased to restarts; at every surrogate prediction the training "
    "data is compared (as a multiset) with the completed evaluations accepted since the last initial design plus, before the "
    "first restart, the known extra points; non-trivial: adaptive evaluations and (a restart, or known extra points, "
    "or at least eight adaptive evaluations)"
)
STRATS = ("SRBF", "SRBF", "DYCORS", "DYCORS", "EI", "LCB", "SOP")


def cases(tier):
    return sim_case(
        strategies=STRATS, maxdim=2, max_adapt=90 if tier == "quick" else 200, maxlen=150 if tier == "quick" else 400,
        objs=("const", "pattern", "pattern", "steps", "sphere", "tiny", "hash"), restarts=(True, True, True, True, False),
        surrogates=None, gp_adapt=8,
    ).map(speed)


def speed(c):
    """Fitting quality is irrelevant here: use the cheap surrogate for most cases."""
    if c.get("surrogate") in ("poly", "tps", "default"):
        c["surrogate"] = "idw"
    return c


class Mon(Monitor):
    def start(self, sim):
        self.npred = 0
        self.late = 0
        self.expect = {}

    def on_design(self, sim, X):
        sim.stats.label("design")
        require(X.shape == (sim.case["npts"], sim.prob.dim), "initial design of shape %s", X.shape)
        if sim.run_no > 0 and sim.inflight:
            sim.stats.label("restart with evaluations in flight")

    def on_predict(self, sim, sur, X, y):
        self.npred += 1
        want = [tuple(e.x) + (e.value,) for e in sim.completed if e.run == sim.run_no]
        if sim.run_no == 0:
            want += [tuple(x) + (f,) for x, f in sim.known]
        SX, SF = np.asarray(sur.X), np.asarray(sur.fX)
        require(SX.ndim == 2 and SF.size == len(SX) and sur.num_pts == len(SX), "surrogate with X %s, fX %s, num_pts %s",
                SX.shape, SF.shape, sur.num_pts)
        have = [tuple(a) + (float(b),) for a, b in zip(SX, SF.ravel())]
        if sorted(want) != sorted(have):
            miss = [w for w in want if w not in have]
            more = [h for h in have if h not in want]
            require(False, "run %d: the surrogate has %d points, %d evaluations belong to the run; missing %s, extra %s",
                    sim.run_no, len(have), len(want), miss[:2], more[:2])

    def after(self, sim, kind, ev=None):
        if kind == "complete" and ev.run != sim.run_no:
            self.late += 1
            sim.stats.label("finished after a restart")


def run(case, stats):
    sim = Sim(case, Mon(), stats)
    sim.run()
    adaptive = label(sim, stats)
    if sim.mon.npred == 0:
        return
    stats.nontrivial = adaptive > 0 and (len(sim.designs) > 1 or bool(sim.known) or adaptive >= 8)
