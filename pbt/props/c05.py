"""C05: failed, killed and rejected evaluations leave no trace in the optimization."""
import numpy as np

from ..core import require
from ..gen import sim_case
from ..sim import Monitor, Owed, Sim, label, remove_row
from .c03 import check_history, check_pending

CASES = {"quick": 4800, "thorough": 80000}
RULE = (
    "generated configuration and a schedule rich in rejections, failures and kills (design phase, adaptive phase, after "
    "restarts); non-trivial: at least one failure or rejection and at least one adaptive evaluation (any evaluation for "
    "random search)"
)


def cases(tier):
    return sim_case(max_adapt=30 if tier == "quick" else 80, maxlen=120 if tier == "quick" else 300).map(more_faults)


def more_faults(c):
    if not c["faults"]:  # every second of these gets faults after all
        c["faults"] = c["seed"] % 2 == 0
        c["nofail"] = not c["faults"]
        c["norej"] = False
    return c


class Mon(Monitor):
    def start(self, sim):
        self.owed = Owed()
        self.back = []  # rejected points of the current synchronous batch
        self.committed = False
        self.fail_after = 0

    def on_design(self, sim, X):
        self.owed.on_design(sim, X)

    def before_propose(self, sim):
        self.committed = self.committed or sim.budget_left <= 0

    def on_predict(self, sim, sur, X, y):
        due = self.owed.owed + self.owed.left
        require(not due, "an adaptive point is generated although %d points of the initial design that failed or were "
                "rejected have not been handed out again: %s", len(due), due[:3])
        require(not self.back, "a new batch is generated although rejected points of the previous one have not been "
                "handed out again: %s", self.back[:3])
        rows = [x for x, _ in sim.known] + [e.x for e in sim.completed]
        for r in np.asarray(sur.X):
            require(remove_row(rows, r), "the surrogate contains a point that was not evaluated (or contains it twice): %s", r)

    def on_eval(self, sim, x, p):
        self.before = self.snapshot(sim)
        if sim.name == "RANDOM":
            return
        if not sim.adaptive:
            require(self.owed.due(x), "handed out a point that is neither adaptive nor due from the initial design: %s", x)
        elif sim.sync:
            remove_row(self.back, x)

    def snapshot(self, sim):
        if sim.name == "RANDOM":
            return None
        return np.copy(sim.strategy.X), np.copy(sim.strategy.fX), sim.strategy.num_evals, sim.sur.num_pts

    def before_finish(self, sim, ev, how):
        self.before = self.snapshot(sim)

    def after(self, sim, kind, ev=None):
        if sim.name == "RANDOM":
            self.fail_after += kind == "fail" and self.committed
            return
        if kind in ("reject", "fail"):
            b, a = self.before, self.snapshot(sim)
            require(np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1]), "X/fX changed by a %s", kind)
            require(a[2] == b[2], "num_evals changed from %s to %s by a %s", b[2], a[2], kind)
            require(a[3] == b[3], "surrogate has %s points after a %s, %s before", a[3], kind, b[3])
            require(np.asarray(sim.sur.X).shape[0] == a[3], "surrogate X has the wrong number of rows")
        if kind == "reject":
            if sim.adaptive and sim.sync:
                self.back.append(sim.proposals[-1][0])
        if kind == "fail":
            self.fail_after += self.committed
            self.owed.failed(sim, ev)
        if kind == "accept" and not ev.adaptive:
            self.owed.accepted(ev)
        check_history(sim)
        check_pending(sim)

    def on_terminate(self, sim):
        n = len(sim.completed)
        if sim.name == "RANDOM":
            require(n == sim.max_evals, "ended with %d of %d evaluations", n, sim.max_evals)
        elif sim.case["restarts"] or sim.name == "SOP":
            require(n >= sim.max_evals - self.fail_after, "ended with %d of %d evaluations (%d failed after the budget was "
                    "handed out)", n, sim.max_evals, self.fail_after)

    def end(self, sim):
        require(sim.done, "the run did not terminate")


def run(case, stats):
    sim = Sim(case, Mon(), stats)
    sim.run()
    adaptive = label(sim, stats)
    stats.nontrivial = (sim.failed > 0 or sim.rejected > 0) and (adaptive > 0 or (sim.name == "RANDOM" and bool(sim.evs)))
    if any(e.state in ("kill", "cancel") and not e.adaptive for e in sim.finished):
        stats.label("failed design points")
    if any(e.state in ("kill", "cancel") and e.adaptive for e in sim.finished):
        stats.label("failed adaptive points")
