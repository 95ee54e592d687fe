"""C04: runs make progress and respect synchronous/asynchronous scheduling."""
from ..core import require
from ..gen import sim_case
from ..sim import Monitor, Owed, Sim, label

CASES = {"quick": 4800, "thorough": 80000}
RULE = (
    "generated configuration and schedule; the harness checks every propose_action answer (evaluation, terminate or nothing) "
    "against what is in flight, the batch barrier, batch sizes and the hand-out of the initial design; non-trivial: an "
    "adaptive evaluation, and two evaluations in flight at once or a rejection or a failure"
)


def cases(tier):
    return sim_case(max_adapt=36 if tier == "quick" else 90, maxlen=100 if tier == "quick" else 300, stop=True,
                    restarts=(True, True, False))


class Mon(Monitor):
    def start(self, sim):
        self.owed = Owed()
        self.first_predict = False
        self.batch_accepted = {}
        self.busy_at_call = 0
        self.committed = False  # the whole budget was handed out once (failures after that are not made up for)

    def on_design(self, sim, X):
        if sim.run_no > 0:
            require(sim.case["restarts"], "restarted although restarts are disabled")
            if sim.sync:
                require(not sim.inflight, "synchronous restart with %d evaluations in flight", len(sim.inflight))
        self.owed.on_design(sim, X)
        self.first_predict = False

    def before_propose(self, sim):
        self.busy_at_call = len(sim.inflight)
        self.committed = self.committed or sim.budget_left <= 0

    def on_predict(self, sim, sur, X, y):
        if not self.first_predict:
            self.first_predict = True
            require(not self.owed.owed, "adaptive point generated while %d points of the initial design have not been "
                    "handed out", len(self.owed.owed))
        if sim.sync:
            require(self.busy_at_call == 0, "new batch generated with %d evaluations in flight", self.busy_at_call)
            n = self.batch_accepted.get(sim.batch_no, 0)
            require(sim.batch_no == 0 or n == sim.case["batch"] or sim.batch_open == 0 and n == 0,
                    "new batch generated after %d of %s points of the previous one", n, sim.case["batch"])

    def on_eval(self, sim, x, p):
        if sim.name == "RANDOM":
            return
        if not sim.adaptive:
            require(self.owed.due(x), "handed out a point that is neither adaptive nor due from the initial design: %s", x)

    def on_none(self, sim):
        require(sim.inflight, "nothing proposed although nothing is in flight")
        if sim.user_stop or self.committed:
            return
        if sim.sync:
            require(not self.owed.owed, "nothing proposed although %d points of the initial design are left", len(self.owed.owed))
            require(sim.batch_open <= 0, "nothing proposed although %d points of the batch are left", sim.batch_open)
            return
        if sim.name == "SOP":
            busy = sum(e.adaptive for e in sim.inflight)
            require(busy >= sim.case["ncenters"], "SOP proposed nothing with %d of %d centers busy", busy, sim.case["ncenters"])
            return
        if sim.name != "RANDOM" and not sim.case["restarts"]:
            self.converged = True  # may have converged: then it must stay quiet, see on_eval/terminate
            return
        require(False, "asynchronous strategy proposed nothing with %d evaluations of budget left", sim.budget_left)

    def on_terminate(self, sim):
        require(not sim.inflight, "terminated with %d evaluations in flight", len(sim.inflight))

    def after(self, sim, kind, ev=None):
        if kind == "accept" and sim.name != "RANDOM":
            if ev.adaptive:
                n = self.batch_accepted.get(ev.batch, 0) + 1
                self.batch_accepted[ev.batch] = n
                if sim.sync:
                    require(n <= sim.case["batch"], "more than batch_size points in a batch")
            else:
                self.owed.accepted(ev)
        if kind == "fail" and sim.name != "RANDOM":
            self.owed.failed(sim, ev)
        if sim.sync and kind == "accept" and ev.adaptive:
            others = [e for e in sim.inflight if e.batch != ev.batch]
            require(not others, "points of different batches in flight together")
        if len(sim.inflight) > 1:
            sim.stats.label("parallel")

    def end(self, sim):
        require(sim.done, "the run did not terminate")
        if sim.name != "RANDOM" and not sim.case["restarts"] and len(sim.completed) < sim.max_evals and not sim.user_stop:
            sim.stats.label("converged without restarts")


def run(case, stats):
    sim = Sim(case, Mon(), stats)
    sim.run()
    adaptive = label(sim, stats)
    stats.nontrivial = (adaptive > 0 or sim.name == "RANDOM") and (
        "parallel" in stats.labels or sim.rejected > 0 or sim.failed > 0
    )
