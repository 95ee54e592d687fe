"""C01: the evaluation budget is never exceeded and is used up."""
from ..core import require
from ..gen import sim_case
from ..sim import Monitor, Sim, label

CASES = {"quick": 4800, "thorough": 80000}
RULE = (
    "generated configuration (problem, strategy, surrogate, design, mode, workers, extra points) driven through a generated "
    "accept/reject/complete/fail/kill schedule by a controller owned by the harness; non-trivial: at least one adaptive "
    "evaluation (any evaluation for random search) and a schedule with parallelism, a rejection or a failure"
)


def cases(tier):
    return sim_case(stop=True, max_adapt=30 if tier == "quick" else 90, maxlen=90 if tier == "quick" else 250)


class Mon(Monitor):
    def start(self, sim):
        self.committed = False
        self.fail_after = 0

    def before_propose(self, sim):
        if len(sim.completed) + len(sim.inflight) >= sim.max_evals:
            self.committed = True

    def on_eval(self, sim, x, p):
        require(
            len(sim.completed) + len(sim.inflight) + 1 <= sim.max_evals,
            "proposed an evaluation with %d completed and %d in flight, budget %d",
            len(sim.completed), len(sim.inflight), sim.max_evals,
        )
        if sim.user_stop:
            require(False, "proposed an evaluation after the user requested termination")

    def after(self, sim, kind, ev=None):
        if kind == "fail" and self.committed:
            self.fail_after += 1
        require(len(sim.completed) <= sim.max_evals, "completed more than max_evals")
        if sim.name != "RANDOM":
            require(sim.strategy.num_evals <= sim.max_evals, "num_evals exceeds max_evals")

    def on_terminate(self, sim):
        require(not sim.inflight, "terminated with %d evaluations in flight", len(sim.inflight))
        n = len(sim.completed)
        if sim.name == "RANDOM":
            require(n == sim.max_evals, "random search ended with %d of %d evaluations", n, sim.max_evals)
        elif not sim.user_stop and (sim.case["restarts"] or (sim.name == "SOP")):
            require(
                n >= sim.max_evals - self.fail_after,
                "terminated after %d of %d evaluations (%d failed after the budget was handed out)",
                n, sim.max_evals, self.fail_after,
            )


def run(case, stats):
    sim = Sim(case, Mon(), stats)
    sim.run()
    adaptive = label(sim, stats)
    stats.nontrivial = (adaptive > 0 or sim.name == "RANDOM") and (
        case["workers"] > 1 or sim.rejected > 0 or sim.failed > 0
    )
