"""C02: every proposed point is feasible."""
import numpy as np

from ..core import require
from ..gen import sim_case
from ..sim import Monitor, Sim, label

CASES = {"quick": 4800, "thorough": 80000}
RULE = (
    "generated problem (mixed-integer, fractional integer bounds), strategy, surrogate, design and accept/reject/complete/fail "
    "schedule; every proposal is checked; non-trivial: at least one adaptive proposal (any for random search)"
)


def cases(tier):
    return sim_case(maxdim=5, max_adapt=30 if tier == "quick" else 80, maxlen=60 if tier == "quick" else 200)


def check_point(prob, x, what="proposed point"):
    x = np.asarray(x)
    require(x.shape == (prob.dim,), "%s has shape %s, dim is %d", what, x.shape, prob.dim)
    x = x.astype(float)
    require(bool(np.all(np.isfinite(x))), "%s is not finite: %s", what, x)
    scale = np.maximum(1.0, np.maximum(np.abs(prob.lb), np.abs(prob.ub)))
    tol = 4 * np.finfo(float).eps * scale
    for i in range(prob.dim):
        t = 0.0 if i in prob.int_var else tol[i]
        require(prob.lb[i] - t <= x[i] <= prob.ub[i] + t, "%s: coordinate %d is %r, outside [%r, %r]",
                what, i, x[i], prob.lb[i], prob.ub[i])
        if i in prob.int_var:
            require(x[i] == np.round(x[i]), "%s: integer coordinate %d is %r", what, i, x[i])


class Mon(Monitor):
    def on_eval(self, sim, x, p):
        check_point(sim.prob, np.asarray(p.args[0]))


def run(case, stats):
    sim = Sim(case, Mon(), stats)
    sim.run()
    adaptive = label(sim, stats)
    stats.nontrivial = adaptive > 0 or (sim.name == "RANDOM" and len(sim.evs) > 0)
    if any(float(v) != round(v) for i, v in enumerate(case["lb"]) if i in case["int"]):
        stats.label("fractional integer bounds")
