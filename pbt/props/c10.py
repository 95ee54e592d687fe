"""C10: runs are reproducible and leave the user's objects alone."""
import numpy as np
from hypothesis import strategies as st
from poap.controller import SerialController

from ..core import Discard, require
from ..gen import sim_case
from ..sim import Monitor, Prob, Sim, build, label, no_design, objective

CASES = {"quick": 1600, "thorough": 30000}
RULE = (
    "generated configuration and schedule (or POAP's serial controller), executed twice with the same NumPy seed and an "
    "unrelated run in between; points and values must be bitwise equal, and bounds, variable indices, extra points/values "
    "and weights unmodified; non-trivial: at least one adaptive evaluation (any evaluation for random search)"
)


@st.composite
def cases(draw, tier):
    c = draw(sim_case(max_adapt=24 if tier == "quick" else 80, maxlen=60 if tier == "quick" else 200, gp_adapt=3))
    c["poap"] = draw(st.integers(0, 2)) == 0 and (c["strategy"] == "RANDOM" or c["async"] or c["batch"] == 1)
    if c["poap"] and c["obj"] == "pattern":
        c["obj"] = "rugged"
    if c.get("surrogate") == "gp" and draw(st.integers(0, 9)) == 0:
        c["surrogate"] = "truegp"
        c["max_evals"] = min(c["max_evals"], c["npts"] + 1)
    c["npweights"] = bool(c.get("weights")) and draw(st.booleans())
    return c


def trace_poap(case, check):
    np.random.seed(case["seed"])
    prob, des, sur, strat, (pts, vals) = build(case, rec=False)
    kw = {} if case["strategy"] == "RANDOM" else strat[1]
    guard = Guard(prob, pts, vals, kw.get("weights"))
    strategy = strat if case["strategy"] == "RANDOM" else strat[0](**kw)
    f = objective(case["obj"], prob)
    res = []

    def obj(x):
        res.append(tuple(np.asarray(x, dtype=float)))
        return f(x)

    ctrl = SerialController(objective=obj)
    ctrl.strategy = strategy
    out = ctrl.run()
    guard.check()
    best = None if out is None else (tuple(out.params[0]), out.value)
    return res, [best]


class Guard:
    """The user's objects before the run."""

    def __init__(self, prob, pts, vals, weights):
        self.items = [("lb", prob.lb), ("ub", prob.ub), ("int_var", prob.int_var), ("cont_var", prob.cont_var),
                      ("extra_points", pts), ("extra_vals", vals), ("weights", weights)]
        self.items = [(n, o, np.array(o, copy=True)) for n, o in self.items if o is not None]
        self.prob, self.dim = prob, prob.dim

    def check(self):
        for n, o, c in self.items:
            o = np.asarray(o)
            require(o.shape == c.shape and np.array_equal(o, c, equal_nan=o.dtype.kind == "f"),
                    "%s was modified: %s, was %s", n, o, c)
            if n in ("lb", "ub", "int_var", "cont_var"):
                require(np.array_equal(np.asarray(getattr(self.prob, n)), c), "the problem's %s was replaced", n)
        require(self.prob.dim == self.dim, "the problem's dim was changed")


class Mon(Monitor):
    def start(self, sim):
        self.guard = Guard(sim.prob, sim.pts, sim.vals, None)

    def end(self, sim):
        self.guard.check()


def trace_sim(case, stats):
    sim = Sim(case, Mon(), stats)
    w = getattr(sim.strategy, "weights", None)
    sim.run()
    if case.get("weights") is not None and w is not None:
        require(list(w) == list(case["weights"]), "weights were modified: %s", w)
    return sim, [tuple(x) for x, _ in sim.proposals], [(e.value, e.t) for e in sim.evs]


OTHER = dict(strategy="DYCORS", lb=[0.0, -1.0], ub=[1.0, 4.0], int=[], seed=5, obj="rugged", faults=False, nofail=True,
             norej=True, lifo=False, script=[], design="lhd", npts=6, iters=3, surrogate="cubic", workers=1, batch=None,
             max_evals=9, num_cand=5, restarts=True, weights=None)
OTHER["async"] = True


def run(case, stats):
    if case["npweights"]:
        case = dict(case, weights=np.array(case["weights"]))
    if case["poap"]:
        try:
            a = trace_poap(case, stats)
        except ValueError as e:
            if no_design(e):
                raise Discard("no valid design")
            raise
        trace_poap(dict(OTHER), stats)
        b = trace_poap(case, stats)
        stats.label("POAP serial controller")
        stats.label(case["strategy"])
        stats.nontrivial = case["strategy"] == "RANDOM" or case["max_evals"] > case["npts"]
    else:
        sim, *a = trace_sim(case, stats)
        trace_poap(dict(OTHER), stats)
        _, *b = trace_sim(case, type(stats)())
        stats.nontrivial = label(sim, stats) > 0 or (sim.name == "RANDOM" and bool(sim.evs))
    for p, q in zip(a[0], b[0]):
        require(p == q, "repeated run proposes %s instead of %s", q, p)
    require(len(a[0]) == len(b[0]), "repeated run proposes %d points instead of %d", len(b[0]), len(a[0]))
    require(a[1] == b[1], "repeated run has different values or timing: %s, %s", a[1][-1:], b[1][-1:])
