"""C26: a run does not depend on the unit of the domain or of the objective."""
import numpy as np
from hypothesis import strategies as st
from scipy.spatial.distance import cdist

from ..core import require
from ..gen import sim_case
from ..sim import Monitor, Sim, label

CASES = {"quick": 2000, "thorough": 40000}
RULE = (
    "generated configuration and schedule, executed a second time with the same seed after multiplying all bounds (and extra "
    "points) and/or all values (and tolerances) by powers of two, which is exact in floating point: every answer of the "
    "strategy must be the same up to the factor; non-trivial: adaptive evaluations were compared and a factor is not 1"
)
ASSUMPTIONS = ["the absolute distance tolerance 1e-3 of the candidate searches is documented: a comparison ends where it binds"]
OBJS = ("sphere", "rugged", "steps", "linear", "hash", "tiny")


@st.composite
def cases(draw, tier):
    gp = draw(st.integers(0, 5)) == 0
    xs = draw(st.sampled_from([0, 0, 1, 3, 10, -1, -4, -10, 20]))
    if gp:
        c = draw(sim_case(strategies=("EI", "LCB", "SRBF"), surrogates=("gpfix", "gpfix", "gpfix", "truegp"), maxdim=2, max_adapt=3,
                          gp_adapt=3, objs=("sphere", "rugged", "linear", "hash"), maxlen=30, allow_int=xs == 0))
        fs = draw(st.sampled_from([0, 1, 4, 10, 30, -1, -3, -8]))
        if c["surrogate"] == "truegp" and c["strategy"] == "EI":
            c["surrogate"] = "gpfix"  # no expected improvement so small that it underflows
        if c["surrogate"] == "truegp":
            c["max_evals"] = min(c["max_evals"], c["npts"] + 1)
        if c.get("tol") == 1e6:
            c["tol"] = None
    else:
        c = draw(sim_case(strategies=("SRBF", "DYCORS", "SOP", "SRBF", "DYCORS", "RANDOM"), objs=OBJS, allow_int=xs == 0,
                          max_adapt=40 if tier == "quick" else 120, maxlen=60 if tier == "quick" else 200))
        fs = draw(st.sampled_from([0, 1, 2, 5, 10, 30, 60, -1, -3, -7, -20, -40]))
    if xs:
        # wide enough domains that the absolute tolerance rarely matters
        c["wide"] = draw(st.sampled_from([0, 8, 14]))
    c["xs"], c["fs"] = xs, fs
    return c


class Trace(Monitor):
    """Answers of the strategy until the absolute distance tolerance decides something."""

    def __init__(self, check):
        self.events, self.check, self.cut = [], check, None

    def on_eval(self, sim, x, p):
        self.events.append(("adaptive" if sim.adaptive else "design", np.array(x)))

    def on_none(self, sim):
        self.events.append(("none", None))

    def on_terminate(self, sim):
        self.events.append(("terminate", None))

    def on_predict(self, sim, sur, X, y):
        if self.check and self.cut is None and sim.name in ("SRBF", "DYCORS", "SOP"):
            P = [e.x for e in sim.evs if e.state in ("completed", "inflight")] + [k[0] for k in sim.known]
            near = cdist(X, P)
            own = cdist(X, X)
            if np.any((near > 0) & (near < 2e-3)) or np.any((own > 0) & (own < 2e-3)):
                self.cut = len(self.events)


def scaled(case, xs, fs, wide):
    a, b = 2.0 ** (xs + wide), 2.0 ** fs
    c = dict(case, lb=[v * a for v in case["lb"]], ub=[v * a for v in case["ub"]], fscale=b)
    if case.get("extra"):
        c["extra"] = [[[v * a for v in p], f if f is None or isinstance(f, str) else f * b] for p, f in case["extra"]]
    if case.get("tol") is not None:
        c["tol"] = case["tol"] * b
    return c


def run(case, stats):
    xs, fs, wide = case["xs"], case["fs"], case.get("wide", 0)
    t1, t2 = Trace(bool(xs)), Trace(bool(xs))
    s1 = Sim(scaled(case, 0, 0, wide), t1, stats)
    s1.run()
    s2 = Sim(scaled(case, xs, fs, wide), t2, stats)
    s2.run()
    if case.get("surrogate") in ("gpfix", "truegp"):
        vals = [e.value for e in s1.completed]
        if len(vals) < 2 or np.std(vals) * min(1.0, 2.0 ** fs) < 1e-4:
            return  # GPRegressor documents a floor for the spread of the values
    cut = [t.cut for t in (t1, t2) if t.cut is not None]
    end = min(cut + [max(len(t1.events), len(t2.events))])
    if not cut:
        require(len(t1.events) == len(t2.events), "%d answers instead of %d after multiplying the bounds by 2^%d and the values "
                "by 2^%d", len(t2.events), len(t1.events), xs, fs)
    w = s1.prob.ub - s1.prob.lb
    judged = 0
    for k in range(min(end, len(t1.events), len(t2.events))):
        (a, x), (b, y) = t1.events[k], t2.events[k]
        what = "after multiplying the bounds by 2^%d and the values by 2^%d, answer %d" % (xs, fs, k)
        require(a == b, "%s is '%s' instead of '%s'", what, b, a)
        if x is not None:
            y = y / 2.0 ** xs
            require(np.all(np.abs(x - y) <= 1e-9 * w), "%s is %s instead of %s (in the original unit)", what, y, x)
            judged += a == "adaptive"
    label(s1, stats)
    stats.count("compared adaptive points", judged)
    stats.label("cut by the absolute tolerance", bool(cut))
    stats.nontrivial = (judged > 0 or s1.name == "RANDOM") and (xs != 0 or fs != 0)
