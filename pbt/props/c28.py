"""C28: strategies do not influence each other, and observers do not influence a run."""
import copy
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st
from poap.controller import SerialController

from ..core import Discard, require
from ..gen import sim_case
from ..sim import Monitor, Sim, build, label, no_design, objective

CASES = {"quick": 1200, "thorough": 24000}
RULE = (
    "two or three generated runs advanced in a generated interleaving (each with its own NumPy random state, optionally sharing "
    "the problem, design, kernel, tail, weights and extra arrays) must answer exactly as when run alone; or a serial run whose "
    "strategy is saved and copied at generated moments must propose the same points as an unobserved one; non-trivial: adaptive "
    "evaluations in at least two interleaved runs, or in an observed run"
)


@st.composite
def cases(draw, tier):
    kw = dict(max_adapt=20 if tier == "quick" else 60, maxlen=40 if tier == "quick" else 120, gp_adapt=3)
    a = draw(sim_case(**kw))
    if draw(st.integers(0, 4)) == 0 and (a["strategy"] == "RANDOM" or a["async"] or a["batch"] == 1):
        if a["obj"] == "pattern":
            a["obj"] = "rugged"
        return dict(what="observe", runs=[a], moves=draw(st.lists(st.integers(0, 3), min_size=1, max_size=40)))
    runs = [a]
    share = draw(st.booleans())
    for _ in range(draw(st.sampled_from([1, 1, 2]))):
        b = draw(sim_case(**kw))
        if share:
            if draw(st.booleans()):  # the same configuration, another seed and schedule
                b = dict(a, seed=b["seed"], script=b["script"], lifo=b["lifo"], obj=b["obj"], pattern=b.get("pattern", [0]))
            elif len(b["lb"]) == len(a["lb"]):  # another strategy for the same problem
                b.update({k: a[k] for k in ("lb", "ub", "int")})
                b.pop("extra", None)
                if a.get("extra") and b["strategy"] != "RANDOM":
                    b["extra"], b["noval"] = a["extra"], a["noval"]
                if b.get("design") == "tf" and len(b["lb"]) != len(a["lb"]):
                    b["design"] = "slhd"
            else:
                b = dict(a, seed=b["seed"], script=b["script"])
        runs.append(b)
    return dict(what="interleave", share=share, runs=runs, moves=draw(st.lists(st.integers(0, 11), min_size=4, max_size=40)))


class Trace(Monitor):
    def __init__(self):
        self.events = []

    def on_eval(self, sim, x, p):
        self.events.append(("eval", sim.adaptive) + tuple(x))

    def on_none(self, sim):
        self.events.append(("none",))

    def on_terminate(self, sim):
        self.events.append(("terminate",))

    def end(self, sim):
        s = sim.strategy
        self.events.append(("end", len(sim.completed)) + (() if sim.name == "RANDOM" else (s.num_evals, s.X.tobytes(), s.fX.tobytes())))


def solo(case, stats):
    t = Trace()
    sim = Sim(case, t, stats)
    sim.run()
    return sim, t.events


def interleaved(case, stats):
    share = {} if case["share"] else None
    sims, traces, states, gens = [], [], [], []
    for c in case["runs"]:
        t = Trace()
        sims.append(Sim(c, t, type(stats)(), share=share))
        traces.append(t)
        states.append(np.random.get_state())
        gens.append(sims[-1].steps())
    live = list(range(len(sims)))
    k = 0
    while live:
        m = case["moves"][k % len(case["moves"])]
        k += 1
        i = live[m % len(live)]
        np.random.set_state(states[i])
        for _ in range(1 + m // 3):
            if next(gens[i], "end") == "end":
                live.remove(i)
                break
        states[i] = np.random.get_state()
    return [t.events for t in traces]


def observed(case, observers, directory):
    np.random.seed(case["seed"])
    prob, des, sur, strat, _ = build(case, rec=False)
    strategy = strat if case["strategy"] == "RANDOM" else strat[0](**strat[1])
    f = objective(case["obj"], prob)
    res, n = [], [0]
    ctrl = SerialController(objective=None)

    def obj(x):
        x = np.array(x, dtype=float)
        res.append(tuple(x))
        what = observers[n[0] % len(observers)] if observers else 0
        n[0] += 1
        if case["strategy"] != "RANDOM":
            if what == 1:
                strategy.save(os.path.join(directory, "snapshot"))
            elif what == 2:  # a copy may be used for anything
                twin = copy.deepcopy(strategy)
                state = np.random.get_state()
                twin.X[:] = 0.0
                twin.fX[:] = 7.0
                if twin.surrogate.num_pts > 0:
                    twin.surrogate.reset()
                try:
                    twin.resume()
                    twin.propose_action()
                except Exception:
                    pass  # the copy was ruined on purpose
                np.random.set_state(state)
            elif what == 3:
                np.array(strategy.X), np.array(strategy.fX), [r.value for r in strategy.fevals]
        return f(x)

    ctrl.objective = obj
    ctrl.strategy = strategy
    rec = ctrl.run()
    return res, None if rec is None else (tuple(rec.params[0]), rec.value)


def run(case, stats):
    if case["what"] == "observe":
        c = case["runs"][0]
        directory = tempfile.mkdtemp(prefix="c28-")
        try:
            a = observed(c, [], directory)
        except ValueError as e:
            shutil.rmtree(directory, ignore_errors=True)
            if no_design(e):
                raise Discard("no valid design")
            raise
        try:
            b = observed(c, case["moves"], directory)
        finally:
            shutil.rmtree(directory, ignore_errors=True)
        require(len(a[0]) == len(b[0]), "%d evaluations if the strategy is observed, %d if not", len(b[0]), len(a[0]))
        for k, (x, y) in enumerate(zip(a[0], b[0])):
            require(x == y, "evaluation %d is %s instead of %s if the strategy is saved or copied during the run", k, y, x)
        require(a[1] == b[1], "result %s instead of %s if the strategy is observed", b[1], a[1])
        stats.label("observed")
        stats.label("observed " + c["strategy"])
        stats.nontrivial = c["strategy"] != "RANDOM" and c["max_evals"] > c["npts"] and any(case["moves"])
        return
    alone = [solo(c, stats) for c in case["runs"]]
    together = interleaved(case, stats)
    busy = 0
    for i, ((sim, a), b) in enumerate(zip(alone, together)):
        for k, (x, y) in enumerate(zip(a, b)):
            require(x == y, "run %d (%s): answer %d is %s instead of %s if other runs are active", i, sim.name, k, y[:8], x[:8])
        require(len(a) == len(b), "run %d (%s): %d answers instead of %d if other runs are active", i, sim.name, len(b), len(a))
        busy += label(sim, stats) > 0
    stats.label("shared objects", case["share"])
    stats.nontrivial = busy >= 2
