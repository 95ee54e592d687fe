"""C07: known extra points are used, unknown ones evaluated once."""
import numpy as np

from ..core import require
from ..gen import sim_case
from ..sim import Monitor, Owed, Sim, is_known, label, remove_row
from ..stat import ks_uniform, pit
from .c03 import check_history

CASES = {"quick": 2400, "thorough": 40000}
RULE = (
    "generated configuration with 1-4 extra points (values missing, None/nan/inf, or known; sometimes better than everything "
    "else) and a generated schedule; non-trivial: the adaptive phase was reached"
)
STRATS = ("SRBF", "DYCORS", "SRBF", "DYCORS", "EI", "LCB", "SOP")


def cases(tier):
    return sim_case(strategies=STRATS, max_adapt=40 if tier == "quick" else 120, maxlen=80 if tier == "quick" else 200,
                    extras="always", objs=("sphere", "rugged", "const", "const", "steps", "hash", "pattern"))


class Mon(Monitor):
    def start(self, sim):
        self.owed = Owed()
        self.adapt_done = False
        self.pit = []
        self.centers = set()
        self.given = None if sim.pts is None else (sim.pts.copy(), None if sim.vals is None else sim.vals.copy())

    def on_design(self, sim, X):
        self.owed.on_design(sim, X)

    def on_eval(self, sim, x, p):
        if not sim.adaptive:
            require(self.owed.due(x), "handed out %s, which is neither adaptive nor a point of the design nor an extra point "
                    "that has to be evaluated (run %d)", x, sim.run_no)

    def after(self, sim, kind, ev=None):
        check_history(sim)
        if kind == "accept" and not ev.adaptive:
            self.owed.accepted(ev)
        if kind == "fail":
            self.owed.failed(sim, ev)
        if kind == "complete" and ev.adaptive:
            self.adapt_done = True

    def on_predict(self, sim, sur, X, y):
        require(not self.owed.owed, "adaptive phase starts although %d points (of the design or extra points without value) "
                "have not been handed out: %s", len(self.owed.owed), self.owed.owed[:2])
        rows = [tuple(e.x) + (e.value,) for e in sim.completed if e.run == sim.run_no]
        have = [tuple(a) + (float(b),) for a, b in zip(np.asarray(sur.X), np.asarray(sur.fX).ravel())]
        for x, f in sim.known:
            r = tuple(x) + (f,)
            n = rows.count(r) + (sim.run_no == 0)
            require(have.count(r) == n, "run %d: known extra point %s is %d times in the surrogate, expected %d",
                    sim.run_no, r, have.count(r), n)
        for k in range(len(sim.pts)):
            if not is_known(sim.case, k):
                x = tuple(sim.pts[k])
                n = sum(tuple(e.x) == x and e.run == sim.run_no for e in sim.completed)
                m = sum(h[:-1] == x for h in have)
                require(m == n, "run %d: extra point %s without value is %d times in the surrogate, %d evaluations completed",
                        sim.run_no, x, m, n)
        if sim.name in ("SRBF", "DYCORS") and sim.run_no == 0 and not self.adapt_done and len(X) == sim.case["num_cand"]:
            self.center(sim, X)

    def center(self, sim, C):
        """No adaptive result is known yet, so the radius is the initial one: candidates are normal around the best point."""
        data = [(f, tuple(x)) for x, f in sim.known] + [(e.value, tuple(e.x)) for e in sim.completed if e.run == 0]
        best = min(data)[0]
        arg = {x for f, x in data if f == best}
        if len(arg) > 1:
            return
        c = np.array(arg.pop())
        lb, ub = sim.prob.lb, sim.prob.ub
        if any(np.array_equal(c, x) for x, _ in sim.known):
            sim.stats.label("known extra point is the best")
        for j in range(sim.prob.dim):
            sig = 0.2 * (ub[j] - lb[j])
            isint = j in sim.prob.int_var
            col = C[:, j]
            if sim.name == "DYCORS":
                if isint:
                    continue
                col = col[col != c[j]]
            if isint:
                sig = max(sig, 1.0)
            if len(col):
                self.pit.append(pit(col, c[j], sig, lb[j], ub[j], isint))

    def end(self, sim):
        require(np.array_equal(sim.pts, self.given[0]), "extra_points was modified")
        if sim.vals is not None:
            require(np.array_equal(sim.vals, self.given[1], equal_nan=True), "extra_vals was modified")
        if self.pit:
            ks_uniform(np.concatenate(self.pit), "candidates around the best point of the run (extra points included)")


def run(case, stats):
    sim = Sim(case, Mon(), stats)
    for x, f in sim.known:
        require(remove_row([np.append(r, v) for r, v in zip(np.asarray(sim.sur.X), np.asarray(sim.sur.fX).ravel())],
                           np.append(x, f)), "known extra point %s is not in the surrogate from the start", x)
    require(sim.sur.num_pts == len(sim.known), "the surrogate starts with %s points, %d are known", sim.sur.num_pts, len(sim.known))
    check_history(sim)
    sim.run()
    stats.nontrivial = label(sim, stats) > 0
    if sim.known:
        stats.label("known values")
    if len(sim.known) < len(sim.pts):
        stats.label("unknown values")
