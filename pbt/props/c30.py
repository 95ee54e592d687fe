"""C30: the surrogate strategies optimize: far better than random search of the same budget on smooth problems."""
import os

import numpy as np
from hypothesis import strategies as st

from ..core import require
from ..gen import box, script, seeds
from ..sim import Monitor, Sim, label

CASES = {"quick": 280, "thorough": 8000}
RUNS = 5
RULE = (
    "generated strategy, surrogate, domain (2-4 variables, integer or continuous), schedule with failures and rejections and five "
    "generated convex quadratics each; the result's rank among 20000 uniform points is judged over the five runs; non-trivial: every case"
)
ASSUMPTIONS = [
    "the limit of 3e-3 (EI, LCB: 8e-3) for the geometric mean of the rank (random search: 1e-2, 3e-2) leaves a factor of 3 to the worst "
    "of 2400 groups of runs and of 10 to the 99% quantile; small losses of quality are invisible"
]
LIMIT, LIMIT_GP = 3e-3, 8e-3


@st.composite
def cases(draw, tier):
    name = draw(st.sampled_from(["SRBF", "DYCORS", "SOP", "SRBF", "DYCORS", "SOP", "EI", "LCB"]))
    gp = name in ("EI", "LCB")
    lb, ub, ints = draw(box(3 if gp else 4, mindim=2, min_int_width=12))
    dim = len(lb)
    mode = draw(st.sampled_from(["async", "sync", "serial"]))
    c = dict(strategy=name, lb=lb, ub=ub, int=ints, seed=draw(seeds), obj="const", nofail=draw(st.booleans()),
             norej=draw(st.booleans()), lifo=draw(st.booleans()), script=draw(script(60)), design=draw(st.sampled_from(["slhd", "lhd"])),
             npts=2 * (dim + 1), iters=20, num_cand=100, restarts=True)
    c["async"] = mode == "async"
    c["workers"] = 1 if mode == "serial" else draw(st.integers(1, 3))
    c["batch"] = None if c["async"] else 1 if mode == "serial" else draw(st.integers(1, 3))
    c["surrogate"] = "gpsmooth" if gp else draw(st.sampled_from(["cubic", "default", "tps"]))
    c["max_evals"] = c["npts"] + (12 if gp else 40)
    c["weights"] = None
    if name == "SOP":
        c["ncenters"] = 4
    if draw(st.integers(0, 3)) == 0:
        c["extra"] = [[[float(l + (u - l) * 0.5) if i not in ints else float(round((l + u) / 2)) for i, (l, u) in enumerate(zip(lb, ub))],
                       draw(st.sampled_from([None, "true"]))]]
    c["fscale"] = draw(st.sampled_from([1.0, 1.0, 1e-3, 1e5]))
    c["shift"] = draw(st.sampled_from([0.0, 0.0, -3.0, 100.0]))
    return c


class Quadratic:
    """A convex quadratic with its minimizer inside the box; condition number at most 10."""

    def __init__(self, case, seed):
        rng = np.random.RandomState(seed)
        self.lb, self.ub = np.array(case["lb"]), np.array(case["ub"])
        self.ints = case["int"]
        dim = len(self.lb)
        Q, _ = np.linalg.qr(rng.randn(dim, dim))
        self.A = Q @ np.diag(10 ** rng.uniform(0, 1, dim)) @ Q.T
        self.c = rng.uniform(0.15, 0.85, dim)
        self.scale, self.shift = case["fscale"], case["shift"]
        X = self.lb + rng.rand(20000, dim) * (self.ub - self.lb)
        for i in self.ints:
            X[:, i] = np.clip(np.round(X[:, i]), np.ceil(self.lb[i]), np.floor(self.ub[i]))
        self.sample = np.sort(self(X))

    def __call__(self, X):
        U = (np.atleast_2d(X) - self.lb) / (self.ub - self.lb) - self.c
        return self.scale * (np.einsum("ij,jk,ik->i", U, self.A, U) + self.shift)

    def rank(self, v):
        """Fraction of uniform points that are better."""
        return np.searchsorted(self.sample, v - 1e-12 * abs(v), side="left") / len(self.sample)


class QSim(Sim):
    def value_of(self, ev):
        return float(self.quad(ev.x)[0])


def run(case, stats):
    ranks = []
    for k in range(RUNS):
        c = dict(case, seed=(case["seed"] + 7919 * k) % 2 ** 31)
        quad = Quadratic(case, c["seed"])
        if "extra" in c:
            c["extra"] = [[p, float(quad(p)[0]) if v == "true" else None] for p, v in c["extra"]]
        sim = QSim(c, Monitor(), stats)
        sim.quad = quad
        sim.run()
        best = min([e.value for e in sim.completed] + [v for _, v in sim.known])
        ranks.append(quad.rank(best))
        label(sim, stats)
    gm = float(np.exp(np.mean(np.log(np.array(ranks) + 1e-4))))
    if os.environ.get("C30_DUMP"):
        with open(os.environ["C30_DUMP"], "a") as f:
            f.write("%s %s %d %d %s %.6f %s\n" % (case["strategy"], case["surrogate"], len(case["lb"]), len(case["int"]),
                    "async" if case["async"] else "sync", gm, ranks))
    require(gm <= (LIMIT_GP if case["surrogate"] == "gpsmooth" else LIMIT), "the points found on %d smooth convex problems are not much better than those of random search: "
            "fractions of better points %s, geometric mean %.5f", RUNS, ranks, gm)
    stats.label("ranks below 1e-3", sum(r < 1e-3 for r in ranks) == RUNS)
    stats.nontrivial = True
