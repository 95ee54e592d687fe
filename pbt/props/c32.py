"""C32: serial runs do not depend on the mode, synchronous runs not on the workers."""
import zlib

import numpy as np
from hypothesis import strategies as st

from ..core import require
from ..gen import seeds, sim_case
from ..sim import IDW, Monitor, Sim, label
from .. import sim as simmod

CASES = {"quick": 2400, "thorough": 40000}
RULE = (
    "generated configuration run twice with the same seed: (serial) asynchronous with one worker against synchronous with batch "
    "size 1, or (batch) synchronous with one worker against synchronous with several workers and a generated order of completion "
    "within the batches, rejections and crashes of generated adaptive points; the points must be the same, up to the order within "
    "a batch; non-trivial: adaptive points were compared"
)
ASSUMPTIONS = [
    "batch: values are distinct, and the surrogate of the harness does not depend on the order of its data (rounding errors of the "
    "library's surrogates do), unless both runs complete in the same order"
]


class OrderFree(IDW):
    """Inverse distance weighting, bitwise independent of the order of the data."""

    def predict(self, xx):
        order = np.lexsort(self.X.T)
        keep = self.X, self.fX
        self.X, self.fX = self.X[order], self.fX[order]
        try:
            return IDW.predict(self, xx)
        finally:
            self.X, self.fX = keep


class OrderFreeGP(simmod.CheapGP):
    predict = OrderFree.predict

    def predict_std(self, xx):
        d, _ = self._w(xx)
        return 1e-3 + np.std(np.sort(self.fX.ravel())) * d.min(axis=1, keepdims=True)


RecOrderFree, RecOrderFreeGP = simmod.recording(OrderFree), simmod.recording(OrderFreeGP)


@st.composite
def cases(draw, tier):
    what = draw(st.sampled_from(["serial", "batch", "batch", "batch", "fifo"]))
    c = draw(sim_case(strategies=("SRBF", "DYCORS", "SOP", "SRBF", "DYCORS", "SOP", "EI", "LCB"), modes=("sync",), gp_adapt=5,
                      objs=("sphere", "rugged", "hash", "linear") + (("steps", "const", "pattern") if what == "serial" else ()),
                      max_adapt=60 if tier == "quick" else 150, maxlen=120 if tier == "quick" else 300))
    c.update(what=what, faults=False, norej=True)
    c.pop("slow", None)
    if c.get("tol") == 1e6:
        c["tol"] = None
    if what == "serial":
        c["batch"] = c["workers"] = 1
        c["fail"] = draw(st.sampled_from([0, 0, 3, 8]))
    else:
        c["workers"] = draw(st.integers(2, 7))
        c["batch"] = max(c["batch"], draw(st.integers(1, 4)))
        c["fail"] = draw(st.sampled_from([0, 0, 3, 8]))
        if c["strategy"] == "SOP":
            c["batch"] = min(c["batch"], c["ncenters"])
        if what == "batch":
            c["norej"] = draw(st.booleans())
            c["surrogate"] = "orderfree"
    return c


class CrashSim(Sim):
    def value_of(self, ev):
        v = super().value_of(ev)
        if self.case["surrogate"] == "orderfree":  # no ties
            v += 1e-6 * zlib.crc32(np.ascontiguousarray(ev.x).tobytes()) / 2.0 ** 32
        return v

    def finish(self, k, how="complete"):
        """Crashes depend on the point, the second attempt succeeds."""
        ev, mod, x = self.inflight[k], self.case["fail"], self.inflight[k].x.tobytes()
        crash = mod and ev.adaptive and zlib.crc32(x) % mod == 0 and not any(e.state == "cancel" and e.x.tobytes() == x for e in self.evs)
        super().finish(k, "cancel" if crash else "complete")


class Trace(Monitor):
    def __init__(self):
        self.groups = [[]]  # points by design and batch; a point that is handed out again counts once
        self.last = None

    def on_eval(self, sim, x, p):
        key = (sim.run_no, sim.batch_no if sim.adaptive else -1)
        if key != self.last:
            if self.last is not None:
                self.groups.append([])
            self.last = key

    def after(self, sim, kind, ev=None):
        if kind == "accept":
            self.groups[-1].append(ev.x)


def execute(case, stats):
    t = Trace()
    s = CrashSim(case, t, stats)
    s.run()
    return s, t.groups


def run(case, stats):
    a = dict(case, nofail=True)
    if case["what"] == "serial":
        a["norej"] = True
        b = dict(a, batch=None)
        b["async"] = True
        if case["strategy"] == "SOP":
            a["fail"] = b["fail"] = 0
        how = "asynchronously instead of synchronously with batch size 1"
    else:
        b = a
        a = dict(a, workers=1, script=[], norej=True)
        if case["what"] == "fifo":
            b = dict(b, script=[], norej=True, lifo=False)
        how = "with %d workers instead of one" % b["workers"]
    keep = simmod.make_surrogate
    if case["surrogate"] == "orderfree":
        cls = RecOrderFreeGP if case["strategy"] in ("EI", "LCB") else RecOrderFree
        simmod.make_surrogate = lambda kind, prob, rec=True, share=None: cls(prob.dim, prob.lb, prob.ub)
    try:
        s1, g1 = execute(a, stats)
        s2, g2 = execute(b, stats)
    finally:
        simmod.make_surrogate = keep
    label(s2, stats)
    stats.label(case["what"])
    if case["what"] == "serial":
        p1, p2 = [x for g in g1 for x in g], [x for g in g2 for x in g]
        for k, (x, y) in enumerate(zip(p1, p2)):
            require(np.array_equal(x, y), "run %s: evaluation %d is at %s instead of %s", how, k, y, x)
        require(len(p1) == len(p2), "run %s: %d evaluations instead of %d", how, len(p2), len(p1))
        stats.nontrivial = any(e.adaptive for e in s1.evs)
        return
    # a crash frees budget, which only the run with one worker can use
    lost = any(e.state != "completed" for e in s1.evs)
    n = min(len(g1), len(g2))
    for k in range(n):
        A, B = sorted(map(tuple, g1[k])), sorted(map(tuple, g2[k]))
        if k == n - 1 and len(A) != len(B) and lost:
            continue
        if k == n - 1 and s2.rejected and len(A) < s1.case["batch"]:  # the budget cuts the last batch
            require(len(A) == len(B), "run %s: the last batch has %d points instead of %d", how, len(B), len(A))
            continue
        require(A == B, "run %s: batch %d is %s instead of %s", how, k, B, A)
    require(lost or len(g1) == len(g2), "run %s: %d batches instead of %d", how, len(g2), len(g1))
    stats.nontrivial = any(e.adaptive for e in s1.evs) and n > 2
