"""C08: checkpoint files are always complete and up to date."""
import hashlib
import os

import numpy as np
from hypothesis import strategies as st

from ..ckpt import (HIST, Crash, CheckpointController, Ctrl, History, Observer, Scratch, SizeLimit, check_snapshot, load,
                    make_strategy, read_tree)
from ..core import Violation, require
from ..gen import sim_case
from ..sim import Prob, objective

LEVEL = "fault_enumeration"
CASES = {"quick": 1600, "thorough": 30000}
RULE = (
    "generated checkpointed run (strategy, schedule with failures, file name with or without directory); the checkpoint "
    "directory is inspected before and after every C-level I/O operation of every save (each such state is what a process "
    "killed there leaves behind), and one save is hit by a write error at a generated file size; non-trivial: at least three "
    "completed saves, at least one of them with an adaptive evaluation finished"
)
ASSUMPTIONS = [
    "a killed process leaves behind exactly what the operating system has been given so far (no power failure)",
]


@st.composite
def cases(draw, tier):
    c = draw(sim_case(strategies=("SRBF", "DYCORS", "EI", "LCB", "SOP"), maxdim=2, max_adapt=6 if tier == "quick" else 20,
                      maxlen=20, surrogates=["idw", "idw", "cubic"], gp_adapt=1, large=False,
                      objs=("sphere", "rugged", "const", "hash", "steps")))
    if c["strategy"] in ("EI", "LCB"):
        c["surrogate"] = "gp"
    c["fname"] = draw(st.sampled_from(["ck.pysot", "ck.pysot", "sub/ck.pysot", "ABS/sub/ck.pysot", "./ck.pysot", "sub/deep/x"]))
    c["eio"] = draw(st.one_of(st.none(), st.tuples(st.integers(1, 8), st.sampled_from([0.0, 0.1, 0.5, 0.9, 0.99]))))
    return c


class Run:
    def __init__(self, case, root):
        self.case, self.root = case, root
        self.h = History(case)
        self.h.f = objective(case["obj"], Prob(case["lb"], case["ub"], case["int"]))
        self.fname = case["fname"].replace("ABS", root)
        self.rel = os.path.relpath(os.path.join(root, self.fname), root)
        self.seen = {}
        self.states = 0

    def look(self, event="after", name="a save"):
        """Judge what a crash right now would leave behind."""
        what = "process killed %s %s" % ({"c_call": "before", "c_return": "after"}.get(event, event), name)
        path = os.path.join(self.root, self.rel)
        try:
            with open(path, "rb") as f:
                data = f.read()
        except FileNotFoundError:
            require(self.h.saved == 0, "%s: no checkpoint file although %d evaluations were saved", what, self.h.saved)
            return None
        self.states += 1
        key = hashlib.sha1(data).hexdigest()
        if key not in self.seen:
            self.seen[key] = check_snapshot(load(data, what), self.h, self.h.saved, what)
        n = self.seen[key]
        require(n >= self.h.saved, "%s: the file has %d finished evaluations, %d were saved before", what, n, self.h.saved)
        return n

    def after_save(self, ctrl):
        n = self.look()
        require(n == len(self.h.finished), "after the save for evaluation %d the file has only %s", len(self.h.finished), n)


def run(case, stats):
    with Scratch() as root:
        os.makedirs(os.path.join(root, os.path.dirname(case["fname"].replace("ABS", root))), exist_ok=True)
        r = Run(case, root)
        HIST.clear()
        HIST["h"] = r.h
        HIST["after_save"] = r.after_save
        obs = Observer(r.look)

        def around(fn):
            k = len(r.h.finished)
            if case["eio"] is None or k != case["eio"][0]:
                return obs(fn)
            path = os.path.join(root, r.rel)
            size = os.path.getsize(path) if os.path.exists(path) else 20000
            with SizeLimit(int(size * case["eio"][1])):
                try:
                    obs(fn)
                except OSError:
                    pass
            stats.label("write error")
            r.look("when", "writing fails")
            raise Crash()

        HIST["around"] = around
        np.random.seed(case["seed"])
        ctrl = Ctrl(case, case["script"])
        ctrl.strategy = make_strategy(case)
        check = CheckpointController(ctrl, fname=r.fname)
        try:
            check.run()
            stats.label("terminated")
            n = r.look("after", "the run")
            require(n is None or n == len(r.h.finished), "after the run the file has %s of %d evaluations", n, len(r.h.finished))
            with open(os.path.join(root, r.rel), "rb") as f:
                last = load(f.read(), "after the run")
            for a in ("num_evals", "pending_evals", "accepted_count", "rejected_count", "terminate"):
                require(getattr(last, a) == getattr(ctrl.strategy, a), "after the run the file has %s=%s, the strategy has %s",
                        a, getattr(last, a), getattr(ctrl.strategy, a))
        except Crash:
            pass
        stats.label(case["strategy"])
        stats.label("directory" if "/" in case["fname"] else "bare name")
        stats.count("I/O operations observed", obs.events)
        stats.count("completed saves", r.h.saved)
        stats.count("distinct states loaded", len(r.seen))
        stats.nontrivial = r.h.saved >= 3 and any(e[3] > 0 for e in ctrl.evs)
