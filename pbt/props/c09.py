"""C09: a resumed run continues the interrupted one."""
import os

import numpy as np
from hypothesis import strategies as st

from ..ckpt import (HIST, Crash, CheckpointController, Ctrl, History, Scratch, check_snapshot, load, make_strategy, read_tree)
from ..core import require
from ..gen import script, sim_case
from ..sim import Prob, is_known, objective

CASES = {"quick": 1600, "thorough": 30000}
RULE = (
    "generated checkpointed run that is interrupted one to three times at generated points of its schedule (in-flight "
    "evaluations, partly handed-out designs and batches included) and resumed from the file each time by a new controller; "
    "non-trivial: at least one interruption followed by further evaluations"
)


@st.composite
def cases(draw, tier):
    c = draw(sim_case(strategies=("SRBF", "DYCORS", "EI", "LCB", "SOP"), maxdim=2, max_adapt=16 if tier == "quick" else 60,
                      maxlen=30, surrogates=["idw", "idw", "cubic"], gp_adapt=2,
                      objs=("sphere", "rugged", "const", "const", "hash", "steps")))
    if c["strategy"] in ("EI", "LCB"):
        c["surrogate"] = "gp"
    c["crash"] = draw(st.lists(st.one_of(st.integers(1, 6), st.integers(1, 20)), min_size=1, max_size=3))
    c["scripts"] = [draw(script(20)) for _ in c["crash"]]
    c["fname"] = draw(st.sampled_from(["ck.pysot", "sub/ck.pysot"]))
    return c


def refused(fn, root, what):
    before = read_tree(root)
    try:
        fn()
    except Crash:
        require(False, "%s was not refused", what)
    except Exception:
        pass
    else:
        require(False, "%s was not refused", what)
    require(read_tree(root) == before, "%s changed files", what)


def run(case, stats):
    with Scratch() as root:
        os.makedirs(os.path.join(root, "sub"))
        h = History(case)
        h.f = objective(case["obj"], Prob(case["lb"], case["ub"], case["int"]))
        HIST.clear()
        HIST["h"] = h
        HIST["around"] = lambda fn: fn()
        np.random.seed(case["seed"])
        fname = case["fname"]

        def no_file():
            ctrl = Ctrl(case, case["script"], crash_after=1)
            CheckpointController(ctrl, fname=fname).resume()

        refused(no_file, root, "resuming without a checkpoint file")
        ctrl = Ctrl(case, case["script"], crash_after=case["crash"][0])
        ctrl.strategy = make_strategy(case)
        res = None
        segments = []
        fail_after = 0

        def launch(ctrl, how):
            try:
                return how()
            except Crash:
                return None
            finally:
                segments.append(ctrl)

        res = launch(ctrl, CheckpointController(ctrl, fname=fname).run)
        fail_after += ctrl.fail_after
        limits = list(case["crash"][1:]) + [None]
        k = 0
        dead = res is None
        while dead:
            def again():
                other = Ctrl(case, [], crash_after=1)
                other.strategy = make_strategy(case)
                CheckpointController(other, fname=fname).run()

            seed = np.random.get_state()
            nfin = len(h.finished)
            refused(again, root, "a new run over an existing checkpoint")
            require(len(h.finished) == nfin, "a new run over an existing checkpoint evaluated something")
            np.random.set_state(seed)
            with open(fname, "rb") as f:
                snap = load(f.read(), "interruption %d" % (k + 1))
            check_snapshot(snap, h, len(h.finished), "interruption %d" % (k + 1))
            old = Plan(case, snap, h, segments)
            ctrl = Ctrl(case, case["scripts"][k], crash_after=limits[k])
            check = CheckpointController(ctrl, fname=fname)
            first = {}

            def probe(c=ctrl, h=h, first=first):
                """Called at the first proposal of the resumed run: the state right after resume()."""
                s = c.strategy
                n = check_snapshot(s, h, len(h.finished), "after resume")
                require(n == len(h.finished), "resume lost evaluations")
                require(s.pending_evals == 0, "pending_evals is %s right after resume", s.pending_evals)
                require(len(s.Xpend) == 0, "Xpend has %d points right after resume", len(s.Xpend))
                require(len(c.fevals) == len(h.finished), "the controller knows %d of %d evaluations after resume",
                        len(c.fevals), len(h.finished))

            HIST["first"] = probe
            res = launch(ctrl, check.resume)
            fail_after += ctrl.fail_after
            old.judge(ctrl, stats)
            stats.label("resumed")
            if ctrl.evs:
                stats.nontrivial = True
            dead = res is None and limits[k] is not None and ctrl.nfin >= limits[k]
            k += 1
        done = [f for f in h.finished if f[1] is not None]
        n = len(done)
        require(n <= case["max_evals"], "%d evaluations completed in total, budget %d", n, case["max_evals"])
        if case["restarts"] or case["strategy"] == "SOP":
            require(n >= case["max_evals"] - fail_after, "%d evaluations completed in total, budget %d (%d failed late)", n,
                    case["max_evals"], fail_after)
        if done:
            best = min(v for _, v in done)
            require(res is not None and res.value == best, "the run returns %s, the best value is %s", res and res.value, best)
            x = tuple(np.asarray(res.params[0], dtype=float))
            require((x, best) in done, "the run returns %s, which was not evaluated with value %s", x, best)
        with open(fname, "rb") as f:
            check_snapshot(load(f.read(), "final file"), h, len(h.finished), "final file")
        stats.label(case["strategy"] + ("/async" if case["async"] else "/sync"))
        if res is not None and (n >= case["max_evals"] or fail_after == 0):  # resuming a run that has come to its end
            stats.label("finished run resumed")
            HIST["first"] = lambda: None
            nfin = len(h.finished)
            ctrl = Ctrl(case, case["scripts"][-1])
            again = CheckpointController(ctrl, fname=fname).resume()
            require(not ctrl.evs and len(h.finished) == nfin, "resuming a finished run evaluates %d more points", len(ctrl.evs))
            require(again is not None and again.value == res.value, "the finished run returned %s, resumed it returns %s",
                    res.value, again and again.value)
            with open(fname, "rb") as f:
                check_snapshot(load(f.read(), "file of the finished run"), h, nfin, "file of the finished run")


class Plan:
    """What the initial design still owes at the time of the interruption (only if it was interrupted)."""

    def __init__(self, case, snap, h, segments):
        des = snap.exp_design.log
        self.initial = snap.surrogate.npred == 0  # no adaptive point since the last design
        self.run = len(des)
        design = [tuple(x) for x in des[-1]]
        if self.run == 1:
            pts = case.get("extra") or []
            design += [tuple(p[0]) for i, p in enumerate(pts) if not is_known(case, i)]
        rows = []
        if self.run == 1:
            rows = [x for x, v in h.finished if v is not None]
        else:  # completed evaluations of the current run are those in the surrogate
            rows = [tuple(x) for x in np.asarray(snap.surrogate.X)]
        self.left = list(design)
        self.done = []
        for x in rows:
            if x in self.left:
                self.left.remove(x)
                self.done.append(x)
        self.budget = case["max_evals"] - sum(v is not None for _, v in h.finished)
        self.nfin = len(h.finished)
        self.h = h

    def judge(self, ctrl, stats):
        if not self.initial:
            return
        stats.label("interrupted in the initial design")
        evs = [x for x, adaptive, run, npred in ctrl.evs if npred == 0 and run == self.run]
        adapted = any(npred > 0 or run > self.run for _, _, run, npred in ctrl.evs)
        failed = [x for x, v in self.h.finished[self.nfin:] if v is None]
        left = list(self.left)
        for x in evs:
            if x in left:
                left.remove(x)
            elif x in failed:
                failed.remove(x)
            else:
                require(self.run > 1, "the resumed run evaluates %s, which had been evaluated before the interruption", x)
                require(x not in self.done, "the resumed run evaluates %s again, a finished point of the initial design", x)
        if adapted:
            require(not left, "the adaptive phase starts although %d points of the interrupted initial design were never "
                    "evaluated: %s", len(left), left[:3])
