"""C29: runs under POAP's own controllers end correctly and return the best evaluation."""
import os
import shutil
import tempfile
import threading
import time

import dill
import numpy as np
from hypothesis import strategies as st
from poap.controller import BasicWorkerThread, SerialController, SimTeamController, ThreadController
from poap.strategy import CheckWorkerStrategy

from pySOT.controller import CheckpointController

from ..core import Discard, Violation, require
from ..gen import sim_case
from ..sim import Sim, build, extra_arrays, is_known, objective

CASES = {"quick": 1600, "thorough": 30000}
RULE = (
    "generated configuration run by POAP's serial, simulated-time or threaded controller (optionally behind CheckWorkerStrategy or "
    "pySOT's CheckpointController) with generated numbers of workers, evaluation times and crashing evaluations; non-trivial: "
    "adaptive evaluations (any for random search)"
)
ASSUMPTIONS = ["the order of events in the threaded controller is the operating system's; only order-independent facts are judged"]


@st.composite
def cases(draw, tier):
    c = draw(sim_case(max_adapt=24 if tier == "quick" else 80, maxlen=0, gp_adapt=3,
                      objs=("sphere", "rugged", "const", "steps", "linear", "hash")))
    c["controller"] = draw(st.sampled_from(["serial", "team", "team", "team", "thread"]))
    c["check"] = draw(st.booleans()) and c["controller"] == "thread"
    c["chkpt"] = draw(st.integers(0, 3)) == 0 and c["strategy"] != "RANDOM"
    c["delays"] = draw(st.lists(st.sampled_from([0, 0, 1, 1, 2, 5, 20]), min_size=1, max_size=12))
    c["crash"] = draw(st.one_of(st.just([0]), st.lists(st.sampled_from([0, 0, 0, 0, 1]), min_size=2, max_size=12)))
    return c


class Sink:
    """Discards degenerate data exactly as in the simulated runs; counts the predictions."""

    def __init__(self):
        self.predictions = 0

    def before_predict(self, sur, xx):
        Sim.before_predict(self, sur, xx)
        self.predictions += 1

    def on_predict(self, sur, X, y):
        pass

    def on_reset(self):
        pass

    def on_add(self, x, fx):
        pass


def execute(case, directory):
    """Runs the case; returns what happened."""
    np.random.seed(case["seed"])
    prob, des, sur, strat, _ = build(case, rec=True)
    sink = Sink()
    if case["strategy"] == "RANDOM":
        strategy = strat
    else:
        sur.sink = sink
        strategy = strat[0](**strat[1])
    f = objective(case["obj"], prob)
    lock = threading.Lock()
    log = dict(calls=0, ok=[], crashed=0, busy=0, most=0)
    resource = (None for _ in ())  # Like a connection or a process, it cannot be part of a snapshot
    kind = case["controller"]
    crash = case["crash"] if any(v == 0 for v in case["crash"]) else [0]

    def obj(x):
        with lock:
            k = log["calls"]
            log["calls"] += 1
            log["busy"] += 1
            log["most"] = max(log["most"], log["busy"])
        try:
            assert resource is not None
            if kind == "thread":
                time.sleep(case["delays"][k % len(case["delays"])] * 2e-4)
            x = np.array(x, dtype=float)
            if crash[k % len(crash)]:
                with lock:
                    log["crashed"] += 1
                raise RuntimeError("crash")
            v = f(x)
            with lock:
                log["ok"].append((tuple(x), v))
            return v
        finally:
            with lock:
                log["busy"] -= 1

    W = case["workers"]
    flight = [0, 0]
    if kind == "serial":
        ctrl = SerialController(objective=obj)
        args = dict(reraise=False)
    elif kind == "team":
        n = [0]

        def delay(record):
            n[0] += 1
            return case["delays"][n[0] % len(case["delays"])]

        ctrl = SimTeamController(obj, delay, W)
        args = {}
    else:
        ctrl = ThreadController()
        for _ in range(W):
            ctrl.launch_worker(BasicWorkerThread(ctrl, obj), daemon=True)
        args = {}

    def started(record):
        flight[0] += 1
        flight[1] = max(flight)

        def update(r):
            if r.is_done:
                flight[0] -= 1
        record.add_callback(update)

    ctrl.add_feval_callback(started)
    ctrl.strategy = CheckWorkerStrategy(ctrl, strategy) if case["check"] and not case["chkpt"] else strategy
    top = ctrl
    fname = None
    if case["chkpt"]:
        sur.sink = None  # snapshots hold the surrogate
        fname = os.path.join(directory, "snapshot")
        top = CheckpointController(ctrl, fname=fname)
        inner = ctrl.run
        ctrl.run = lambda: inner(**args)
        args2 = {}
    else:
        args2 = args
    res = {}

    def go():
        try:
            res["record"] = top.run(**args2)
        except BaseException as e:
            res["error"] = e

    if kind == "thread":
        t = threading.Thread(target=go, daemon=True)
        t.start()
        t.join(120)
        require(not t.is_alive(), "the run does not end: %d of %d evaluations done", len(log["ok"]), case["max_evals"])
    else:
        go()
    if "error" in res:
        raise res["error"]
    # With threads a worker may be free again before the completion of its last evaluation is handled.
    most = log["most"] if kind == "thread" else flight[1]
    return prob, strategy, ctrl, res["record"], log, most, sink.predictions, fname


def run(case, stats):
    directory = tempfile.mkdtemp(prefix="c29-")
    try:
        judge(case, stats, directory)
    finally:
        shutil.rmtree(directory, ignore_errors=True)


def judge(case, stats, directory):
    try:
        prob, strategy, ctrl, rec, log, most, predictions, fname = execute(case, directory)
    except np.linalg.LinAlgError:
        if case["chkpt"]:
            raise Discard("degenerate data")
        raise
    except AssertionError:
        if case["chkpt"] or "surrogate" not in case:
            raise Discard("too few points to fit")
        raise
    except NameError as e:
        raise Violation("the serial controller got no proposal: %s" % e)
    N = case["max_evals"]
    done = [r for r in ctrl.fevals if r.is_completed]
    lost = [r for r in ctrl.fevals if not r.is_completed]
    require(len(done) == len(log["ok"]) and len(done) <= N, "%d completed evaluations, budget %d", len(done), N)
    require(all(r.is_done for r in ctrl.fevals), "the run ended with evaluations in flight")
    if not lost or case["strategy"] == "RANDOM":
        converged = case["strategy"] != "RANDOM" and not case["restarts"] and len(done) < N
        require(len(done) == N or converged, "the run ended after %d evaluations, budget %d", len(done), N)
    require(most <= (1 if case["controller"] == "serial" else case["workers"]), "%d evaluations at once", most)
    best = min(v for _, v in log["ok"]) if log["ok"] else None
    require((rec is None) == (best is None), "result %s, best value %s", rec, best)
    if rec is not None:
        require(rec.value == best, "the result has value %r, the best evaluation %r", rec.value, best)
        require((tuple(np.asarray(rec.params[0], dtype=float)), rec.value) in log["ok"], "the result was never evaluated")
    if case["strategy"] != "RANDOM":
        known = []
        pts, vals = extra_arrays(case)
        if pts is not None:
            known = [tuple(pts[k]) + (float(vals[k, 0]),) for k in range(len(pts)) if is_known(case, k)]
        rows = [tuple(x) + (float(v),) for x, v in zip(np.asarray(strategy.X), np.asarray(strategy.fX).ravel())]
        require(rows[: len(known)] == known, "known extra points are not first in X")
        want = [x + (v,) for x, v in log["ok"]]
        if case["controller"] == "thread":
            want, rows = sorted(want), sorted(rows[len(known):])
        else:
            rows = rows[len(known):]
        require(rows == want, "X and fX differ from the evaluations: %d and %d rows", len(rows), len(want))
        require(strategy.num_evals == len(done) and strategy.pending_evals == 0 and len(strategy.Xpend) == 0,
                "num_evals=%s pending_evals=%s Xpend=%s after the run", strategy.num_evals, strategy.pending_evals, strategy.Xpend)
        require(len(strategy.fevals) == len(ctrl.fevals), "fevals has %d records, the controller %d", len(strategy.fevals), len(ctrl.fevals))
        if fname is not None:
            with open(fname, "rb") as f:
                snap = dill.load(f)
            require(np.array_equal(snap.X, strategy.X) and np.array_equal(snap.fX, strategy.fX) and snap.num_evals == len(done),
                    "the final snapshot has %d evaluations, the run %d", snap.num_evals, len(done))
            stats.label("checkpointed")
    stats.label(case["controller"] + "/" + case["strategy"])
    stats.label("crashes", bool(lost))
    stats.label("parallel", most > 1)
    stats.nontrivial = len(done) > (0 if case["strategy"] == "RANDOM" else case["npts"])
