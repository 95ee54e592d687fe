"""Checkpointed runs: a controller driven by the case, histories kept outside of what is pickled, and an
observer that inspects the checkpoint directory at every I/O operation of the process."""
import builtins
import os
import resource
import shutil
import sys
import tempfile

import dill
import numpy as np
from poap.controller import Controller

import pySOT.strategy as pystrat
from pySOT.controller import CheckpointController
from pySOT.experimental_design import ExperimentalDesign
from pySOT.surrogate import CubicKernel, LinearTail, RBFInterpolant

from .core import Discard, HarnessError, Violation, require
from .sim import IDW, CheapGP, Prob, extra_arrays, is_known, make_design, no_design, objective


class LogDesign(ExperimentalDesign):
    """Keeps the generated designs (and is pickled with the strategy)."""

    def __init__(self, inner):
        self.inner, self.dim, self.num_pts, self.log = inner, inner.dim, inner.num_pts, []

    def generate_points(self, lb=None, ub=None, int_var=None):
        try:
            X = self.inner.generate_points(lb=lb, ub=ub, int_var=int_var)
        except ValueError as e:
            if no_design(e):
                raise Discard("no valid design")
            raise
        self.log.append(np.array(X, dtype=float))
        return X


class Counter:
    """Mixin: counts predictions since the last reset (an adaptive point needs one)."""

    npred = 0

    def reset(self):
        super().reset()
        self.npred = 0

    def predict(self, xx):
        self.npred += 1
        return super().predict(xx)


class LogIDW(Counter, IDW):
    pass


class LogGP(Counter, CheapGP):
    pass


class LogRBF(Counter, RBFInterpolant):
    pass


def make_strategy(case):
    prob = Prob(case["lb"], case["ub"], case["int"])
    des = LogDesign(make_design(case["design"], prob.dim, case["npts"], case["iters"]))
    d, lb, ub = prob.dim, prob.lb, prob.ub
    if case["surrogate"] == "gp":
        sur = LogGP(d, lb, ub)
    elif case["surrogate"] == "cubic":
        sur = LogRBF(d, lb, ub, kernel=CubicKernel(), tail=LinearTail(d))
    else:
        sur = LogIDW(d, lb, ub)
    pts, vals = extra_arrays(case)
    kw = dict(max_evals=case["max_evals"], opt_prob=prob, exp_design=des, surrogate=sur, asynchronous=case["async"],
              batch_size=None if case["async"] else case["batch"], extra_points=pts, extra_vals=vals,
              use_restarts=case["restarts"])
    if case["strategy"] in ("SRBF", "DYCORS", "SOP"):
        kw["num_cand"] = case["num_cand"]
    if case["strategy"] in ("SRBF", "DYCORS"):
        kw["weights"] = case.get("weights")
    if case["strategy"] == "SOP":
        kw["ncenters"] = case["ncenters"]
    cls = dict(SRBF=pystrat.SRBFStrategy, DYCORS=pystrat.DYCORSStrategy, SOP=pystrat.SOPStrategy,
               EI=pystrat.EIStrategy, LCB=pystrat.LCBStrategy)[case["strategy"]]
    return cls(**kw)


class Crash(BaseException):
    """The process dies here."""


class History:
    """What really happened, as seen by the world outside of the process."""

    def __init__(self, case):
        self.case = case
        pts, vals = extra_arrays(case)
        self.known = [] if pts is None else [(tuple(pts[k]), float(vals[k, 0])) for k in range(len(pts)) if is_known(case, k)]
        self.finished = []  # (x, value or None) in order of finishing
        self.saved = 0  # finished evaluations whose save has completed
        self.best = np.inf


HIST = {}  # current history, found by the (pickled) controller through this module


class Ctrl(Controller):
    """Drives the strategy through a schedule; hooks decide when the 'process' dies."""

    def __init__(self, case, script, crash_after=None, hook=None):
        super().__init__()
        self.case, self.script, self.crash_after = case, list(script), crash_after
        self.flying = []
        self.design = 0
        self.nfin = 0
        self.evs = []  # (x, adaptive, run) handed out by this controller
        self.fail_after = 0
        self.committed = False
        self.batch = None  # accepted points of the current batch, None if it began before the interruption

    def pace(self, res):
        """A resumed run makes full use of its workers: busy or lost centers and batches would show here."""
        case, s, n = self.case, self.strategy, len(self.flying)
        if res == "none" and case["async"] and case["restarts"] and not self.committed and s.num_evals + n < case["max_evals"]:
            require(case["strategy"] == "SOP" and n >= case["ncenters"], "nothing proposed with %d evaluations in flight although %d "
                    "of %d remain", n, case["max_evals"] - s.num_evals - n, case["max_evals"])
        if isinstance(res, tuple) and not case["async"]:
            if res[1]:
                require(self.batch in (None, case["batch"]), "a new batch after %s accepted points of the last one, batch size %d",
                        self.batch, case["batch"])
                self.batch = 0
            elif len(s.exp_design.log) != self.design:
                self.batch = None
        self.design = len(s.exp_design.log)

    def propose(self):
        s = self.strategy
        if s.num_evals + len(self.flying) >= self.case["max_evals"]:
            self.committed = True
        n0, d0 = s.surrogate.npred, len(s.exp_design.log)
        p = s.propose_action()
        if p is None:
            return "none"
        if p.action == "terminate":
            p.accept()
            return "terminate"
        return p, s.surrogate.npred > n0 and len(s.exp_design.log) == d0

    def accept(self, p, adaptive):
        x = np.array(p.args[0], dtype=float)
        p.record = self.new_feval(p.args)
        p.accept()
        rec = p.record
        self.flying.append(rec)
        self.evs.append((tuple(x), adaptive, len(self.strategy.exp_design.log), self.strategy.surrogate.npred))

    def finish(self, k, how):
        h = HIST["h"]
        rec = self.flying.pop(k)
        x = tuple(np.array(rec.params[0], dtype=float))
        if how == "complete":
            v = h.f(np.array(x))
            h.finished.append((x, v))
            HIST["around"](lambda: rec.complete(v))
        else:
            self.fail_after += self.committed
            h.finished.append((x, None))
            HIST["around"](lambda: rec.kill() if how == "kill" else rec.cancel())
        h.saved = len(h.finished)
        self.nfin += 1
        if HIST.get("after_save"):
            HIST["after_save"](self)
        if self.crash_after is not None and self.nfin >= self.crash_after:
            raise Crash()

    def run(self):
        case = self.case
        if HIST.get("first"):
            HIST.pop("first")()
        W = case["workers"]
        script = self.script
        idle = 0
        res = None
        pos = 0
        while res != "terminate":
            code = script[pos] if pos < len(script) else 0
            if pos >= len(script) and len(self.flying) >= W:
                code = 4
            pos += 1
            require(pos < 5000, "the run does not end")
            op, arg = code % 10, code // 10
            n = len(self.flying)
            if n and (op in (4, 5, 6) or n >= W):
                self.finish(arg % n, "complete")
            elif n and op == 7 and case["faults"]:
                self.finish(arg % n, "kill" if arg // n % 2 else "cancel")
            else:
                res = self.propose()
                self.pace(res)
                if res == "terminate":
                    break
                if res == "none":
                    require(n > 0, "nothing in flight and nothing proposed")
                    self.finish(arg % n, "complete")
                else:
                    p, adaptive = res
                    if op == 8:
                        p.reject()
                    else:
                        self.accept(p, adaptive)
                        if self.batch is not None:
                            self.batch += 1
        HIST["around"](self.call_term_callbacks)
        return self.best_point()


def load(data, what):
    """Load a snapshot; anything else than a strategy is a violation."""
    import io

    try:
        s = dill.load(io.BytesIO(data))
    except Exception as e:
        raise Violation("%s: the checkpoint file (%d bytes) can't be loaded: %s: %s" % (what, len(data), type(e).__name__, e))
    require(hasattr(s, "propose_action") and hasattr(s, "fevals") and hasattr(s, "X"), "%s: loaded %r instead of a strategy",
            what, type(s))
    return s


def check_snapshot(s, h, least, what):
    """The strategy holds a prefix of the history with at least `least` finished evaluations; returns its length."""
    n = len(s.fevals)
    require(n >= least, "%s: the snapshot has %d finished evaluations, %d were finished at the last completed save", what, n, least)
    require(n <= len(h.finished), "%s: the snapshot has %d finished evaluations, only %d finished", what, n, len(h.finished))
    for r, (x, v) in zip(s.fevals, h.finished):
        require(np.array_equal(np.asarray(r.params[0], dtype=float), np.array(x)), "%s: evaluation of %s recorded as %s",
                what, x, r.params[0])
        require(r.is_done and r.is_completed == (v is not None), "%s: evaluation of %s is recorded as %s", what, x, r.status)
        require(v is None or r.value == v, "%s: value %s recorded as %s", what, v, r.value)
    done = h.known + [f for f in h.finished[:n] if f[1] is not None]
    X, fX = np.asarray(s.X), np.asarray(s.fX)
    require(X.shape == (len(done), len(h.case["lb"])) and fX.shape == (len(done), 1), "%s: X %s and fX %s for %d points",
            what, X.shape, fX.shape, len(done))
    if done:
        require(np.array_equal(X, np.array([x for x, _ in done])), "%s: X differs from the finished evaluations", what)
        require(np.array_equal(fX[:, 0], np.array([v for _, v in done])), "%s: fX differs from the values", what)
    require(s.num_evals == len(done) - len(h.known), "%s: num_evals is %s, %d completed", what, s.num_evals,
            len(done) - len(h.known))
    return n


class Scratch:
    """A private directory; the process works in it while a case runs."""

    def __enter__(self):
        self.old = os.getcwd()
        self.path = os.path.realpath(tempfile.mkdtemp(prefix="pbt-ckpt-"))
        os.chdir(self.path)
        return self.path

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.path)


def read_tree(root):
    res = {}
    for dp, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(dp, f)
            try:
                with open(p, "rb") as fh:
                    res[os.path.relpath(p, root)] = fh.read()
            except FileNotFoundError:
                pass
    return res


IONAMES = {"write", "writelines", "flush", "close", "__exit__", "truncate", "open", "rename", "replace", "remove", "unlink",
           "sendfile", "copy_file_range", "link", "symlink", "fsync", "fdatasync", "ftruncate", "pwrite", "writev", "mkdir"}
FILES = {"FileIO", "BufferedWriter", "BufferedRandom", "BufferedRWPair", "TextIOWrapper"}


class Observer:
    """Profile hook: calls `look` before and after every C-level I/O operation of this process."""

    def __init__(self, look):
        self.look = look
        self.events = 0

    def hook(self, frame, event, arg):
        if event in ("c_call", "c_return", "c_exception") and arg.__name__ in IONAMES:
            owner = type(getattr(arg, "__self__", None)).__name__
            mod = getattr(arg, "__module__", None)
            if owner in FILES or mod in ("posix", "_io", "io"):
                self.events += 1
                sys.setprofile(None)
                try:
                    self.look(event, arg.__name__)
                finally:
                    sys.setprofile(self.hook)

    def __call__(self, fn):
        sys.setprofile(self.hook)
        try:
            return fn()
        finally:
            sys.setprofile(None)


class SizeLimit:
    """Writes beyond `limit` bytes of a file fail with EFBIG (as on a full disk)."""

    def __init__(self, limit):
        self.limit = limit

    def __enter__(self):
        self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.limit, self.old[1]))

    def __exit__(self, *a):
        resource.setrlimit(resource.RLIMIT_FSIZE, self.old)
