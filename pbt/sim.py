"""A controller owned by the harness: it drives a real pySOT strategy through a generated schedule.

The case decides every accept/reject/complete/fail/kill event and (optionally) every objective value,
so each run is a pure function of the case. Recording wrappers around the surrogate and the
experimental design show what the strategy trains on, which candidates it considers and when it
(re)starts, without touching any private state of the strategy.
"""
import zlib

import numpy as np
from poap.strategy import EvalRecord
from scipy.spatial.distance import cdist
from sklearn.gaussian_process import GaussianProcessRegressor
from sklearn.gaussian_process.kernels import RBF

import pySOT.experimental_design as pyexp
from pySOT.experimental_design import ExperimentalDesign, LatinHypercube, SymmetricLatinHypercube, TwoFactorial
from pySOT.optimization_problems import OptimizationProblem
from pySOT.strategy import (
    DYCORSStrategy,
    EIStrategy,
    LCBStrategy,
    RandomStrategy,
    SOPStrategy,
    SRBFStrategy,
)
from pySOT.surrogate import (
    ConstantTail,
    CubicKernel,
    GPRegressor,
    LinearKernel,
    LinearTail,
    PolyRegressor,
    RBFInterpolant,
    Surrogate,
    TPSKernel,
)

from .core import Discard, HarnessError, require

# The GA seeds its population with a symmetric Latin hypercube that is the best of 1000: only speed.
if SymmetricLatinHypercube.__init__.__defaults__ == (1000,):
    SymmetricLatinHypercube.__init__.__defaults__ = (4,)


class Prob(OptimizationProblem):
    """A box-constrained mixed-integer problem described by the case."""

    def __init__(self, lb, ub, int_var):
        self.dim = len(lb)
        self.lb = np.array(lb, dtype=float)
        self.ub = np.array(ub, dtype=float)
        self.int_var = np.array(sorted(int_var), dtype=int)
        self.cont_var = np.setdiff1d(np.arange(self.dim), self.int_var)
        self.info = "generated"

    def eval(self, x):
        raise HarnessError("the harness evaluates")


def objective(kind, prob):
    """Deterministic objective functions of the point."""
    lb, w = prob.lb, prob.ub - prob.lb

    def f(x):
        u = (np.asarray(x, dtype=float) - lb) / w
        if kind == "sphere":
            return float(np.sum((u - 0.3) ** 2))
        if kind == "rugged":
            return float(np.sum((u - 0.6) ** 2) + 0.3 * np.sum(np.sin(23 * u)))
        if kind == "const":
            return 1.25
        if kind == "steps":
            return float(np.round(4 * np.sum(np.abs(u - 0.4))))
        if kind == "linear":
            return float(1e3 * np.sum(u * (1 + np.arange(len(u)))) - 700.0)
        if kind == "hash":
            return (zlib.crc32(np.ascontiguousarray(u).tobytes()) % 100003) / 1e5 - 0.5
        if kind == "tiny":
            return float(1e-9 * np.sum((u - 0.3) ** 2))
        raise HarnessError("unknown objective " + kind)

    return f


def pattern_value(code, best):
    """Next scripted value relative to the best value so far."""
    if not np.isfinite(best):
        return [1.0, -3.0, 0.0, 50.0, 1e-3, -1e4, 7.0, 2.0][code % 8]
    scale = max(abs(best), 1e-2)
    k = code % 8
    if k in (0, 1, 2):
        return best + scale * (0.1 + k)  # clearly worse
    if k == 3:
        return best  # exactly equal
    if k == 4:
        return best - 4e-4 * scale if abs(best) >= 1e-2 else best - 2e-4 * abs(best)  # insignificant
    if k == 5:
        return best - 3e-3 * scale  # just significant
    return best - 0.5 * scale  # clear improvement


# == Surrogates ==


class IDW(Surrogate):
    """Inverse distance weighting: cheap, defined for any data."""

    def _w(self, xx):
        lb, ub = np.asarray(self.lb), np.asarray(self.ub)
        u = (np.atleast_2d(xx) - lb) / (ub - lb)
        X = (self.X - lb) / (ub - lb)
        d = cdist(u, X)
        return d, 1.0 / (1e-6 + d ** 2)

    def predict(self, xx):
        d, w = self._w(xx)
        self.updated = True
        return (w @ self.fX) / w.sum(axis=1, keepdims=True)

    def predict_deriv(self, xx):
        raise NotImplementedError


class CheapGP(GPRegressor):
    """A GPRegressor whose posterior is replaced by a cheap stand-in (prediction quality is irrelevant here)."""

    _w = IDW._w
    predict = IDW.predict

    def predict_std(self, xx):
        d, _ = self._w(xx)
        return 1e-3 + np.std(self.fX) * d.min(axis=1, keepdims=True)


def recording(cls):
    """Subclass of a surrogate class that reports reset/add_points/predict to a sink."""

    class Rec(cls):
        sink = None

        def reset(self):
            super().reset()
            if self.sink is not None:
                self.sink.on_reset()

        def add_points(self, xx, fx):
            super().add_points(xx, fx)
            if self.sink is not None:
                self.sink.on_add(np.array(xx, dtype=float), fx)

        def predict(self, xx):
            if self.sink is None:
                return super().predict(xx)
            self.sink.before_predict(self, xx)
            res = super().predict(xx)
            self.sink.on_predict(self, np.array(xx, dtype=float), np.array(res, dtype=float))
            return res

    Rec.__name__ = "Rec" + cls.__name__
    return Rec


RecRBF, RecPoly, RecIDW, RecGP = (recording(c) for c in (RBFInterpolant, PolyRegressor, IDW, CheapGP))
RecTrueGP = recording(GPRegressor)


def make_surrogate(kind, prob, rec=True, share=None):
    d, lb, ub = prob.dim, prob.lb, prob.ub
    R = RecRBF if rec else RBFInterpolant
    if share is not None and kind in ("cubic", "tps", "linear"):  # parts that several surrogates use
        if kind not in share:
            share[kind] = dict(cubic=CubicKernel, tps=TPSKernel, linear=LinearKernel)[kind]()
        t = "ctail" if kind == "linear" else "ltail"
        if t not in share:
            share[t] = ConstantTail(d) if kind == "linear" else LinearTail(d)
        return R(d, lb, ub, kernel=share[kind], tail=share[t])
    if kind == "cubic":
        return R(d, lb, ub, kernel=CubicKernel(), tail=LinearTail(d))
    if kind == "tps":
        return R(d, lb, ub, kernel=TPSKernel(), tail=LinearTail(d))
    if kind == "linear":
        return R(d, lb, ub, kernel=LinearKernel(), tail=ConstantTail(d))
    if kind == "default":
        return R(d, lb, ub)
    if kind == "poly":
        return (RecPoly if rec else PolyRegressor)(d, lb, ub, degree=2)
    if kind == "idw":
        return (RecIDW if rec else IDW)(d, lb, ub)
    if kind == "gp":
        return (RecGP if rec else CheapGP)(d, lb, ub)
    if kind == "gpfix":  # fixed hyperparameters
        gp = GaussianProcessRegressor(kernel=RBF(0.4 * np.ones(d)), alpha=0.3, optimizer=None)
        return (RecTrueGP if rec else GPRegressor)(d, lb, ub, gp=gp)
    if kind == "gpsmooth":  # fixed hyperparameters for smooth functions
        gp = GaussianProcessRegressor(kernel=RBF(0.7 * np.ones(d)), alpha=1e-6, optimizer=None, normalize_y=True)
        return (RecTrueGP if rec else GPRegressor)(d, lb, ub, gp=gp)
    if kind == "truegp":
        return (RecTrueGP if rec else GPRegressor)(d, lb, ub, n_restarts_optimizer=0)
    raise HarnessError("unknown surrogate " + kind)


def no_design(e):
    """The design of the library found no points of full rank (few points or integers): not a usable case."""
    tb = e.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    return isinstance(e, ValueError) and tb is not None and "experimental_design" in tb.tb_frame.f_code.co_filename


class RecDesign(ExperimentalDesign):
    """Wraps a design of the library; reports every generated design."""

    def __init__(self, inner):
        self.inner = inner
        self.dim = inner.dim
        self.num_pts = inner.num_pts
        self.sink = None

    def generate_points(self, lb=None, ub=None, int_var=None):
        try:
            X = self.inner.generate_points(lb=lb, ub=ub, int_var=int_var)
        except ValueError as e:
            if no_design(e):
                raise Discard("no valid design")
            raise
        if self.sink is not None:
            self.sink.on_design(np.array(X, dtype=float))
        return X


class UniformDesign(ExperimentalDesign):
    """A design of a user: uniform points."""

    def __init__(self, dim, num_pts):
        self.dim, self.num_pts = dim, num_pts

    def generate_points(self, lb=None, ub=None, int_var=None):
        X = lb + np.random.rand(self.num_pts, self.dim) * (ub - lb)
        for i in int_var:
            X[:, i] = np.clip(np.round(X[:, i]), np.ceil(lb[i]), np.floor(ub[i]))
        return X


def make_design(kind, dim, npts, iters):
    if kind == "uniform":
        return UniformDesign(dim, npts)
    if kind == "slhd":
        return SymmetricLatinHypercube(dim, npts, iterations=iters)
    if kind == "lhd":
        return LatinHypercube(dim, npts, iterations=iters)
    if kind == "tf":
        return TwoFactorial(dim)
    raise HarnessError("unknown design " + kind)


def extra_arrays(case):
    """extra = list of [point, value]; value None (unknown), 'nan', 'inf', '-inf' or a number; noval: no array."""
    ex = case.get("extra")
    if not ex:
        return None, None
    pts = np.array([e[0] for e in ex], dtype=float)
    if case.get("noval"):
        return pts, None
    vals = np.array([[float("nan") if e[1] is None else float(e[1])] for e in ex])
    return pts, vals


def is_known(case, k):
    v = case["extra"][k][1]
    return (not case.get("noval")) and v is not None and np.isfinite(float(v))


def build(case, rec=True, problem=None, share=None):
    """Problem, design, surrogate and strategy of a case (not yet seeded). share: objects used by several strategies."""
    prob = problem if problem is not None else Prob(case["lb"], case["ub"], case["int"])
    if share is not None:
        prob = share.setdefault("prob", prob)
    name = case["strategy"]
    if name == "RANDOM":
        return prob, None, None, RandomStrategy(max_evals=case["max_evals"], opt_prob=prob), (None, None)
    des = make_design(case["design"], prob.dim, case["npts"], case["iters"])
    if share is not None:
        des = share.setdefault(("design", case["design"], case["npts"]), des)
    if rec:
        des = RecDesign(des)
    sur = make_surrogate(case["surrogate"], prob, rec, share)
    pts, vals = extra_arrays(case)
    if share is not None and pts is not None:
        pts, vals = share.setdefault(("extra", str(case["extra"]), case.get("noval")), (pts, vals))
    kw = dict(
        max_evals=case["max_evals"],
        opt_prob=prob,
        exp_design=des,
        surrogate=sur,
        asynchronous=case["async"],
        batch_size=None if case["async"] else case["batch"],
        extra_points=pts,
        extra_vals=vals,
        use_restarts=case["restarts"],
    )
    if name in ("SRBF", "DYCORS"):
        kw["num_cand"] = case["num_cand"]
        kw["weights"] = case.get("weights")
        if share is not None and kw["weights"] is not None:
            kw["weights"] = share.setdefault(("weights", str(kw["weights"])), kw["weights"])
    if name == "SOP":
        kw["num_cand"] = case["num_cand"]
        kw["ncenters"] = case["ncenters"]
    if name in ("EI", "LCB") and case.get("dt") is not None:
        kw["dtol"] = case["dt"] * np.linalg.norm(prob.ub - prob.lb)
    if name == "LCB" and case.get("kappa") is not None:
        kw["kappa"] = case["kappa"]
    if name == "EI" and case.get("tol") is not None:
        kw["ei_tol"] = case["tol"]
    if name == "LCB" and case.get("tol") is not None:
        kw["lcb_tol"] = case["tol"]
    cls = dict(SRBF=SRBFStrategy, DYCORS=DYCORSStrategy, SOP=SOPStrategy, EI=EIStrategy, LCB=LCBStrategy)[name]
    return prob, des, sur, (cls, kw), (pts, vals)


class Ev:
    """An evaluation handed out by the strategy."""

    def __init__(self, x, rec, t, adaptive, run):
        self.x, self.rec, self.t, self.adaptive, self.run = x, rec, t, adaptive, run
        self.value = None
        self.batch = 0
        self.order = self.since = 0  # number of the evaluation; completions when it started
        self.state = "inflight"


class Monitor:
    """Checks of one property; every hook gets the simulation."""

    def start(self, sim):
        pass

    def before_propose(self, sim):
        pass

    def on_eval(self, sim, x, proposal):
        """An evaluation was proposed (before it is accepted or rejected)."""

    def on_none(self, sim):
        pass

    def on_terminate(self, sim):
        pass

    def after(self, sim, kind, ev=None):
        """After every event: 'accept', 'reject', 'complete', 'fail', 'running', 'none', 'terminate'."""

    def before_finish(self, sim, ev, how):
        pass

    def on_design(self, sim, X):
        pass

    def on_reset(self, sim):
        pass

    def on_predict(self, sim, sur, X, y):
        pass

    def end(self, sim):
        pass


class Sim:
    MAX_EVENTS = 4000

    def __init__(self, case, monitor, stats, share=None):
        self.case, self.mon, self.stats = case, monitor, stats
        self.t = 0  # event clock
        self.evs = []  # accepted evaluations in order
        self.inflight = []
        self.completed = []  # Ev in order of completion
        self.finished = []  # completed and failed Ev in order
        self.rejected = 0
        self.failed = 0
        self.designs = []  # every generated design
        self.run_no = -1
        self.run_since = 0  # completions when the run began
        self.slow = {o: (kind, num) for o, kind, num in case.get("slow", [])}
        self.predicts_in_run = 0  # predictions since the last design
        self.predicts_in_call = 0
        self.designs_in_call = 0
        self.batch_open = 0  # points of the current adaptive batch that were not accepted yet
        self.batch_no = 0
        self.adaptive = False
        self.proposals = []  # (x, accepted)
        self.done = False
        self.stopped = False
        self.user_stop = False
        self.name = case["strategy"]
        self.sync = self.name != "RANDOM" and not case["async"]
        self.max_evals = case["max_evals"]
        np.random.seed(case["seed"])
        prob, des, sur, strat, (pts, vals) = build(case, share=share)
        self.prob, self.des, self.sur = prob, des, sur
        self.pts, self.vals = pts, vals
        self.known = []
        if pts is not None:
            self.known = [(pts[k].copy(), float(vals[k, 0])) for k in range(len(pts)) if is_known(case, k)]
        self.obj = None if case["obj"] == "pattern" else objective(case["obj"], prob)
        self.best = np.inf
        self.npat = 0
        monitor.start(self)
        if self.name == "RANDOM":
            self.strategy = strat
        else:
            des.sink = self
            sur.sink = self
            self.strategy = strat[0](**strat[1])

    # -- sink of the recording wrappers --
    def on_reset(self):
        self.mon.on_reset(self)

    def on_add(self, x, fx):
        pass

    def on_design(self, X):
        self.designs.append(X)
        self.run_no += 1
        self.run_since = len(self.completed)
        self.predicts_in_run = 0
        self.designs_in_call += 1
        self.batch_open = 0
        self.mon.on_design(self, X)

    def before_predict(self, sur, xx):
        if isinstance(sur, (RBFInterpolant, PolyRegressor, GPRegressor)) and sur.num_pts <= 3 * (sur.dim + 1):
            if sur.num_pts < sur.dim + 2 and not isinstance(sur, GPRegressor):
                raise Discard("too few points to fit")
            U = (sur.X - sur.lb) / (sur.ub - sur.lb)
            if isinstance(sur, RBFInterpolant):
                sv = np.linalg.svd(np.hstack((np.ones((len(U), 1)), U)), compute_uv=False)
                if sv[-1] < 1e-4 * sv[0]:
                    raise Discard("degenerate data")

    def on_predict(self, sur, X, y):
        self.predicts_in_run += 1
        self.predicts_in_call += 1
        self.mon.on_predict(self, sur, X, y)

    # -- events --
    @property
    def budget_left(self):
        return self.max_evals - len(self.completed) - len(self.inflight)

    def propose(self, accept=True):
        self.t += 1
        self.mon.before_propose(self)
        self.predicts_in_call = self.designs_in_call = 0
        p = self.strategy.propose_action()
        if p is None:
            self.mon.on_none(self)
            self.mon.after(self, "none")
            return "none"
        if p.action == "terminate":
            p.accept()
            self.done = True
            self.mon.on_terminate(self)
            self.mon.after(self, "terminate")
            return "terminate"
        require(p.action == "eval", "unknown action %r", p.action)
        x = np.array(p.args[0], dtype=float)
        self.proposals.append((x, accept))
        if self.predicts_in_call and not self.designs_in_call:
            self.batch_open = self.case["batch"] if self.sync else 1
            self.batch_no += 1
        self.adaptive = self.batch_open > 0  # an adaptive point, else one of the initial design
        self.mon.on_eval(self, x, p)
        if not accept:
            p.reject()
            self.rejected += 1
            if self.adaptive and not self.sync:
                self.batch_open = 0
            self.mon.after(self, "reject")
            return "reject"
        rec = EvalRecord(p.args)
        p.record = rec
        ev = Ev(x, rec, self.t, self.adaptive, self.run_no)
        if self.adaptive:
            self.batch_open -= 1
            ev.batch = self.batch_no
        ev.order, ev.since = len(self.evs), len(self.completed)
        p.accept()
        self.evs.append(ev)
        self.inflight.append(ev)
        self.mon.after(self, "accept", ev)
        return "accept"

    def value_of(self, ev):
        if self.obj is not None:
            return self.obj(ev.x) * self.case.get("fscale", 1.0)
        pat = self.case["pattern"]
        v = pattern_value(pat[self.npat % len(pat)] if pat else 0, self.best)
        self.npat += 1
        return v

    def finish(self, k, how="complete"):
        self.t += 1
        ev = self.inflight.pop(k)
        self.mon.before_finish(self, ev, how)
        if how == "complete":
            ev.value = float(self.value_of(ev))
            self.best = min(self.best, ev.value)
            ev.state = "completed"
            self.completed.append(ev)
            self.finished.append(ev)
            ev.rec.complete(ev.value)
            self.mon.after(self, "complete", ev)
        else:
            ev.state = how
            self.failed += 1
            self.finished.append(ev)
            if how == "kill":
                ev.rec.kill()
            else:
                ev.rec.cancel()
            self.mon.after(self, "fail", ev)

    def running(self, k):
        self.t += 1
        self.inflight[k].rec.running()
        self.mon.after(self, "running", self.inflight[k])

    # -- schedule --
    def run(self):
        for _ in self.steps():
            pass

    def held(self, ev):
        """Slow evaluations last for a number of completions, possibly counted from the next restart on."""
        if ev.order not in self.slow:
            return False
        kind, num = self.slow[ev.order]
        if kind == 0:
            return len(self.completed) < ev.since + num
        return self.run_no == ev.run or len(self.completed) < self.run_since + num

    def ready(self):
        return [k for k, ev in enumerate(self.inflight) if not self.held(ev)]

    def steps(self):
        """The schedule as a generator that pauses after every event."""
        case = self.case
        W = case["workers"]
        nofail = case.get("nofail", False)
        norej = case.get("norej", False)
        for code in case["script"]:
            if self.done or self.stopped:
                break
            op, arg = code % 10, code // 10
            n = len(self.inflight)
            ready = self.ready()
            if op == 7 and ready and not nofail:
                k = ready[arg % len(ready)]
                if not case.get("fail_adapt_only") or self.inflight[k].adaptive:
                    self.finish(k, "kill" if (arg // n) % 2 else "cancel")
                    yield
                    continue
                op = 4
            if op == 8 and not norej:
                self.propose(accept=False)
            elif op == 9 and n:
                if arg % 3 == 0 and not norej:
                    self.propose(accept=n < W)
                else:
                    self.running(arg % n)
            elif op in (4, 5, 6, 7) and ready:
                self.finish(ready[arg % len(ready)])
            elif n < W:
                self.propose()
            elif n:
                self.finish(ready[arg % len(ready)] if ready else arg % n)
            yield
        if case.get("stop") and not self.done and not self.stopped:
            self.user_stop = True
            self.strategy.terminate = True
        lifo = case.get("lifo", False)
        idle = 0
        for _ in range(self.MAX_EVENTS):
            if self.done or self.stopped:
                break
            if len(self.inflight) < W:
                res = self.propose()
                yield
                if res != "none":
                    idle = 0
                    continue
            if self.inflight:
                ready = self.ready() or range(len(self.inflight))
                self.finish(ready[-1 if lifo else 0])
                idle = 0
                yield
            else:
                idle += 1
                if idle > 3:
                    break  # a hang; only C04 judges it
        self.mon.end(self)


def same_points(A, B):
    """Multisets of rows are equal (exactly)."""
    A = np.asarray(A, dtype=float).reshape(len(A), -1)
    B = np.asarray(B, dtype=float).reshape(len(B), -1)
    if A.shape != B.shape:
        return False
    return sorted(map(tuple, A)) == sorted(map(tuple, B))


def remove_row(rows, x):
    """Remove the first row equal to x from a list of arrays; True if there was one."""
    for k, r in enumerate(rows):
        if np.array_equal(r, x):
            del rows[k]
            return True
    return False


class Owed:
    """Points of the initial design (and unknown extra points) that still have to be handed out."""

    def __init__(self):
        self.owed = []  # must be handed out before the first adaptive point of the run
        self.left = []  # left over from an earlier run: may be handed out

    def on_design(self, sim, X):
        self.left += self.owed
        self.owed = [x.copy() for x in X]
        if sim.run_no == 0 and sim.pts is not None:
            self.owed += [sim.pts[k].copy() for k in range(len(sim.pts)) if not is_known(sim.case, k)]

    def accepted(self, ev):
        """Account for an accepted non-adaptive evaluation; False if nothing like it was due."""
        return remove_row(self.owed, ev.x) or remove_row(self.left, ev.x)

    def due(self, x):
        return any(np.array_equal(r, x) for r in self.owed + self.left)

    def failed(self, sim, ev):
        if not ev.adaptive:
            (self.owed if ev.run == sim.run_no else self.left).append(ev.x.copy())


def label(sim, stats):
    """Common case classes; returns the number of adaptive evaluations."""
    adaptive = sum(e.adaptive for e in sim.evs)
    stats.label(sim.name + ("" if sim.name == "RANDOM" else "/sync" if sim.sync else "/async"))
    if adaptive:
        stats.label("adaptive")
    if sim.rejected:
        stats.label("rejections")
    if sim.failed:
        stats.label("failures")
    if len(sim.designs) > 1:
        stats.label("restarted")
    if sim.done:
        stats.label("terminated")
    if len(sim.prob.int_var):
        stats.label("integer variables")
    if sim.pts is not None:
        stats.label("extra points")
    return adaptive
