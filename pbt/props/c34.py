"""C34: the progress plot shows the values of the completed evaluations and the best one so far."""
import sys
import types

import numpy as np
from hypothesis import strategies as st
from poap.controller import Controller

from pySOT.utils import progress_plot

from ..core import require

CASES = {"quick": 8000, "thorough": 80000}
RULE = (
    "generated histories of evaluations (completed, failed, in flight; values of all magnitudes, ties) in a POAP controller, plotted "
    "with a stand-in for pyplot that records what is drawn; non-trivial: a failure or an unfinished evaluation, and at least two "
    "different values, the best of which is not the last one"
)
ASSUMPTIONS = ["matplotlib is not installed: pyplot is a stand-in that accepts every call and records the drawn series"]


class Canvas:
    """Accepts every call on figures, axes and pyplot itself; notes the calls by name."""

    def __init__(self):
        self.calls = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def call(*args, **kw):
            self.calls.append((name, args, kw))
            if name == "subplots":
                return self, self
            return self

        return call


@st.composite
def cases(draw, tier):
    n = draw(st.integers(1, 60))
    val = draw(st.sampled_from([st.floats(-1e3, 1e3), st.integers(-3, 3).map(float), st.floats(-1e-9, 1e-9), st.floats(1e6, 2e6)]))
    ev = [[draw(st.sampled_from(["done"] * 5 + ["kill", "cancel", "flying"])), draw(val)] for _ in range(n)]
    if not any(s == "done" for s, _ in ev):
        ev[draw(st.integers(0, n - 1))][0] = "done"
    return dict(ev=ev, title=draw(st.sampled_from([None, "", "Progress"])), interactive=draw(st.sampled_from([None, False, True])))


def series(calls):
    """(x, y) of everything drawn with plot; x may be left out, one call may draw several curves."""
    res = []
    for name, args, kw in calls:
        if name not in ("plot", "scatter", "step", "semilogy"):
            continue
        arrays, k = [], 0
        args = list(args) + ["end"]
        for a in args:
            if isinstance(a, str):
                if len(arrays) == 1:
                    res.append((np.arange(len(arrays[0])), arrays[0]))
                for k in range(0, len(arrays) - 1, 2):
                    res.append((arrays[k], arrays[k + 1]))
                arrays = []
            else:
                arrays.append(np.asarray(a, dtype=float).ravel())
    return res


def run(case, stats):
    c = Controller()
    want = []
    for k, (state, v) in enumerate(case["ev"]):
        r = c.new_feval((np.array([float(k)]),))
        r.running()
        if state == "done":
            r.complete(v)
            want.append(v)
        elif state == "kill":
            r.kill()
        elif state == "cancel":
            r.cancel()
    want = np.array(want)
    before = [(r.status, r.value) for r in c.fevals]
    canvas = Canvas()
    mpl, plt = types.ModuleType("matplotlib"), types.ModuleType("matplotlib.pyplot")
    plt.__getattr__ = canvas.__getattr__
    mpl.pyplot = plt
    saved = {k: sys.modules.get(k) for k in ("matplotlib", "matplotlib.pyplot")}
    sys.modules.update({"matplotlib": mpl, "matplotlib.pyplot": plt})
    kw = {k: case[k] for k in ("title", "interactive") if case[k] is not None}
    try:
        progress_plot(c, **kw)
    finally:
        for k, m in saved.items():
            if m is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = m
    require([(r.status, r.value) for r in c.fevals] == before, "the plot changed the records")
    drawn = series(canvas.calls)

    def has(y, what):
        ok = [x for x, v in drawn if len(v) == len(y) and np.array_equal(v, y)]
        require(len(ok) > 0, "%s are not drawn: %s, expected %s", what, [v.tolist() for _, v in drawn], y.tolist())
        require(any(len(x) == len(y) and np.all(np.diff(x) == 1) for x in ok), "%s are not drawn one after the other: %s", what, ok)

    has(want, "the values of the completed evaluations")
    has(np.array([want[: k + 1].min() for k in range(len(want))]), "the best values so far")
    for name, args, k in canvas.calls:
        if name in ("ylim", "set_ylim"):
            lo, hi = (list(args[0]) if len(args) == 1 else list(args)) if args else (k.get("bottom", -np.inf), k.get("top", np.inf))
            require(lo <= want.min() and hi >= want.max(), "values between %s and %s are shown in the range %s to %s", want.min(), want.max(),
                    lo, hi)
    shown = [a[0] for name, a, _ in canvas.calls if name in ("title", "set_title", "suptitle") and a]
    require(case["title"] in (None, "") or case["title"] in shown, "title %r is missing, shown: %s", case["title"], shown)
    if case["interactive"]:
        require(any(name == "ion" for name, _, _ in canvas.calls), "interactive mode is not switched on")
    elif not case["interactive"]:
        require(not any(name == "ion" for name, _, _ in canvas.calls), "interactive mode is switched on")
    stats.label("failures or unfinished evaluations", len(want) < len(case["ev"]))
    stats.label("interactive %s" % case["interactive"])
    stats.nontrivial = len(want) < len(case["ev"]) and want.min() < want[-1]
