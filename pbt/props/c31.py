"""C31: the log records every evaluation once, crashed ones as warnings, and never changes the run."""
import logging
import re

import numpy as np

from ..core import require
from ..gen import sim_case
from ..sim import Monitor, Sim, label

CASES = {"quick": 3200, "thorough": 60000}
RULE = (
    "generated configuration and schedule with rejections, failures and kills, run with the library's logger recorded and again "
    "with logging disabled; non-trivial: at least one failure and one adaptive evaluation"
)
ASSUMPTIONS = ["a log entry is recognized by the numbers it contains (3 decimals of the value, 5 of the coordinates), not by its wording"]

NUMBER = re.compile(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?")


def cases(tier):
    return sim_case(
        strategies=("SRBF", "DYCORS", "EI", "LCB", "SOP"), max_adapt=20 if tier == "quick" else 60, gp_adapt=2,
        maxlen=80 if tier == "quick" else 200,
    )


class Keep(logging.Handler):
    def __init__(self):
        super().__init__(logging.DEBUG)
        self.new = []

    def emit(self, record):
        self.new.append((record.levelno, record.getMessage()))


def tells_point(msg, x):
    """The last numbers of the message are the coordinates."""
    nums = [float(v) for v in NUMBER.findall(msg)]
    return len(nums) >= len(x) and bool(np.all(np.abs(np.array(nums[len(nums) - len(x):]) - x) <= 2e-5 * max(1.0, np.max(np.abs(x)))))


def tells_eval(msg, x, value, count):
    nums = [float(v) for v in NUMBER.findall(msg)]
    head = nums[: len(nums) - len(x)]
    return tells_point(msg, x) and count in head and any(abs(v - value) <= 1e-3 * abs(value) for v in head)


class Mon(Monitor):
    def __init__(self, keep):
        self.keep = keep

    def after(self, sim, kind, ev=None):
        new, self.keep.new = self.keep.new, []
        warn = [m for level, m in new if level >= logging.WARNING]
        info = [m for level, m in new if level == logging.INFO]
        require(not any(level > logging.WARNING for level, _ in new), "an error was logged: %s", new)
        evals = [m for m in info if len(NUMBER.findall(m)) > len(sim.prob.lb)]
        if kind == "complete":
            require(len(evals) == 1, "%d entries for a completed evaluation: %s", len(evals), new)
            require(tells_eval(evals[0], ev.x, ev.value, len(sim.completed)),
                    "evaluation %d with value %r at %s was logged as %r", len(sim.completed), ev.value, ev.x, evals[0])
        else:
            require(not evals, "an evaluation is logged, but none was completed: %s", evals)
        if kind == "fail":
            require(len(warn) <= 1 and (len(warn) == 1 or ev.state == "kill"), "%d warnings for a crashed evaluation: %s", len(warn), new)
            require(all(tells_point(m, ev.x) for m in warn), "a crash at %s was logged as %s", ev.x, warn)
        else:
            require(not warn, "a warning without a crashed evaluation: %s", warn)


def run(case, stats):
    root = logging.getLogger("pySOT")
    old = root.level, root.propagate, logging.root.manager.disable
    logging.disable(logging.NOTSET)
    keep = Keep()
    root.addHandler(keep)
    root.propagate = False
    try:
        root.setLevel(logging.DEBUG)
        sim = Sim(case, Mon(keep), stats)
        sim.run()
        root.setLevel(logging.CRITICAL + 1)
        keep.new = []
        quiet = Sim(case, Monitor(), stats)
        quiet.run()
        require(not keep.new, "entries although logging is off: %s", keep.new)
    finally:
        root.removeHandler(keep)
        root.setLevel(old[0])
        root.propagate = old[1]
        logging.disable(old[2])
    require(len(sim.proposals) == len(quiet.proposals)
            and all(np.array_equal(a[0], b[0]) for a, b in zip(sim.proposals, quiet.proposals)),
            "the run depends on the level of logging")
    adaptive = label(sim, stats)
    stats.label("crashes", sim.failed > 0)
    stats.nontrivial = sim.failed > 0 and adaptive > 0
