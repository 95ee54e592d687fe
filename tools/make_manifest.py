"""Writes MANIFEST.json from the table below."""
import json
import os

SIM = ("stateful generation: the harness owns the controller and drives the real strategy through generated accept/reject/complete/"
       "fail/kill schedules")
T = {
    "C01": (SIM + "; invariant over the history", "bounded by problems of dimension <= 3 (4 in some modes), up to 40 adaptive evaluations (quick), 6 workers"),
    "C02": (SIM + "; invariant on every proposal", "as C01; feasibility up to rounding of 1e-12 relative"),
    "C03": (SIM + "; reference model of the bookkeeping compared after every event", "as C01"),
    "C04": (SIM + "; safety and bounded-liveness rules on every answer of propose_action", "as C01; liveness is judged at the end of a schedule that finishes everything in flight"),
    "C05": (SIM + " with many failures; model of owed design points", "as C01"),
    "C06": (SIM + "; recording surrogate compared with the harness's history at every prediction", "as C01; the surrogate is observed through its public methods"),
    "C07": (SIM + "; generated extra points; metamorphic comparison with and without values", "as C01"),
    "C08": ("stateful generation with injected faults: every C-level file operation of every save is a crash point, plus write errors", "file operations are observed at CPython's audit/IO layer in a scratch directory; no power-loss (fsync) model"),
    "C09": ("stateful generation: checkpointed runs interrupted at generated points, resumed by the library's own controller", "interruptions between events of the schedule; up to three per run"),
    "C10": ("metamorphic property-based testing: repeated runs must be bitwise equal, inputs unmodified", "single process, one BLAS thread"),
    "C11": ("model-based testing: histories of additions/predictions/resets against a dense reference solve", "tolerance proportional to the condition number; ill-conditioned data is discarded"),
    "C12": ("property-based testing: derivatives against independent closed forms and central differences", "as C11"),
    "C13": ("metamorphic property-based testing: unit changes of variables and values", "tolerance proportional to the condition number"),
    "C14": ("model-based stateful testing against a list model and freshly built surrogates", "MARS runs with a stand-in for py-earth, which is not installed"),
    "C15": ("differential property-based testing against closed-form posterior and ridge regression", "the default GP kernel is checked for consistency with the kernel it reports"),
    "C16": ("property-based testing: brute-force judgement of the selection; exact and statistical (error < 1e-11) judgement of the candidates", "the candidates are observed through the surrogate's predict"),
    "C17": ("differential property-based testing of the merit functions; judgement of whole searches and runs against the posterior", "the GA's heuristic nature limits optimality to the populations it evaluated"),
    "C18": ("property-based testing with captured populations", "populations are observed through the objective function"),
    "C19": ("property-based testing of structure; exhaustive enumeration of small designs and quantile tests for optimality", "the iteration count is judged statistically (error < 1e-9)"),
    "C20": ("differential property-based testing against the definitions", "up to 14 vectors and 3 objectives"),
    "C21": ("property-based testing: round trips, inverses, brute-force nearest integer", "exact up to a few ulps"),
    "C22": ("differential property-based testing against independent implementations; generated attacks on the stored minimum", "published formulas transcribed independently; rounding tolerance"),
    "C23": ("property-based testing: generated valid configurations and single defects", "MARS is not installed"),
    "C24": (SIM + "; reference state machine, candidates judged by likelihood ratios", "radius and center judged with error probability 1e-12"),
    "C25": (SIM + "; reference model of SOP's archive, centers inferred from the candidates", "ties that rounding could decide end the judgement of a run; error probability 1e-12 per candidate set"),
    "C26": ("metamorphic property-based testing: the same schedule in another unit (powers of two) must give the same answers", "surrogates without internal scale; a comparison ends where the documented absolute tolerance binds"),
    "C27": ("metamorphic property-based testing: equivalent statements of a configuration must give bitwise the same run", "serial controller"),
    "C28": ("differential property-based testing: generated interleavings of several runs, and observers, against each run alone", "one thread; POAP's strategies are driven one event at a time"),
    "C29": ("property-based testing under POAP's own controllers with generated evaluation times and crashes; order-independent oracle", "thread schedules are the operating system's, not controlled"),
    "C30": ("statistical property-based testing: rank of the result among uniform points on generated convex problems", "a threshold with a margin: small losses of quality are invisible"),
    "C32": ("metamorphic property-based testing: generated pairs of schedules (mode, workers, order of completion, rejections, crashes) must give the same points", "order-free surrogates of the harness where the order of the data changes; values without ties"),
    "C33": ("statistical property-based testing with explicit error bounds (Dvoretzky-Kiefer-Wolfowitz, 1e-11 per test)", "pairwise independence only; small deviations from uniformity are invisible"),
    "C34": ("property-based testing: generated histories plotted with a recording stand-in for pyplot, against the running minimum", "matplotlib is not installed; curves are recognized by their data"),
    "C31": ("model-based property-based testing of the log entries after every event of generated schedules", "entries are recognized by the numbers they contain"),
}
LEVEL = {"C08": "fault_enumeration"}

checks = []
for k in sorted(T):
    checks.append({
        "property": k,
        "quick_cmd": "./check %s" % k,
        "thorough_cmd": "./check %s --tier thorough" % k,
        "evidence_file": "evidence/%s.json" % k,
        "technique": T[k][0],
        "level": LEVEL.get(k, "exploration"),
        "level_note": "Explored, not proved: the property held on all generated cases. " + T[k][1] + ".",
    })
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks in /repo: everything is observed through public interfaces. Python code needs no rebuild; the checks import /repo's working tree.",
}
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
