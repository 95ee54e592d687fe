"""Runner shared by all checks: sharded Hypothesis search, shrinking, replay files, evidence."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

from . import boot

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHARDS = 8
PYSOT = os.path.join(boot.REPO, "pySOT") + os.sep


class Violation(Exception):
    """The property is broken on this case."""


class HarnessError(Exception):
    """The harness itself failed; never reported as a violation."""


class Discard(BaseException):
    """The case left the domain of the property (e.g. degenerate data); counted, not judged."""


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Stats:
    """What one case exercised."""

    def __init__(self):
        self.nontrivial = False
        self.labels = {}
        self.counts = {}

    def count(self, name, n):
        """Sum over all cases (labels count cases)."""
        self.counts[name] = self.counts.get(name, 0) + n

    def label(self, name, n=1):
        if n:
            self.labels[name] = self.labels.get(name, 0) + n


class Hang(BaseException):
    """The case took far longer than any case does."""


CPU_LIMIT, WALL_LIMIT = 90, 400  # seconds per case; cases take less than a few seconds


def on_alarm(signum, frame):
    raise Hang()


def run_case(mod, case):
    """Run one case; exceptions raised by the code under test on valid input are violations."""
    import numpy as np

    st = Stats()
    np.random.seed(0)
    signal.signal(signal.SIGPROF, on_alarm)
    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    signal.setitimer(signal.ITIMER_REAL, WALL_LIMIT)
    try:
        try:
            mod.run(case, st)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Hang:
        raise Violation("the case does not end (limits: %d s of CPU time, %d s)" % (CPU_LIMIT, WALL_LIMIT))
    except Violation:
        raise
    except HarnessError:
        raise
    except Discard as e:
        st = Stats()
        st.label("discarded: %s" % e)
        return st
    except Exception as e:
        frames = traceback.extract_tb(e.__traceback__)
        hit = [f for f in frames if f.filename.startswith(PYSOT)]
        last_own = frames[-1].filename.startswith(ROOT + os.sep)
        if hit and not last_own:
            where = hit[-1]
            raise Violation(
                "unexpected %s: %s (raised under %s:%d in %s)"
                % (type(e).__name__, e, os.path.relpath(where.filename, boot.REPO), where.lineno, where.name)
            ) from e
        private = isinstance(e, (ImportError, NameError, MemoryError)) or (
            isinstance(e, AttributeError) and str(getattr(e, "name", None) or "_").startswith("_"))
        if private:  # an internal name is gone or the sandbox is too small: no verdict
            raise HarnessError("".join(traceback.format_exception(e))) from e
        raise Violation(  # the code under test returned something the oracle can't even read
            "malformed result: %s: %s (at %s:%d)" % (type(e).__name__, e, os.path.basename(frames[-1].filename), frames[-1].lineno)) from e
    return st


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def shard_main(modname, tier, seed, shard, ncases, budget, stop, out):
    """Run one shard; send a result dict through the pipe."""
    res = dict(evals=0, keys=set(), labels={}, samples=[], fail=None, harness=None, skipped=0)
    try:
        import hypothesis
        from hypothesis import HealthCheck, Phase, Verbosity, given, settings
        from hypothesis.internal.conjecture import engine

        engine.MAX_SHRINKING_SECONDS = float(os.environ.get("VERIF_SHRINK", "40"))
        mod = importlib.import_module(modname)
        t0 = time.time()
        hseed = int(hashlib.sha256(("%s/%s/%d/%d" % (modname, tier, seed, shard)).encode()).hexdigest()[:12], 16)
        found = []

        @hypothesis.seed(hseed)
        @settings(
            max_examples=ncases,
            database=None,
            deadline=None,
            print_blob=False,
            verbosity=Verbosity.quiet,
            report_multiple_bugs=False,
            phases=(Phase.generate, Phase.shrink),
            suppress_health_check=list(HealthCheck),
        )
        @given(mod.cases(tier))
        def prop(case):
            if not found and (stop.is_set() or time.time() - t0 > budget):
                res["skipped"] += 1
                return
            if not found:
                res["evals"] += 1
            try:
                st = run_case(mod, case)
            except Violation as e:
                found.append((case, str(e)))
                raise
            except HarnessError as e:
                res["harness"] = (case, str(e))
                stop.set()
                raise
            if not found:
                for k, v in st.labels.items():
                    res["labels"][k] = res["labels"].get(k, 0) + 1
                for k, v in st.counts.items():
                    k = "total " + k
                    res["labels"][k] = res["labels"].get(k, 0) + v
                if st.nontrivial:
                    k = case_key(case)
                    if k not in res["keys"]:
                        res["keys"].add(k)
                        if len(res["samples"]) < 2 and len(json.dumps(case)) < 4000 and len(res["keys"]) in (1, 12):
                            res["samples"].append(case)

        try:
            prop()
        except Violation:
            pass
        except HarnessError:
            pass
        except BaseException as e:  # Flaky etc.: keep what was found, else it is a harness error
            if not found and res["harness"] is None:
                res["harness"] = (None, "".join(traceback.format_exception(e)))
        if found:
            res["fail"] = found[-1]
            stop.set()
    except BaseException as e:
        res["harness"] = (None, "".join(traceback.format_exception(e)))
    out.send(res)
    out.close()


def evaluate(prop_id, tier, seed, ncases=None):
    modname = "pbt.props.%s" % prop_id.lower()
    mod = importlib.import_module(modname)
    t0 = time.time()
    total = ncases or mod.CASES[tier]
    budget = float(os.environ.get("VERIF_BUDGET", {"quick": 420, "thorough": 6000}[tier]))
    per = max(1, total // SHARDS)
    ctx = mp.get_context("fork")
    stop = ctx.Event()
    pending = list(range(SHARDS))
    live, results = {}, []
    ncpu = int(os.environ.get("VERIF_JOBS", min(SHARDS, os.cpu_count() or 1)))
    while pending or live:
        while pending and len(live) < ncpu:
            sh = pending.pop(0)
            r, w = ctx.Pipe(duplex=False)
            left = max(5.0, budget - (time.time() - t0))
            p = ctx.Process(target=shard_main, args=(modname, tier, seed, sh, per, left, stop, w))
            p.start()
            w.close()
            live[sh] = (p, r)
        ready = mp.connection.wait([r for _, r in live.values()], timeout=5)
        for sh, (p, r) in list(live.items()):
            if r in ready:
                try:
                    results.append(r.recv())
                except EOFError:
                    p.join()
                    results.append(dict(evals=0, keys=set(), labels={}, samples=[], fail=None, skipped=0,
                                        harness=(None, "shard %d died with exit code %s" % (sh, p.exitcode))))
                p.join()
                del live[sh]
    agg = dict(evals=0, keys=set(), labels={}, samples=[], skipped=0)
    fails, harness = [], []
    for res in results:
        agg["evals"] += res["evals"]
        agg["skipped"] += res["skipped"]
        agg["keys"] |= res["keys"]
        agg["samples"] += res["samples"]
        for k, v in res["labels"].items():
            agg["labels"][k] = agg["labels"].get(k, 0) + v
        if res["fail"]:
            fails.append(res["fail"])
        if res["harness"]:
            harness.append(res["harness"])
    return mod, agg, fails, harness, time.time() - t0


def load_known(prop_id):
    """Known findings: lines 'KNOWN property=<id> match=<substring> :: <what fails>'."""
    res = []
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("KNOWN ") and ("property=%s " % prop_id) in line:
                head, what = line.strip().split(" :: ", 1)
                res.append((head.split("match=", 1)[1], what))
    return res


def main(argv):
    prop_id = argv[0].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    ncases = None
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    i = 1
    replay = None
    while i < len(argv):
        if argv[i] == "--replay":
            replay = argv[i + 1]
            i += 2
        elif argv[i] == "--cases":
            ncases = int(argv[i + 1])
            i += 2
        elif argv[i] == "--tier":
            tier = argv[i + 1]
            i += 2
        else:
            print("unknown argument", argv[i])
            return 2
    if replay:
        mod = importlib.import_module("pbt.props.%s" % prop_id.lower())
        data = json.load(open(replay))
        try:
            run_case(mod, data["case"])
        except Violation as e:
            print("reproduced:", e)
            print("VIOLATION property=%s replay=%s" % (prop_id, replay))
            return 1
        print("not reproduced: the property holds on this case")
        return 0

    mod, agg, fails, harness, wall = evaluate(prop_id, tier, seed, ncases)
    level = getattr(mod, "LEVEL", "exploration")
    ev = {
        "property": prop_id,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": {
            "evaluations": agg["evals"],
            "distinct_nontrivial": len(agg["keys"]),
            "rule": mod.RULE,
            "samples": agg["samples"][:3],
            "case_classes": dict(sorted(agg["labels"].items())),
            "skipped_for_time": agg["skipped"],
            "shards": SHARDS,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(fails),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop_id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s: %d cases, %d distinct non-trivial, %d skipped, %.1f s" % (
        prop_id, agg["evals"], len(agg["keys"]), agg["skipped"], wall))
    for k, v in sorted(agg["labels"].items()):
        print("   %-40s %d" % (k, v))
    if fails:
        case, msg = min(fails, key=lambda f: len(json.dumps(f[0])))
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        path = os.path.join(ROOT, "replays", "%s-%s.json" % (prop_id, case_key(case)[:12]))
        with open(path, "w") as f:
            json.dump({"property": prop_id, "seed": seed, "message": msg, "case": case}, f, indent=1)
        print("violation:", msg)
        print("case:", json.dumps(case)[:2000])
        print("replay with: ./check %s --replay %s" % (prop_id, path))
        print("VIOLATION property=%s replay=%s" % (prop_id, path))
        return 1
    if harness:
        print("HARNESS ERROR:\n", harness[0][1], "\ncase:", json.dumps(harness[0][0]))
        return 2
    return 0
