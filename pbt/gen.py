"""Hypothesis generators shared by the checks. Every case is a JSON-able dict."""
from hypothesis import strategies as st

seeds = st.integers(0, 2 ** 31 - 1)


@st.composite
def box(draw, maxdim=4, allow_int=True, min_int_width=6, mindim=1):
    """Bounds and integer variables. Integer coordinates may have fractional bounds."""
    dim = draw(st.integers(mindim, maxdim))
    lb, ub, ints = [], [], []
    mode = draw(st.sampled_from(["cont", "cont", "mixed", "mixed", "int"])) if allow_int else "cont"
    for i in range(dim):
        isint = mode == "int" or (mode == "mixed" and draw(st.booleans()))
        if isint:
            lo = float(draw(st.integers(-20, 20)))
            hi = lo + draw(st.integers(min_int_width, 40))
            if draw(st.integers(0, 3)) == 0:
                lo -= draw(st.sampled_from([0.25, 0.5, 0.9]))
                hi += draw(st.sampled_from([0.25, 0.5, 0.9]))
            ints.append(i)
        else:
            lo = draw(st.sampled_from([0.0, -1.0, -5.0, 0.1, 2.5, -1000.0, 100.0]))
            hi = lo + draw(st.sampled_from([1.0, 2.0, 10.0, 0.3, 1000.0, 3.7]))
        lb.append(lo)
        ub.append(hi)
    return lb, ub, ints


def script(maxlen):
    """Schedule codes; the length is drawn first so that long schedules are common."""
    return st.integers(0, maxlen).flatmap(lambda n: st.lists(st.integers(0, 99), min_size=n, max_size=n))


RBFS = ["cubic", "tps", "linear", "default"]


@st.composite
def sim_case(
    draw,
    strategies=("SRBF", "DYCORS", "EI", "LCB", "SOP", "RANDOM"),
    modes=("async", "sync", "serial"),
    maxdim=3,
    max_adapt=40,
    objs=("sphere", "rugged", "const", "steps", "linear", "hash", "tiny", "pattern"),
    extras=True,
    restarts=(True, True, True, False),
    surrogates=None,
    maxlen=90,
    allow_int=True,
    faults=True,
    stop=False,
    gp_adapt=5,
    overload=True,
    large=True,
):
    c = {}
    c["strategy"] = draw(st.sampled_from(strategies))
    name = c["strategy"]
    # now and then sizes beyond the usual ones
    big = large and name not in ("EI", "LCB") and draw(st.integers(0, 15)) == 7
    if big:
        c["large"] = True
        maxdim, max_adapt, maxlen = 8 if maxdim > 2 else maxdim, max(max_adapt, 160), max(maxlen, 150)
    wide = big and maxdim > 2 and name != "RANDOM" and draw(st.integers(0, 3)) == 3
    if wide:
        max_adapt = 60
    lb, ub, ints = draw(box(32, allow_int=allow_int, mindim=12) if wide else box(maxdim, allow_int=allow_int))
    dim = len(lb)
    c["lb"], c["ub"], c["int"] = lb, ub, ints
    c["seed"] = draw(seeds)
    mode = draw(st.sampled_from(modes))
    c["obj"] = draw(st.sampled_from(objs))
    if c["obj"] == "pattern":
        c["pattern"] = draw(st.lists(st.integers(0, 7), min_size=1, max_size=40))
    c["faults"] = bool(faults and draw(st.sampled_from([True, True, False])))
    c["nofail"] = not c["faults"]
    c["norej"] = not draw(st.booleans()) and not c["faults"]
    c["lifo"] = draw(st.booleans())
    c["script"] = draw(script(maxlen))
    if stop and name != "RANDOM" and draw(st.integers(0, 7)) == 0:
        c["stop"] = True
    if name == "RANDOM":
        c["async"], c["batch"] = True, None
        c["workers"] = draw(st.integers(1, 20 if big else 6))
        c["max_evals"] = draw(st.integers(1, 300 if big else 40))
        draw_slow(draw, c, 10)
        return c
    c["design"] = draw(st.sampled_from(["slhd", "slhd", "lhd"] + (["tf"] if 3 <= dim <= 4 else [])))
    extra_pts = draw(st.sampled_from([0, 0, 1, 5]))
    if big:
        extra_pts = draw(st.integers(0, 24))
    c["npts"] = 2 ** dim if c["design"] == "tf" else 2 * (dim + 1) + extra_pts
    c["iters"] = 20
    if surrogates is None:
        if name in ("EI", "LCB"):
            c["surrogate"] = "gp"
        else:
            c["surrogate"] = draw(st.sampled_from(RBFS + ["poly", "idw"] if not big else ["idw"] if wide else ["idw", "idw", "cubic"]))
    else:
        c["surrogate"] = draw(st.sampled_from(surrogates))
    c["async"] = mode == "async" or (mode == "serial" and draw(st.booleans()))
    # Asynchronous use needs enough finished design points to fit the model while the others are in flight
    most = 16 if big else 6
    need = 1 if c["surrogate"] in ("idw", "linear", "gp") else dim + 2
    wmax = max(1, min(most, c["npts"] - need)) if c["async"] else most
    c["workers"] = 1 if mode == "serial" else draw(st.integers(1, wmax))
    c["batch"] = None if c["async"] else (1 if mode == "serial" else draw(st.integers(1, 14 if big else 5)))
    amax = gp_adapt if name in ("EI", "LCB") else max_adapt
    adapt = draw(st.one_of(st.integers(0, amax), st.integers(amax // 2, amax), st.integers(3 * amax // 4, amax)))
    c["max_evals"] = c["npts"] + adapt
    if big and c["surrogate"] not in ("idw", "gp"):
        c["max_evals"] = min(c["max_evals"], c["npts"] + 90)
    c["num_cand"] = draw(st.sampled_from([5, 20, 50, 150] if big else [5, 20, 50]))
    c["restarts"] = draw(st.sampled_from(restarts))
    if name in ("SRBF", "DYCORS"):
        c["weights"] = draw(
            st.one_of(st.none(), st.lists(st.sampled_from([0.0, 0.1, 0.3, 0.5, 0.95, 1.0]), min_size=1, max_size=5))
        )
        if c["max_evals"] - c["npts"] == 1 and name == "DYCORS":
            c["max_evals"] += 1
    if name == "SOP":
        c["ncenters"] = draw(st.integers(4, 14 if big else 6))
        if not c["async"]:
            c["batch"] = min(c["batch"], c["ncenters"])
        elif not overload:
            c["workers"] = min(c["workers"], c["ncenters"])
        if c["max_evals"] - c["npts"] <= 1:
            c["max_evals"] = c["npts"] + 2
    if name in ("EI", "LCB"):
        c["tol"] = draw(st.sampled_from([None, None, 1e-9, 1e6 if adapt <= 3 else None]))
    if extras == "always" or (extras and draw(st.integers(0, 2)) == 0):
        many = extras == "always" and draw(st.integers(0, 5)) == 0
        c["extra"] = draw(extra_list(lb, ub, ints, maxn=14 if many else 4, minn=5 if many else 1))
        c["noval"] = draw(st.integers(0, 4)) == 0
    draw_slow(draw, c, c["npts"])
    return c


def draw_slow(draw, c, npts):
    """Some evaluations may be much slower than the others: [number, kind, completions], see Sim.held."""
    if c["workers"] > 1 and draw(st.integers(0, 2)) == 0:
        one = st.tuples(st.integers(0, npts + draw(st.sampled_from([0, 0, 30]))), st.integers(0, 1), st.integers(0, npts + 4))
        c["slow"] = [list(x) for x in draw(st.lists(one, min_size=1, max_size=min(3, c["workers"] - 1), unique_by=lambda x: x[0]))]


@st.composite
def extra_list(draw, lb, ub, ints, maxn=4, minn=1):
    """Extra points inside the domain with known (number) or unknown (None/nan/inf) values; no duplicates."""
    n = draw(st.integers(minn, maxn))
    res, seen = [], set()
    for _ in range(n):
        p = []
        for i in range(len(lb)):
            u = draw(st.integers(0, 64)) / 64.0
            v = lb[i] + u * (ub[i] - lb[i])
            if i in ints:
                v = float(round(v))
                import math

                v = min(max(v, math.ceil(lb[i])), math.floor(ub[i]))
            p.append(min(max(v, lb[i]), ub[i]))
        if tuple(p) in seen:
            continue
        seen.add(tuple(p))
        val = draw(st.sampled_from([None, "nan", "inf", "-inf", 0.5, -2.0, 100.0, -1e5]))
        res.append([p, val])
    return res
