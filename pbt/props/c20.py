"""C20: Pareto utilities agree with the definition of dominance."""
import numpy as np
from hypothesis import strategies as st

from pySOT.utils import check_radius_rule, domination, nd_add, nd_front, nd_sorting

from ..core import require
from ..gen import seeds

CASES = {"quick": 80000, "thorough": 800000}
RULE = (
    "generated matrices of 1-3 objectives and 1-14 vectors (small integers with many ties and duplicates, chains, antichains, reals, "
    "infinities), and generated points, centers, failure counts and thresholds for the radius rule, compared with the definitions; "
    "non-trivial: both dominated and non-dominated vectors, or a center close to the decision boundary"
)


@st.composite
def cases(draw, tier):
    what = draw(st.sampled_from(["front", "front", "add", "sort", "sort", "radius"]))
    c = dict(what=what)
    if what == "radius":
        c.update(seed=draw(seeds), dim=draw(st.integers(1, 5)), nc=draw(st.integers(0, 5)), extra=draw(st.integers(0, 3)),
                 sigma=draw(st.sampled_from([0.2, 1.0, 0.05, 30.0, 0.1])), thr=draw(st.sampled_from([None, 1.0, 0.5, 0.0, 0.9])),
                 fails=draw(st.lists(st.integers(0, 5), min_size=5, max_size=5)),
                 rel=draw(st.lists(st.sampled_from([0.0, 0.3, 0.6, 0.97, 1.03, 1.4, 1.9, 2.1, 3.0]), min_size=5, max_size=5)))
        return c
    M = draw(st.sampled_from([2, 2, 2, 1, 3]))
    vals = draw(st.sampled_from(["int", "int", "few", "chain", "anti", "float", "inf"]))
    N = draw(st.integers(1, 14))
    large = draw(st.integers(0, 199)) == 199
    e = {"int": st.integers(-3, 3), "few": st.integers(0, 1), "chain": st.integers(0, 6), "anti": st.integers(0, 12),
         "float": st.floats(-1e3, 1e3, allow_nan=False), "inf": st.sampled_from(["inf", "-inf", 0, 1, 2])}[vals]
    col = st.lists(e, min_size=M, max_size=M)
    F = draw(st.lists(col, min_size=N, max_size=N))
    if large:  # many vectors
        N = draw(st.integers(15, 40 if what == "add" else 160))
        rng = np.random.RandomState(draw(seeds))
        F = [[v if isinstance(v, str) else float(v) for v in F[rng.randint(len(F))]] for _ in range(N)]
        F = [[v if isinstance(v, str) else v + (int(rng.randint(-9, 10)) if vals in ("int", "chain", "anti", "float") else 0) for v in r] for r in F]
    if vals == "chain":
        F = [[v[0]] * M for v in F]
    if vals == "anti":
        F = [[v[0]] + [-v[0]] * (M - 1) for v in F]
    c["F"] = F
    if what == "sort":
        c["nmax"] = draw(st.one_of(st.integers(0, N + 2), st.just(N)))
    c["order"] = draw(st.booleans())
    return c


def dominates(a, b):
    return all(x < y for x, y in zip(a, b))


def front(rows, idx):
    return [i for i in idx if not any(dominates(rows[j], rows[i]) for j in idx)]


def as_indices(got, what, N):
    got = [int(g) for g in got]
    require(len(set(got)) == len(got) and all(0 <= g < N for g in got), "%s: bad index list %s", what, got)
    return set(got)


def run_radius(case, stats):
    rng = np.random.RandomState(case["seed"])
    d, nc, sigma = case["dim"], case["nc"], case["sigma"]
    thr = 1.0 if case["thr"] is None else case["thr"]
    X = 10 * rng.randn(d)
    C = rng.randn(nc + case["extra"], d + 6) * 100  # rows beyond nc are not centers yet
    want, edge = 1, False
    for i in range(len(C)):
        k = case["fails"][i % 5]
        v = rng.randn(d)
        r = 0.5 ** k * sigma * thr / np.sqrt(d)
        dist = case["rel"][i % 5] * (r if case["seed"] % 2 else sigma * thr / np.sqrt(d))
        C[i, :d] = X + dist * v / np.linalg.norm(v)
        C[i, d + 4] = k
        if i < nc:
            true = np.sqrt(((X - C[i, :d]) ** 2).sum())
            if abs(true - r) <= 1e-9 * (1 + r):
                return  # too close to the boundary to tell
            if true < r:
                want = 0
            edge |= 0.5 * r < true < 2 * r
    keep = X.copy(), C.copy()
    kw = {} if case["thr"] is None else dict(d_thresh=thr)
    got = check_radius_rule(X, C, sigma, d, nc, **kw)
    require(np.array_equal(X, keep[0]) and np.array_equal(C, keep[1]), "an input was modified")
    require(bool(got) == bool(want), "radius rule gives %r, expected %r (sigma=%s failures=%s threshold=%s)", got, want, sigma,
            case["fails"][:nc], thr)
    stats.nontrivial = nc > 0 and edge
    stats.label("rejected" if not want else "allowed")


def run(case, stats):
    what = case["what"]
    stats.label(what)
    if what == "radius":
        return run_radius(case, stats)
    rows = [[float(v) for v in r] for r in case["F"]]
    N = len(rows)
    F = np.array(rows).T.copy()
    if case["order"]:
        F = np.asfortranarray(F)
    keep = F.copy()
    for i in range(min(N, 4)):
        for j in range(min(N, 4)):
            require(bool(domination(F[:, i], F[:, j])) == dominates(rows[i], rows[j]), "domination(%s, %s)", rows[i], rows[j])
    everything = list(range(N))
    nd = set(front(rows, everything))
    if what == "front":
        got = nd_front(F)
        a, b = as_indices(got[0], "nd_front", N), as_indices(got[1], "nd_front", N)
        require(a == nd and b == set(everything) - nd, "nd_front gives %s / %s, expected the front %s", sorted(a), sorted(b), sorted(nd))
    elif what == "add":
        ndf, df = [0], []
        for k in range(2, N + 1):
            # the split of the first k-1 vectors in any order, as documented: lists of integers
            idx = list(range(k - 1))
            fr = front(rows, idx)
            if case["order"]:
                fr = fr[::-1]
            ndf, df = list(fr), [i for i in idx if i not in fr]
            got = nd_add(F[:, :k], df, ndf)
            ndf, df = got
            a, b = as_indices(ndf, "nd_add", k), as_indices(df, "nd_add", k)
            true = set(front(rows, list(range(k))))
            require(a == true and b == set(range(k)) - true, "nd_add of vector %d gives %s / %s, expected the front %s", k - 1,
                    sorted(a), sorted(b), sorted(true))
    else:
        got = np.asarray(nd_sorting(F, case["nmax"]), dtype=float).ravel()
        require(len(got) == N, "nd_sorting returns %d ranks for %d vectors", len(got), N)
        want = [np.inf] * N
        left, rank, count = everything, 1, 0
        while left and count < case["nmax"]:
            fr = front(rows, left)
            for i in fr:
                want[i] = rank
            count += len(fr)
            left = [i for i in left if i not in fr]
            rank += 1
        require(list(got) == want, "nd_sorting(nmax=%d) gives %s, expected %s", case["nmax"], list(got), want)
        stats.label("ranks left out", bool(np.isinf(got).any()))
    require(np.array_equal(F, keep), "the objective vectors were modified")
    stats.nontrivial = 0 < len(nd) < N
