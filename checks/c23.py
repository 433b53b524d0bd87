import itertools, sys
import numpy as np
from hypothesis import strategies as st
from pbt import Part, need, fail
import geom as g

ID = "C23"
RULE = ("requests: n, m, l (feasible, exactly tight and infeasible) and a seed; validity against the definition, feasibility against the least possible span, repeatability, agreement of list and argument types. "
        "coverage: small requests whose valid choices are enumerated; over many seeds every admissible index and every choice must occur. A call is abandoned after a budget of interpreter steps. "
        "Non-trivial: at least two indices, with some freedom or exactly tight; or an infeasible request refused.")
ASSUMPTIONS = ["Coverage: an index whose share under uniform choice is q is expected within a number of seeds for which missing it has probability < 1e-9 even at a quarter of that share."]


class Steps(Exception):
    pass


def budget(f, n=400000):
    """Run f within a budget of executed lines."""
    left = [n]

    def tr(frame, event, arg):
        left[0] -= 1
        if left[0] < 0:
            raise Steps
        return tr
    old = sys.gettrace()
    sys.settrace(tr)
    try:
        return f()
    except Steps:
        fail("no result after %d steps", n)
    finally:
        sys.settrace(old)


def feasible(n, m, l):
    return n == 0 or m + (n - 1) * m < l - m


def valid(r, n, m, l):
    need(len(r) == n, "%d indices instead of %d", len(r), n)
    for x in r:
        need(isinstance(x, (int, np.integer)) and not isinstance(x, bool), "index %r is not an integer", x)
        need(m <= x < l - m, "index %s outside [%d, %d)", x, m, l - m)
    for a, b in zip(r, r[1:]):
        need(b >= a and b - a >= m, "indices %s and %s with separation %d", a, b, m)


@st.composite
def request(draw):
    m = draw(g.pick(st.integers(0, 3), st.integers(1, 12), st.integers(1, 60)))
    n = draw(g.pick(st.integers(0, 4), st.integers(1, 12), st.integers(1, 40)))
    tight = (n + 1) * m + 1
    l = draw(g.pick(st.just(tight), st.just(tight + 1), st.integers(max(0, tight - 4), tight + 6), st.integers(tight, tight + 300), st.integers(0, tight + 20), st.just(tight - 1)))
    return dict(n=n, m=m, l=l, seed=draw(g.pick(st.none(), st.integers(0, 2**32 - 1), st.integers(0, 20))), ty=draw(st.sampled_from(["int64", "uint32", "uint64"])))


def run_req(c, ctx):
    from czone.util.misc import get_N_splits
    n, m, l, seed = c["n"], c["m"], c["l"], c["seed"]
    if m == 0 and l == 0:
        return
    if not feasible(n, m, l):
        try:
            r = budget(lambda: get_N_splits(n, m, l, seed))
        except ValueError:
            ctx.label("infeasible")
            ctx.hit(n > 1)
            return
        fail("no choice exists but %s returned", list(r))
    r = budget(lambda: get_N_splits(n, m, l) if seed is None else get_N_splits(n, m, l, seed=seed))
    need(isinstance(r, list), "result is a %s", type(r).__name__)
    valid(r, n, m, l)
    if seed is not None:
        need(list(r) == list(get_N_splits(n, m, l, seed=getattr(np, c["ty"])(seed))), "the same seed as a numpy integer gives another result")
        need(list(r) == list(get_N_splits(n, m, l, seed)), "the same seed gives another result")
    ctx.label("tight" if l == (n + 1) * m + 1 else "free", "n<2" if n < 2 else "n>=2")
    ctx.hit(n >= 2)


small = st.tuples(st.integers(1, 4), st.integers(0, 4), st.integers(0, 4), st.integers(0, 2**31))


def choices(n, m, l):
    it = itertools.combinations_with_replacement if m == 0 else itertools.combinations
    return [c for c in it(range(m, l - m), n) if all(b - a >= m for a, b in zip(c, c[1:]))]


def run_cov(c, ctx):
    from czone.util.misc import get_N_splits
    n, m, extra, s0 = c
    l = (n + 1) * m + 1 + extra
    ch = choices(n, m, l)
    need(feasible(n, m, l) == bool(ch), "harness")
    cnt, tot = {}, {}
    # enough seeds to see the rarest choice, even if it is four times rarer than uniform
    K = int(min(9000, 21 * 4 * len(ch)))
    for k in range(K):
        r = tuple(int(x) for x in get_N_splits(n, m, l, seed=s0 + k))
        cnt[r] = cnt.get(r, 0) + 1
    need(set(cnt) <= set(ch), "invalid choice %s", list(set(cnt) - set(ch))[:1])
    if K < 9000:
        if m > 0:
            need(len(cnt) == len(ch), "n=%d m=%d l=%d: choice %s never occurs in %d seeds", n, m, l, list(set(ch) - set(cnt))[:1], K)
    occ = {x for r in cnt for x in r}
    want = {x for r in ch for x in r}
    need(occ == want, "n=%d m=%d l=%d: index %s never occurs in %d seeds", n, m, l, sorted(want - occ)[:1], K)
    # unseeded calls are random too
    if len(ch) > 2:
        u = {tuple(get_N_splits(n, m, l)) for _ in range(80)}
        need(len(u) > 1, "unseeded calls always give %s", list(u)[0])
    ctx.label("choices:%d" % len(ch) if len(ch) < 10 else "choices:many")
    ctx.hit(len(ch) > 1)


rcase = st.lists(g.pick(st.integers(-9, 9).map(float), st.floats(-1e6, 1e6, allow_nan=False), st.floats(-1.5, 1.5, allow_nan=False)), min_size=1, max_size=6)


def run_round(c, ctx):
    from czone.util.misc import round_away
    x = np.array(c)
    x0 = x.copy()
    r = np.asarray(round_away(x))
    need(np.array_equal(x, x0), "argument modified")
    import math
    e = [float(math.ceil(v)) if v > 0 else float(math.floor(v)) for v in c]
    need(r.shape == x.shape and np.array_equal(r, e), "round_away(%s) = %s", c, r.tolist())
    need(float(round_away(c[0])) == e[0], "round_away(%s) = %s", c[0], round_away(c[0]))
    ctx.hit(any(v != int(v) for v in c))


PARTS = [Part("requests", request(), run_req, quick=3000, thorough=60000, shards=4, case_s=60), Part("coverage", small, run_cov, quick=120, thorough=2500, shards=8), Part("rounding", rcase, run_round, quick=300, thorough=4000, shards=2)]
