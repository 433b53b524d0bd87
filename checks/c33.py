import itertools
import numpy as np
from hypothesis import strategies as st
from pbt import Part, need
import geom as g

ID = "C33"
RULE = ("graph: adjacency of a list of tetrahedra against its definition. shells: a cloud or crystal is triangulated by the alpha-shape routine; for every (or some) target atoms and 1-5 shells, the neighbours are those of a breadth-first search "
        "over the edges of the tetrahedra kept. normals: neighbour vectors in a cone of stated opening, any lengths and seeds. Non-trivial: at least two tetrahedra / a shell that is neither empty nor everything / at least four vectors.")
ASSUMPTIONS = ["Separating normals are only demanded when some direction leaves all neighbours more than 0.3 rad below its tangent plane and there are at most 40 of them."]

gcase = st.fixed_dictionaries(dict(n=st.integers(4, 30), seed=st.integers(0, 2**31), m=st.integers(1, 40)))


def adjacency(tets, n):
    a = np.zeros((n, n), bool)
    for t in np.asarray(tets):
        for i, j in itertools.permutations(t, 2):
            a[i, j] = True
    return a


def run_graph(c, ctx):
    from czone.surface.adsorbate import sparse_matrix_from_tri
    rng = np.random.default_rng(c["seed"])
    t = np.array([rng.choice(c["n"], 4, replace=False) for _ in range(c["m"])])
    t0 = t.copy()
    m = sparse_matrix_from_tri(t)
    need(np.array_equal(t, t0), "simplices modified")
    n = t.max() + 1
    need(m.shape == (n, n), "shape %s for %d points", m.shape, n)
    need(np.array_equal(np.asarray(m.todense()) != 0, adjacency(t, n)), "adjacency of %s is wrong", t.tolist())
    ctx.hit(c["m"] > 1)


cloud = st.fixed_dictionaries(dict(kind=st.sampled_from(["random", "random", "lattice", "ball"]), n=st.integers(12, 90), seed=st.integers(0, 2**31)))
scase = st.fixed_dictionaries(dict(x=cloud, probe=g.num(0.8, 3.0), N=g.pick(st.none(), st.integers(1, 5)), so=st.sampled_from([None, True, False]), smp=st.booleans(), t=st.lists(st.integers(0, 999), min_size=1, max_size=6)))


def positions(c):
    rng = np.random.default_rng(c["seed"])
    if c["kind"] == "random":
        return rng.uniform(-4, 4, (c["n"], 3))
    k = 3 if c["n"] < 50 else 4
    x = np.array(list(itertools.product(range(k), repeat=3)), float) * 2 + rng.normal(size=(k**3, 3)) * 0.02
    if c["kind"] == "ball":
        x = x[np.linalg.norm(x - x.mean(0), axis=1) < k * 1.1]
    return x


def run_shells(c, ctx):
    from czone.surface.adsorbate import get_nearest_neighbors
    from czone.surface.alpha_shape import alpha_shape_alg_3D, alpha_shape_alg_3D_with_sampling
    x = positions(c["x"])
    if len(x) < 6:
        return
    if c["smp"]:
        ind, d = alpha_shape_alg_3D_with_sampling(points=x, probe_radius=c["probe"], N_samples=5, seed=3, rng=np.random.default_rng(3), return_alpha_shape=True)
    else:
        ind, d = alpha_shape_alg_3D(points=x, probe_radius=c["probe"], return_alpha_shape=True)
    simp = np.asarray(d["tri"].simplices)
    so = c["so"] is not False
    kept = simp[np.asarray(d["surface_tris"] if so else d["a_tris"])]
    kw = {} if c["so"] is None else dict(surface_only=c["so"])
    if c["N"] is not None:
        kw["N_shells"] = c["N"]
    N = c["N"] or 3
    if len(kept) == 0:
        return
    a = adjacency(kept, len(x))
    corners = np.unique(kept)
    hit = False
    for k in c["t"]:
        t = int(corners[k % len(corners)])
        seen, front = {t}, {t}
        for _ in range(N):
            front = {int(j) for i in front for j in np.nonzero(a[i])[0]} - seen
            seen |= front
        got = np.asarray(get_nearest_neighbors(t, d, **kw))
        need(got.ndim == 1 and len(set(got.tolist())) == len(got), "neighbours %s", got.tolist())
        want = seen - {t}
        need(set(got.tolist()) == want, "neighbours of atom %d within %d shells: %s missing, %s too many", t, N, sorted(want - set(got.tolist()))[:5], sorted(set(got.tolist()) - want)[:5])
        hit |= 0 < len(want) < len(corners) - 1
    ctx.label("surface" if so else "all", "%d shells" % N, c["x"]["kind"])
    ctx.hit(hit)


ncase = st.fixed_dictionaries(dict(d=g.direction(False), n=st.integers(1, 40), open=g.num(0.3, 1.2), seed=st.integers(0, 2**31), rs=g.pick(st.none(), st.integers(0, 10**4)), near=st.sampled_from([1.0, 1.0, 0.2]),
                                   kw=st.sampled_from([{}, {}, dict(decay=0.95, tol=1e-4), dict(decay=0.95, tol=1e-4, margin=0)])))


def run_normals(c, ctx):
    from czone.surface.adsorbate import find_approximate_normal
    rng = np.random.default_rng(c["seed"])
    d = g.unit(c["d"])
    x = rng.normal(size=(4000, 3))
    x /= np.linalg.norm(x, axis=1)[:, None]
    x = x[x @ d < -np.sin(c["open"])][:c["n"]]
    if not len(x):
        x = -d[None]
    x = x * rng.uniform(c["near"], 1, (len(x), 1))
    x0 = x.copy()
    kw = dict(c["kw"], **({} if c["rs"] is None else dict(seed=c["rs"])))
    w = np.asarray(find_approximate_normal(x, **kw))
    need(np.array_equal(x, x0), "points modified")
    need(w.shape == (3,) and abs(np.linalg.norm(w) - 1) < 1e-9, "normal %s is not a unit vector", w.tolist())
    need((x @ w).max() < 1e-9, "neighbour vector %s is on the outer side of normal %s (all are on one side of %s)", x[np.argmax(x @ w)].tolist(), w.tolist(), d.tolist())
    need(np.array_equal(w, np.asarray(find_approximate_normal(x, **kw))), "the same seed gives another normal")
    ctx.label("cone %.1f" % c["open"], "first guess" if np.all(x @ np.ones(3) < 0) else "needs steps")
    ctx.hit(len(x) >= 4)


PARTS = [Part("graph", gcase, run_graph, quick=300, thorough=4000, shards=2), Part("shells", scase, run_shells, quick=400, thorough=6000, shards=8), Part("normals", ncase, run_normals, quick=1200, thorough=20000, shards=4)]
