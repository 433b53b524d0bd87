import itertools
import numpy as np
from hypothesis import strategies as st
from scipy.spatial import ConvexHull, Delaunay, Voronoi
from pbt import Part, need
import geom as g

ID = "C25"
RULE = ("radii: circumradii of tetrahedra against the solved circumcentre. cloud: random, clustered and hollow clouds against a reference alpha shape (exterior = failing tetrahedra connected to the outside; surface = vertices of faces "
        "between it and the rest), when that is the same for several perturbations of the points, also after rigid motion and relabelling. crystal: blocks, balls, polyhedra and hollow blocks of crystals: every reported atom has an empty "
        "probe touching it (Voronoi cell reaches the probe radius, or hull) and every hull corner (with sampling every hull atom) of a well-sampled cluster is reported. Non-trivial: an atom is reported and another is not / radius compared.")
ASSUMPTIONS = ["At least four non-coplanar points.", "Point sets with circumradii within 0.4 % of the probe radius, or whose surface changes under perturbations of 5e-4, are judged by the empty-sphere bound only.",
               "Completeness is demanded for hull atoms all of whose non-flat tetrahedra pass the probe test with 5 % to spare."]


def radii(p):
    p = np.asarray(p, float)
    A = p[:, 1:] - p[:, :1]
    b = (A**2).sum(2) / 2
    det = np.linalg.det(A)
    flat = np.abs(det) < 1e-10 * (np.sqrt(2 * b).max(1))**3 + 1e-300
    A = np.where(flat[:, None, None], np.eye(3), A)
    r = np.linalg.norm(np.linalg.solve(A, b[:, :, None])[:, :, 0], axis=1)
    return np.where(flat, np.inf, r), np.abs(det) / (np.sqrt(2 * b).max(1))**3


def surface(p, probe):
    """Reference: (set of surface vertices, smallest relative distance of a non-flat circumradius from the probe radius)."""
    t = Delaunay(p)
    r, q = radii(p[t.simplices])
    bad = ~(r <= probe)
    ext = bad & (t.neighbors < 0).any(1)
    todo = list(np.flatnonzero(ext))
    while todo:
        for n in t.neighbors[todo.pop()]:
            if n >= 0 and bad[n] and not ext[n]:
                ext[n] = True
                todo.append(n)
    out = set()
    for s, nb, b in zip(t.simplices, t.neighbors, bad):
        if not b:
            for k in range(4):
                if nb[k] < 0 or ext[nb[k]]:
                    out.update(int(x) for j, x in enumerate(s) if j != k)
    return out, np.abs(r / probe - 1).min()


def reach(p):
    """Radius of the largest empty sphere touching each point (inf on the hull)."""
    v = Voronoi(p)
    out = np.full(len(p), np.inf)
    for i, r in enumerate(v.point_region):
        reg = v.regions[r]
        if len(reg) and -1 not in reg:
            out[i] = np.linalg.norm(v.vertices[reg] - p[i], axis=1).max()
    e = ConvexHull(p).equations
    out[(p @ e[:, :3].T + e[:, 3]).max(1) > -2e-3] = np.inf
    return out


def certain(x, probe):
    """Which points have a robust tetrahedron of the alpha shape and no non-flat one outside of it; and which have none outside of it in the exact triangulation."""
    rng = np.random.default_rng(7)
    ok, has, sealed = np.ones(len(x), bool), np.ones(len(x), bool), np.ones(len(x), bool)
    for j in range(3):
        y = x + (1e-4 * rng.uniform(-1, 1, x.shape) if j else 0)
        t = Delaunay(y)
        r, q = radii(y[t.simplices])
        ok[t.simplices[(q > 0.02) & (r > 0.95 * probe)].ravel()] = False
        h = np.zeros(len(x), bool)
        h[t.simplices[(q > 0.02) & (r < 0.95 * probe)].ravel()] = True
        has &= h
        if j == 0:
            sealed[t.simplices[(q > 1e-9) & (r > 0.95 * probe)].ravel()] = False
    return ok & has, sealed


def call(p, c, probe, extra=True):
    from czone.surface.alpha_shape import alpha_shape_alg_3D, alpha_shape_alg_3D_with_sampling
    p0 = p.copy()
    if c["alg"] == "perturb":
        np.random.seed(c["seed"])
        s = alpha_shape_alg_3D(p, probe)
        np.random.seed(c["seed"])
        s2, d = alpha_shape_alg_3D(p, probe, return_alpha_shape=True)
    else:
        kw = dict(seed=c["seed"])
        if c["alg"] == "rng":
            kw = dict(rng=np.random.default_rng(c["seed"]))
        s = alpha_shape_alg_3D_with_sampling(p, probe, c["N"], **kw)
        if c["alg"] == "rng":
            kw = dict(rng=np.random.default_rng(c["seed"]), seed=99)
        s2, d = alpha_shape_alg_3D_with_sampling(p, probe, c["N"], return_alpha_shape=True, **kw)
    need(np.array_equal(p, p0), "points modified")
    for x in (s, s2):
        need(all(isinstance(i, (int, np.integer)) and 0 <= i < len(p) for i in x), "indices are %s", x)
        need(len(set(x)) == len(x), "an index is reported twice")
    need(set(s) == set(s2), "same seed, different results: %s", sorted(set(s) ^ set(s2)))
    st_, sx = np.asarray(d["surface_tris"]), d["tri"].simplices
    need(set(int(i) for i in s) <= set(sx[st_].ravel().tolist()), "reported atoms that are not in surface tetrahedra")
    a = np.zeros(len(sx), bool)
    a[d["a_tris"]] = True
    need(bool((a | ~st_).all()), "surface tetrahedra outside of the alpha shape")
    return set(int(i) for i in s)


rcase = st.fixed_dictionaries(dict(t=st.lists(st.tuples(g.vec(-5, 5), g.vec(-5, 5), g.vec(-5, 5), g.vec(-5, 5)), min_size=1, max_size=8), s=st.sampled_from([1.0, 1.0, 1e-2, 1e3]), o=g.vec(-20, 20)))


def run_radii(c, ctx):
    from czone.surface.alpha_shape import tetrahedron_circumradii
    p = np.array(c["t"]) * c["s"] + np.array(c["o"])
    p0 = p.copy()
    got = np.asarray(tetrahedron_circumradii(p))
    need(np.array_equal(p, p0), "points modified")
    need(got.shape == (len(p),), "shape %s for %d tetrahedra", got.shape, len(p))
    r, q = radii(p)
    for i in np.flatnonzero(q > 1e-3):
        need(abs(got[i] - r[i]) <= 1e-6 * r[i], "circumradius of %s is %s, expected %s", c["t"][i], got[i], r[i])
        need(not got[i] < np.inf or q[i] < 1e-3 or got[i] >= np.linalg.norm(p[i, 1] - p[i, 0]) / 2 * (1 - 1e-9), "smaller than half an edge")
        ctx.hit()


opts = dict(alg=st.sampled_from(["perturb", "sample", "sample", "rng"]), seed=st.integers(0, 2**31), N=st.sampled_from([1, 3, 20]))


@st.composite
def cloud(draw):
    rng = np.random.default_rng(draw(st.integers(0, 2**31)))
    kind = draw(st.sampled_from(["few", "ball", "ball", "box", "hollow", "two", "groove"]))
    n = draw(st.integers(4, 12)) if kind == "few" else draw(st.integers(20, 140))
    L = draw(g.num(2, 10))
    x = (rng.random((n * 3, 3)) * 2 - 1) * L
    if kind in ("ball", "hollow"):
        x = x[np.linalg.norm(x, axis=1) < L]
    if kind == "hollow":
        x = x[np.linalg.norm(x - x.mean(0), axis=1) > 0.55 * L]
    if kind == "groove":
        x = x[(np.abs(x[:, 0]) > 0.3 * L) | (x[:, 2] < 0)]
    if kind == "two":
        x = np.where(np.arange(len(x))[:, None] % 2, x * 0.5, x * 0.5 + [1.4 * L, 0, 0])
    # thin out pairs that are too close
    keep = []
    d = L * 0.8 * n**(-1 / 3)
    for i in range(len(x)):
        if all(np.linalg.norm(x[i] - x[j]) > d for j in keep) and len(keep) < n:
            keep.append(i)
    x = x[keep]
    return dict(kind=kind, x=x.round(4).tolist(), probe=round(draw(g.num(0.8, 5)) * d, 3))


def good(c):
    x = np.array(c["x"])
    return len(x) >= 4 and np.linalg.svd(x - x.mean(0))[1][2] > 0.3


ccase = st.fixed_dictionaries(dict(opts, c=cloud().filter(good), m=g.isometry(), perm=st.integers(0, 2**31)))


def run_cloud(c, ctx):
    p, probe = np.array(c["c"]["x"]), c["c"]["probe"]
    A, b = g.affine(c["m"])
    perm = np.random.default_rng(c["perm"]).permutation(len(p))
    p2 = (p @ A.T + b)[perm]
    res = [call(p, c, probe), set(int(perm[i]) for i in call(p2, c, probe))]
    ref, gap = surface(p, probe)
    rng = np.random.default_rng(5)
    stable = gap > 0.004
    touch = reach(p)
    for k in range(10):
        if stable:
            r, gp = surface(p + (5e-4 if c["alg"] == "perturb" else 1e-3) * rng.uniform(-1, 1, p.shape), probe)
            stable = r == ref and gp > 0.002
    for name, s in zip(("", " after motion and relabelling"), res):
        for i in s:
            need(touch[i] > 0.98 * probe, "atom %d%s is reported, but no empty sphere larger than %.4g touches it (probe %s)", i, name, touch[i], probe)
        if stable:
            need(s == ref, "%s with probe %s%s: reported %s, expected %s: extra %s, missing %s", c["alg"], probe, name, sorted(s), sorted(ref), sorted(s - ref), sorted(ref - s))
    ctx.label(c["c"]["kind"], "stable" if stable else "unstable", c["alg"], "convex" if all(np.isinf(touch[i]) for i in ref) else "concave", "empty" if not ref else "surface")
    ctx.hit(stable and 0 < len(ref) < len(p))


BASES = dict(sc=[[0, 0, 0]], fcc=[[0, 0, 0], [.5, .5, 0], [.5, 0, .5], [0, .5, .5]], bcc=[[0, 0, 0], [.5, .5, .5]],
             diamond=[[0, 0, 0], [.5, .5, 0], [.5, 0, .5], [0, .5, .5], [.25, .25, .25], [.75, .75, .25], [.75, .25, .75], [.25, .75, .75]])
xcase = st.fixed_dictionaries(dict(opts, b=st.sampled_from(sorted(BASES)), lat=g.lattice(True), cubic=st.booleans(), n=st.tuples(st.integers(1, 4), st.integers(1, 4), st.integers(1, 4)), full=st.booleans(),
                                   cut=g.pick(st.none(), st.fixed_dictionaries(dict(r=g.num(0.5, 1.1), o=g.vec(-0.3, 0.3))), st.lists(st.tuples(g.direction(False), g.num(0.3, 0.9)), min_size=1, max_size=4), st.just("hollow")),
                                   probe=g.pick(g.num(1.05, 1.5), g.num(0.5, 3)), m=g.isometry()))


def run_crystal(c, ctx):
    l = [c["lat"][0]] * 3 + [90.0] * 3 if c["cubic"] else c["lat"]
    B = g.lat_matrix(l)
    n = np.array(c["n"]) + (1 if c["cut"] is None else 2)
    f = (np.array(list(itertools.product(*[range(k) for k in n])))[:, None] + np.array(BASES[c["b"]])[None]).reshape(-1, 3)
    if c["full"]:  # closed block: all corners of all cells
        f = (np.array(list(itertools.product(*[range(k + 1) for k in n])))[:, None] + np.array(BASES[c["b"]])[None]).reshape(-1, 3)
        f = f[(f <= n).all(1)]
    x = f @ B.T
    ctr, half = x.mean(0), np.ptp(x, axis=0) / 2
    kind = "block"
    if c["cut"] == "hollow":
        x = x[(np.abs(f - f.mean(0)) > n / 5 + 0.01).any(1)]
        kind = "hollow"
    elif isinstance(c["cut"], dict):
        x = x[np.linalg.norm(x - ctr - half * c["cut"]["o"], axis=1) < half.max() * c["cut"]["r"]]
        kind = "ball"
    elif c["cut"]:
        for d, h in c["cut"]:
            x = x[(x - ctr) @ g.unit(d) < h * half.max()]
        kind = "poly"
    if len(x) < 5 or np.linalg.svd(x - x.mean(0))[1][2] < 0.8 or len(x) > 500:
        return
    A, b = g.affine(c["m"])
    x = x @ A.T + b
    # largest circumradius of the bulk crystal (covering radius), from a periodic block
    k = np.array(list(itertools.product(range(-2, 3), repeat=3)))
    bulk = (k[:, None] + np.array(BASES[c["b"]])[None]).reshape(-1, 3) @ B.T
    v = Voronoi(bulk)
    inner = v.vertices[(np.abs(np.linalg.solve(B, v.vertices.T).T) <= 1.01).all(1)]
    cover = g.cKDTree(bulk).query(inner)[0].max()
    probe = round(cover * c["probe"], 4)
    s = call(x, c, probe)
    touch = reach(x)
    for i in s:
        need(touch[i] > 0.98 * probe, "atom at %s is reported, but no empty sphere larger than %.4g touches it (probe %s)", x[i].tolist(), touch[i], probe)
    e = ConvexHull(x).equations
    on = np.abs(x @ e[:, :3].T + e[:, 3]) < 1e-6
    rank = [np.linalg.matrix_rank(e[o][:, :3], tol=1e-3) if o.any() else 0 for o in on]
    ok, sealed = certain(x, probe)
    must = [i for i in range(len(x)) if ok[i] and (rank[i] == 3 or (c["alg"] != "perturb" and c["N"] == 20 and rank[i] > 0))]
    for i in must:
        need(i in s, "%s of the hull at %s of %d atoms is not reported (probe %s, %s)", "corner" if rank[i] == 3 else "atom", x[i].tolist(), len(x), probe, c["alg"])
    if sealed[np.array(rank) > 0].all():  # the hull is sealed: nothing but hull atoms is exposed
        ctx.label("sealed " + kind)
        for i in s:
            need(np.isinf(touch[i]), "atom at %s is reported, below a hull that no probe of radius %s enters", x[i].tolist(), probe)
    ctx.label(kind, c["b"], c["alg"], "corners" if must else "no corners")
    ctx.hit(len(must) > 0 and len(s) < len(x))


PARTS = [Part("radii", rcase, run_radii, quick=600, thorough=8000), Part("cloud", ccase, run_cloud, quick=900, thorough=14000, shards=8), Part("crystal", xcase, run_crystal, quick=900, thorough=14000, shards=8)]
