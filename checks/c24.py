import itertools
import numpy as np
from hypothesis import strategies as st
from pbt import Part, need
import geom as g

ID = "C24"
RULE = ("grid: every voxel's neighbours against the definition, all shapes up to 7x7x7 voxels and periodicities. distance: minimum image over explicit images. counts: radial distribution of random, clustered, lattice, flat and "
        "coincident points against a direct count over ordered pairs, bin by bin. Non-trivial: some non-periodic axis with at least two voxels / a pair nearer through the boundary / more than one voxel and a count.")
ASSUMPTIONS = ["The periodic box of the radial distribution is the extent of the points, and distances are to the nearest image.", "Pairs within 1e-9 of a bin edge may fall on either side; the first bin is cleared."]

bools = st.tuples(st.booleans(), st.booleans(), st.booleans())
dim = g.pick(st.integers(1, 3), st.integers(1, 7))
gcase = st.fixed_dictionaries(dict(d=st.tuples(dim, dim, dim), p=bools, how=st.sampled_from(["tuple", "array", "list", "default"])))


def brute(d, p):
    out = []
    for k, j, i in itertools.product(range(d[2]), range(d[1]), range(d[0])):
        s = set()
        for t in itertools.product((-1, 0, 1), repeat=3):
            q = [i + t[0], j + t[1], k + t[2]]
            for a in range(3):
                if p[a]:
                    q[a] %= d[a]
            if all(0 <= q[a] < d[a] for a in range(3)):
                s.add(q[0] + d[0] * (q[1] + d[1] * q[2]))
        out.append(s)
    return out


def run_grid(c, ctx):
    from czone.util.measure import get_voxel_grid
    d, p = tuple(c["d"]), tuple(c["p"])
    arg = np.array(d) if c["how"] == "array" else list(d) if c["how"] == "list" else d
    if c["how"] == "default":
        p = (True, True, True)
        r = get_voxel_grid(arg)
    else:
        r = get_voxel_grid(arg, *p)
    need(tuple(int(x) for x in arg) == d, "argument modified")
    b = brute(d, p)
    need(len(r) == len(b), "%d voxels instead of %d", len(r), len(b))
    for i, (x, y) in enumerate(zip(r, b)):
        x = list(x)
        need(all(isinstance(v, (int, np.integer)) for v in x), "neighbours of voxel %d are %s", i, x)
        need(set(int(v) for v in x) == y, "voxel %d of grid %s, periodic %s: neighbours %s, expected %s", i, d, p, sorted(set(x)), sorted(y))
    ctx.label("periodic:%d" % sum(p), "flat" if min(d) == 1 else "min %d" % min(min(d), 3))
    ctx.hit(any(not q and n > 1 for q, n in zip(p, d)) or max(d) > 2)


dcase = st.fixed_dictionaries(dict(L=g.vec(0.5, 12), p=bools, A=st.lists(g.vec(0, 1), min_size=1, max_size=5), B=st.lists(g.vec(0, 1), min_size=1, max_size=5), none=st.booleans(), ty=st.sampled_from(["list", "tuple", "array"])))


def run_dist(c, ctx):
    from czone.util.measure import get_sdist_fun
    L, p = np.array(c["L"]), tuple(c["p"])
    A, B = np.array(c["A"]) * L, np.array(c["B"]) * L
    if not any(p) and c["none"]:
        f = get_sdist_fun()
    else:
        dims = {"list": list(c["L"]), "tuple": tuple(c["L"]), "array": L.copy()}[c["ty"]]
        f = get_sdist_fun(dims, *p) if c["none"] else get_sdist_fun(dims=dims, px=p[0], py=p[1], pz=p[2])
    a, b = A[:, :, None], B.T[None]
    a0, b0 = a.copy(), b.copy()
    got = np.asarray(f(a, b))
    need(np.array_equal(a, a0) and np.array_equal(b, b0), "points modified")
    sh = np.array(list(itertools.product(*[(-1, 0, 1) if q else (0,) for q in p]))) * L
    w = np.sum((A[:, None, None] - B[None, :, None] + sh[None, None])**2, axis=3)
    want = w.min(axis=2)
    need(got.shape == want.shape, "shape %s instead of %s", got.shape, want.shape)
    need(np.allclose(got, want, rtol=1e-9, atol=1e-9), "periodic %s box %s: squared distances %s, expected %s", p, c["L"], got.tolist(), want.tolist())
    need(np.allclose(f(b.transpose(2, 1, 0), a.transpose(2, 1, 0)), want.T, rtol=1e-9, atol=1e-9), "distance is not symmetric")
    ctx.hit((want < w[:, :, np.flatnonzero((sh == 0).all(axis=1))[0]] - 1e-9).any() or not any(p))


@st.composite
def points(draw):
    kind = draw(st.sampled_from(["uniform", "uniform", "cluster", "lattice", "flat", "line", "few"]))
    L = np.array(draw(g.vec(1, 16)))
    if kind == "few":
        return [[float(x) for x in np.array(p) * L / 5] for p in draw(st.lists(g.vec(-5, 5), min_size=1, max_size=6))]
    rng = np.random.default_rng(draw(st.integers(0, 2**31)))
    n = draw(st.integers(2, 90))
    if kind == "uniform":
        x = rng.random((n, 3)) * L
    elif kind == "cluster":
        x = rng.random((4, 3))[rng.integers(0, 4, n)] * L + rng.normal(size=(n, 3)) * 0.4
        x[::7] = x[0]
    elif kind == "lattice":
        k = rng.integers(1, 5, 3)
        x = np.array(list(itertools.product(*map(range, k)))) * np.round(rng.uniform(0.5, 3), draw(st.sampled_from([0, 1, 3])))
    else:
        x = rng.random((n, 3)) * L
        x[:, draw(st.integers(0, 2))] = 1.5
        if kind == "line":
            x[:, draw(st.integers(0, 2))] = -0.5
    return x.round(6).tolist()


ccase = st.fixed_dictionaries(dict(x=points(), cut=g.pick(st.integers(3, 40), st.integers(3, 120)).map(lambda k: k / 10), p=bools, o=g.shift_vec(100), how=st.sampled_from(["args", "kw", "default"])))


def run_rdf(c, ctx):
    from czone.util.measure import calc_rdf
    x = np.array(c["x"], float).reshape(-1, 3) + np.array(c["o"])
    p, cut = tuple(c["p"]), c["cut"]
    while np.prod(np.maximum(np.floor(np.ptp(x, axis=0) / cut), 1)) > 120:
        cut = round(1.3 * cut + 0.1, 1)
    x0 = x.copy()
    if c["how"] == "default":
        p, cut = (True, True, True), 20.0
        r = calc_rdf(x)
    else:
        r = calc_rdf(x, cut, *p) if c["how"] == "args" else calc_rdf(x, cutoff=cut, px=p[0], py=p[1], pz=p[2])
    need(np.array_equal(x, x0), "coordinates modified")
    r = np.asarray(r, float)
    nb = int(round(cut * 10))
    need(r.shape == (nb,), "%s bins for cutoff %s", r.shape, cut)
    L = np.ptp(x, axis=0)
    d = np.abs(x[:, None] - x[None])
    for a in range(3):
        if p[a]:
            d[:, :, a] = np.minimum(d[:, :, a], np.abs(L[a] - d[:, :, a]))
    d = np.sqrt((d**2).sum(axis=2)).ravel()
    e = 1e-9 * (1 + np.abs(x).max())
    need(r[0] == 0, "first bin not cleared")
    for k in range(1, nb):
        s = r[k:].sum()
        lo = ((d >= k / 10 + e) & (d <= cut - e)).sum()
        hi = ((d >= k / 10 - e) & (d <= cut + e)).sum()
        need(lo <= s <= hi, "periodic %s cutoff %s: %s pairs from %.1f up, direct count %d%s", p, cut, s, k / 10, lo, "" if lo == hi else " to %d" % hi)
    need((r >= 0).all() and np.array_equal(r, np.round(r)), "counts are %s", r.tolist()[:5])
    many = np.prod(np.maximum(np.floor(L / cut), 1)) > 1
    ctx.label("voxels" if many else "one voxel", "periodic:%d" % sum(p))
    ctx.hit(r.sum() > 0 and (many or len(x) > 5))


PARTS = [Part("grid", gcase, run_grid, quick=700, thorough=8000), Part("distance", dcase, run_dist, quick=800, thorough=12000), Part("counts", ccase, run_rdf, quick=800, thorough=12000, shards=8)]
