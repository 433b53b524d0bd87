import itertools, math
import numpy as np
from hypothesis import strategies as st
from scipy.spatial import ConvexHull, HalfspaceIntersection
from pbt import Part, need
import c20, objs
import geom as g

ID = "C27"
RULE = ("Cubic, tetragonal and hexagonal crystals (centrosymmetric and polar, elemental and compound), generators at any origin and orientation, 1-4 facet forms with random energies and sizes. Region against half-spaces expanded with explicitly listed "
        "point-group operations and scaled to the volume of the requested atoms (queries at vertices, facet centres, edges, in bulk); populated atoms against lattice enumeration; area fractions; changes of size, energies and generator; named "
        "shapes; Winterbottom constructions on any interface. Non-trivial: at least two forms bound the particle, or a changed parameter, or an interface.")
ASSUMPTIONS = ["The unit cell given is the standard conventional cell of the crystal (as in wulffpack, whose Miller indices refer to it).", "The particle is centered at the coordinate origin.",
               "Winterbottom: cubic crystals, non-zero interface energy; for negative interface energies the size is not compared (wulffpack's scaling)."]

F = [[0, 0, 0], [.5, .5, 0], [.5, 0, .5], [0, .5, .5]]


def f(z, o):
    return [[z, [(a + b) % 1 for a, b in zip(p, o)]] for p in F]


# name: (cell kind, basis, point group)
XT = dict(sc=("c", [[84, [0, 0, 0]]], "m-3m"), fcc=("c", f(79, [0, 0, 0]), "m-3m"), bcc=("c", [[26, [0, 0, 0]], [26, [.5] * 3]], "m-3m"), diamond=("c", f(14, [0] * 3) + f(14, [.25] * 3), "m-3m"),
          nacl=("c", f(11, [0] * 3) + f(17, [.5] * 3), "m-3m"), cscl=("c", [[55, [0] * 3], [17, [.5] * 3]], "m-3m"), zb=("c", f(31, [0] * 3) + f(33, [.25] * 3), "-43m"), zb2=("c", f(31, [0] * 3) + f(33, [.75] * 3), "-43m"),
          rutile=("t", [[22, [0] * 3], [22, [.5] * 3], [8, [.305, .305, 0]], [8, [.695, .695, 0]], [8, [.195, .805, .5]], [8, [.805, .195, .5]]], "4/mmm"), tet=("t", [[50, [0] * 3]], "4/mmm"), b2t=("t", [[79, [0] * 3], [29, [.5] * 3]], "4/mmm"),
          hcp=("h", [[22, [1 / 3, 2 / 3, .25]], [22, [2 / 3, 1 / 3, .75]]], "6/mmm"), wz=("h", [[31, [1 / 3, 2 / 3, 0]], [31, [2 / 3, 1 / 3, .5]], [7, [1 / 3, 2 / 3, .377]], [7, [2 / 3, 1 / 3, .877]]], "6mm"),
          wz2=("h", [[31, [2 / 3, 1 / 3, 0]], [31, [1 / 3, 2 / 3, .5]], [7, [2 / 3, 1 / 3, .377]], [7, [1 / 3, 2 / 3, .877]]], "6mm"))


def orbit(h, pg):
    """Symmetry-equivalent Miller indices."""
    h = tuple(h)
    out = set()
    if pg in ("m-3m", "-43m"):
        for p in itertools.permutations(range(3)):
            for s in itertools.product((1, -1), repeat=3):
                if pg == "-43m" and np.prod(s) < 0:
                    continue
                out.add(tuple(s[i] * h[p[i]] for i in range(3)))
    elif pg == "4/mmm":
        for a, b in ((0, 1), (1, 0)):
            for s in itertools.product((1, -1), repeat=3):
                out.add((s[0] * h[a], s[1] * h[b], s[2] * h[2]))
    else:  # hexagonal: permutations of h, k, i and a common sign
        q = (h[0], h[1], -h[0] - h[1])
        for p in itertools.permutations(q):
            for s in (1, -1):
                for t in ((1, -1) if pg == "6/mmm" else (1,)):
                    out.add((s * p[0], s * p[1], t * h[2]))
    return sorted(out)


def prim(h):
    return any(h) and math.gcd(math.gcd(abs(h[0]), abs(h[1])), abs(h[2])) == 1


hkl = g.pick(st.sampled_from([(1, 0, 0), (1, 1, 0), (1, 1, 1), (0, 0, 1), (-1, -1, -1), (0, 0, -1)]), *[st.tuples(*[st.integers(-2, 2)] * 3)] * 2, st.tuples(*[st.integers(-5, 5)] * 3)).filter(prim)
energy = g.num(1, 1.6)
tr = st.lists(g.isometry(0), max_size=2)
gen = st.fixed_dictionaries(dict(x=st.sampled_from(sorted(XT)), a=g.num(2.8, 4.5, 3), ca=g.pick(g.num(0.7, 0.9, 3), g.num(1, 1.6, 3)), o=g.pick(st.none(), st.none(), g.vec(-3, 3)), tr=g.pick(st.just([]), tr)))
# vicinal: facets of directions and energies close to those of another form
near = st.tuples(hkl, energy, st.lists(st.tuples(st.integers(2, 6), st.tuples(*[st.integers(-1, 1)] * 3), g.num(0.97, 1.01)), min_size=1, max_size=2)).map(
    lambda t: [(t[0], t[1])] + [(h, round(t[1] * f, 4)) for k, d, f in t[2] for h in [tuple(k * a + b for a, b in zip(t[0], d))] if prim(h)])
forms = g.pick(*[st.lists(st.tuples(hkl, energy), min_size=1, max_size=4)] * 4, near)


def spec(c):
    kind, b, pg = XT[c["x"]]
    a = c["a"] + (1.4 if len(b) > 4 else 0.4 if len(b) > 2 else 0)
    lat = [a, a, a, 90.0, 90.0, 90.0] if kind == "c" else [a, a, round(a * (c["ca"] + 0.05), 4), 90.0, 90.0, 90.0] if kind == "t" else [a, a, round(a * (c["ca"] + 0.02), 4), 90.0, 90.0, 120.0]
    return dict(lat=lat, b=b, o=c["o"], tr=c["tr"], sc=None), pg


def energies(c, fm):
    """Distinct forms that close the particle: {miller: energy}, with all equivalents {miller: (form, energy)}."""
    kind, b, pg = XT[c["x"]]
    fm = [(tuple(h), float(e)) for h, e in fm]
    if pg == "4/mmm" or pg == "6/mmm":
        fm = [((1, 0, 0), 1.0), ((0, 0, 1), 1.1)] + fm
    elif pg == "6mm":
        fm = [((1, 0, 0), 1.0), ((0, 0, 1), 1.1), ((0, 0, -1), 1.25)] + fm
    en, al = {}, {}
    for h, e in fm:
        if h not in al:
            en[h] = e
            for q in orbit(h, pg):
                al[q] = (h, e)
    return en, al


def halfspaces(B, al):
    hs = sorted(al)
    N = np.array([np.linalg.solve(B.T, np.array(h, float)) for h in hs])
    N /= np.linalg.norm(N, axis=1)[:, None]
    return N, np.array([al[h][1] for h in hs]), [al[h][0] for h in hs]


def poly(N, d, center=None):
    H = HalfspaceIntersection(np.column_stack([N, -d]), np.zeros(3) if center is None else center)
    V = H.intersections
    V = V[np.isfinite(V).all(1)]
    return V, ConvexHull(V).volume


def areas(N, d, names, V):
    out = {}
    for n, x, h in zip(N, d, names):
        on = V[np.abs(V @ n - x) < 1e-7 * (1 + abs(x))]
        if len(on) < 3:
            continue
        u = np.linalg.svd(n[None])[2][1:]
        try:
            a = ConvexHull(on @ u.T).volume
        except Exception:
            continue
        out[h] = out.get(h, 0.0) + a
    return out


def region(v, N, d, V, what):
    """Interiority of the volume against the half-spaces."""
    rng = np.random.default_rng(3)
    hull = ConvexHull(V)
    tri = V[hull.simplices]
    surf = np.vstack([V, tri.mean(1), (tri[:, 0] + tri[:, 1]) / 2, np.einsum("ij,jik->ik", rng.dirichlet(np.ones(3), 60), tri[rng.integers(0, len(tri), 60)].transpose(1, 0, 2))])
    q = np.vstack([surf * k for k in (0.5, 0.98, 0.999, 1.001, 1.02, 1.5)] + [rng.uniform(-1.2, 1.2, (80, 3)) * np.abs(V).max(0)])
    m = (d - q @ N.T).min(1)
    sure = np.abs(m) > 1e-5 * (1 + np.abs(d).max())
    got = g.as_bool(v.checkIfInterior(q), len(q))
    bad = np.flatnonzero(sure & (got != (m > 0)))
    need(len(bad) == 0, "%s: point %s at %.5g from the nearest facet is reported %s", what, q[bad[0]].tolist() if len(bad) else 0, m[bad[0]] if len(bad) else 0, "inside" if len(bad) and got[bad[0]] else "outside")


def atoms(v, gm, N, d, what):
    if d.max() ** 3 * 4.2 / abs(np.linalg.det(gm.model()[0])) > 1500:
        return  # large particles: region only
    v.populate_atoms()
    ext = np.abs(np.array(poly(N, d)[0])).max(0) if (d > 0).all() else np.full(3, d.max() * 2.5)
    cs, ss = g.sites(gm.model(), np.array([-ext, ext]), pad=1e-3)
    m = (d - cs @ N.T).min(1) if len(cs) else np.zeros(0)
    band = 1e-5 * (1 + np.abs(cs).max() / 10 + np.abs(gm.o).max()) if len(cs) else 1
    k = m > -band
    objs.compare(v.atoms, v.species, (cs[k], ss[k], m[k] > band), what)


def expect(gm, al, natoms, b):
    B = gm.model()[0]
    N, e, names = halfspaces(B, al)
    V, vol = poly(N, e)
    s = (natoms * abs(np.linalg.det(B)) / len(b) / vol)**(1 / 3)
    return N, e * s, names, V * s


case = st.fixed_dictionaries(dict(g=gen, fm=forms, n=g.pick(*[st.integers(20, 250), st.integers(250, 700)] * 4 + [st.integers(700, 3 * 10 ** 6)]), areas=st.booleans(), edit=g.pick(st.none(), st.none(), st.tuples(st.just("natoms"), st.integers(20, 300)), st.tuples(st.just("energies"), forms), st.tuples(st.just("generator"), gen))))


def check(W, c, fm, n, ctx, what, ar):
    sp, pg = spec(c)
    en, al = energies(c, fm)
    gm = objs.GM(sp)
    N, d, names, V = expect(gm, al, n, sp["b"])
    r = W.get_construction(return_facet_areas=True) if ar else W.get_construction()
    v = r[0] if ar else r
    A = areas(N, d, names, V)
    if ar:
        tot = sum(A.values())
        for fr, w in ((r[1], "returned"), (W.get_areas(), "get_areas")):
            fr = {tuple(k): float(x) for k, x in dict(fr).items()}
            need(abs(sum(fr.values()) - 1) < 1e-6, "%s: %s area fractions sum to %s", what, w, sum(fr.values()))
            for h in en:
                need(abs(fr.get(h, 0.0) - A.get(h, 0.0) / tot) < 1e-4, "%s: %s area fraction of %s is %s, expected %s", what, w, h, fr.get(h, 0.0), A.get(h, 0.0) / tot)
    region(v, N, d, V, what)
    atoms(v, gm, N, d, what)
    return len(A)


def run(c, ctx):
    from czone.prefab.wulff import WulffSingle
    en, al = energies(c["g"], c["fm"])
    gn = g.build_gen(spec(c["g"])[0])
    s0, en0 = c20.snap(gn), dict(en)
    W = WulffSingle(gn, en, c["n"])
    k = check(W, c["g"], c["fm"], c["n"], ctx, "particle", c["areas"])
    need(c20.diff(s0, c20.snap(gn)) is None, "generator changed")
    need(en == en0, "surface energies changed")
    if c["edit"] is not None:
        what, val = c["edit"]
        gg, fm, n = c["g"], c["fm"], c["n"]
        if what == "natoms":
            W.natoms = n = val
        elif what == "energies":
            fm = val
            W.surface_energies = energies(gg, fm)[0]
        else:
            gg = val
            if XT[gg["x"]][2] != XT[c["g"]["x"]][2]:
                W.surface_energies = energies(gg, fm)[0]
            W.generator = g.build_gen(spec(gg)[0])
        check(W, gg, fm, n, ctx, "particle after change of " + what, True)
        ctx.label("edit:" + what)
    ctx.label(c["g"]["x"], "forms:%d" % k, "moved" if c["g"]["tr"] else "at rest")
    ctx.hit(k > 1 or c["edit"] is not None)


NAMED = dict(cube={(1, 0, 0): 1.0}, octohedron={(1, 1, 1): 1.0}, cuboctohedron={(1, 0, 0): 1.0, (1, 1, 1): 1.15}, truncated_octohedron={(1, 0, 0): 1.1, (1, 1, 0): 1.15, (1, 1, 1): 1.0})
cub = st.sampled_from(sorted(k for k in XT if XT[k][2] == "m-3m"))
ncase = st.fixed_dictionaries(dict(shape=st.sampled_from(sorted(NAMED)), g=st.tuples(gen, cub).map(lambda t: dict(t[0], x=t[1])), n=g.pick(st.none(), st.integers(20, 700), st.integers(20, 700), st.integers(700, 10 ** 6))))


def run_named(c, ctx):
    from czone.prefab.wulff import WulffSingle
    sp, pg = spec(c["g"])
    gn = g.build_gen(sp)
    v = getattr(WulffSingle, c["shape"])(gn) if c["n"] is None else getattr(WulffSingle, c["shape"])(gn, natoms=c["n"])
    al = {q: (h, e) for h, e in NAMED[c["shape"]].items() for q in orbit(h, pg)}
    gm = objs.GM(sp)
    N, d, names, V = expect(gm, al, 1000 if c["n"] is None else c["n"], sp["b"])
    region(v, N, d, V, c["shape"])
    atoms(v, gm, N, d, c["shape"])
    ctx.label(c["shape"])
    ctx.hit()


wcase = st.fixed_dictionaries(dict(g=st.tuples(gen, cub).map(lambda t: dict(t[0], x=t[1])), fm=forms, n=g.pick(*[st.integers(40, 400)] * 5 + [st.integers(400, 10 ** 6)]), i=hkl, e=g.pick(g.num(0.05, 0.5), g.num(0.05, 0.5), g.num(-0.4, -0.05))))


def run_winter(c, ctx):
    from czone.prefab.wulff import WulffSingle
    sp, pg = spec(c["g"])
    en, al = energies(c["g"], c["fm"])
    gm = objs.GM(sp)
    gn = g.build_gen(sp)
    s0 = c20.snap(gn)
    v = WulffSingle(gn, en, c["n"]).winterbottom(tuple(c["i"]), c["e"])
    need(c20.diff(s0, c20.snap(gn)) is None, "generator changed")
    B0, B1 = gm.model()[0], np.asarray(v.generator.voxel.bases, float)
    R = B1 @ np.linalg.inv(B0)
    need(np.allclose(R @ R.T, np.eye(3), atol=1e-7) and np.linalg.det(R) > 0, "crystal is not rotated properly")
    n = g.unit(np.linalg.solve(B1.T, np.array(c["i"], float)))
    need(np.allclose(n, [0, 0, -1], atol=1e-6), "interface %s of the crystal faces %s", c["i"], n.tolist())
    gm.B, gm.o = R @ gm.B, R @ gm.o
    N, e, names = halfspaces(gm.model()[0], al)
    N, e = np.vstack([N, [[0, 0, -1.0]]]), np.append(e, c["e"])
    center = np.array([0, 0, max(0.0, -c["e"]) + 0.5 * (e[:-1].min() - max(0.0, -c["e"]))]) if c["e"] < 0 else np.zeros(3)
    V, vol = poly(N, e, center)
    if c["e"] > 0:
        s = (c["n"] * abs(np.linalg.det(gm.model()[0])) / len(sp["b"]) / vol)**(1 / 3)
    else:
        z = [p.point @ p.normal for p in v.alg_objects if p.normal[2] < -1 + 1e-9]
        need(len(z) >= 1, "no plane for the interface")
        s = min(z) / c["e"]
        need(0.3 < s / (c["n"] * abs(np.linalg.det(gm.model()[0])) / len(sp["b"]) / vol)**(1 / 3) < 3, "size is far off")
    d, V = e * s, V * s
    o = np.array([0, 0, 0.0]) if c["e"] > 0 else center * s
    # query around an interior point
    rng = np.random.default_rng(3)
    tri = V[ConvexHull(V).simplices]
    surf = np.vstack([V, tri.mean(1), (tri[:, 0] + tri[:, 1]) / 2])
    q = np.vstack([o + (surf - o) * k for k in (0.5, 0.98, 0.999, 1.001, 1.02, 1.5)] + [rng.uniform(-1.2, 1.2, (80, 3)) * np.abs(V).max(0)])
    m = (d - q @ N.T).min(1)
    sure = np.abs(m) > 1e-5 * (1 + np.abs(d).max())
    got = g.as_bool(v.checkIfInterior(q), len(q))
    bad = np.flatnonzero(sure & (got != (m > 0)))
    need(len(bad) == 0, "point %s at %.5g from the nearest facet is reported %s", q[bad[0]].tolist() if len(bad) else 0, m[bad[0]] if len(bad) else 0, "inside" if len(bad) and got[bad[0]] else "outside")
    atoms(v, gm, N, d, "Winterbottom particle")
    ctx.label("energy" + ("+" if c["e"] > 0 else "-"), "along z" if c["i"][0] == c["i"][1] == 0 else "oblique")
    ctx.hit()


PARTS = [Part("wulff", case, run, quick=500, thorough=8000, shards=8), Part("named", ncase, run_named, quick=150, thorough=2000), Part("winterbottom", wcase, run_winter, quick=200, thorough=3000)]
