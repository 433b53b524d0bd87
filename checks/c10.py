import numpy as np
from hypothesis import strategies as st
from pbt import Part, need
import geom as g, objs
from objs import Ob, TooLarge

ID = "C10"
RULE = ("A case is a bounded volume (hull, surfaces, planes, mixtures) with a crystal or null generator, and a history of populations, transformations (locked or not), point/surface/generator edits. "
        "After every population the atoms are compared with the sites of an independently enumerated crystal that an independent geometry model puts inside the volume; sites within 2e-6 of the boundary "
        "are free. Non-trivial: some population keeps at least one site and drops at least one nearby.")

op = g.pick(st.just(["populate"]), st.just(["populate"]),
               objs.flag(g.isometry(1)).map(lambda t: ["transform", t]),
               g.plane(g.vec(-3, 3)).map(lambda s: ["alg", s]), g.sphere(g.vec(-3, 3), 7).map(lambda s: ["alg", s]),
               g.hull_points().map(lambda p: ["setpts", p]), g.vec(-8, 8).map(lambda p: ["addpt", p]),
               st.tuples(g.pick(objs.crystal_s(), st.just("null")), g.pick(st.none(), g.vec(-5, 5))).map(lambda t: ["gen", t[0], t[1]]),
               g.vec(-5, 5).map(lambda v: ["origin", v]))
case = st.fixed_dictionaries(dict(o=objs.leaf(), ops=g.pick(*[st.lists(op, max_size=4)] * 5 + [st.lists(op, min_size=5, max_size=12)])))


def pop(o, ctx, what):
    o.ob.populate_atoms()
    exp = objs.verify(o, what)
    a1, s1 = np.array(o.ob.atoms), np.array(o.ob.species)
    o.ob.populate_atoms()
    need(np.array_equal(a1, o.ob.atoms) and np.array_equal(s1, o.ob.species), "%s: populating again gives other atoms", what)
    ase = o.ob.ase_atoms
    need(np.array_equal(ase.get_positions(), a1) and np.array_equal(ase.get_atomic_numbers(), s1.astype(int)), "%s: ase_atoms differs from atoms and species", what)
    if len(a1):
        lo, hi = a1.min(0), a1.max(0)
        cs, _ = g.sites(o.gm.model(), np.array([lo, hi]), pad=1.0)
        ctx.hit(len(cs) > len(a1))
    ctx.label("atoms" if len(a1) else "empty")


def run(c, ctx):
    try:
        o = Ob(c["o"])
        pop(o, ctx, "first population")
        for i, op in enumerate(c["ops"]):
            k = op[0]
            what = "population after %s (step %d)" % (k, i)
            if k == "transform":
                o.ob.transform(g.build_t(op[1]))
                o.apply(op[1])
            elif k == "alg":
                o.ob.add_alg_object(g.build_surface(op[1]))
                o.alg.append(op[1])
                if o.pts is None and all(s["k"] == "plane" for s in o.alg) and not len(g.polytope_vertices(o.alg)):
                    return  # empty region: nothing to populate
            elif k == "setpts":
                o.ob.points = np.array(op[1])
                o.pts = np.array(op[1])
            elif k == "addpt":
                if o.pts is None:
                    continue
                o.ob.addPoints(np.array(op[1]))
                o.pts = np.vstack([o.pts, op[1]])
            elif k == "gen":
                from czone.generator import NullGenerator
                src = NullGenerator() if op[1] == "null" else g.build_gen(op[1])
                o.ob.add_generator(src, None if op[2] is None else np.array(op[2]))
                o.gm = None if op[1] == "null" else objs.GM(op[1])
                if o.gm is not None and op[2] is not None:
                    o.gm.o = np.array(op[2])
            elif k == "origin":
                if o.gm is None:
                    continue
                o.ob.generator.origin = np.array(op[1])
                o.gm.o = np.array(op[1])
            ctx.label(k)
            pop(o, ctx, what)
    except TooLarge:
        ctx.label("too large")


# one large crystal: hundreds of thousands of sites
lcase = st.fixed_dictionaries(dict(n=g.pick(st.integers(20000, 90000), st.integers(90000, 300000)), lat=g.lattice(), z=st.lists(st.integers(1, 94), min_size=1, max_size=3), d=g.direction(), ang=g.angle(), o=g.vec(-40, 40), c=g.vec(-40, 40),
                                   k=st.sampled_from(["box", "sphere", "cut box", "cyl"]), sh=g.vec(0.6, 1.6)))


def run_large(c, ctx):
    from czone.generator import Generator
    B = g.lat_matrix(c["lat"])
    f = np.array([[0.0, 0, 0], [.5, .5, .5], [.25, .75, .5]])[:len(c["z"])]
    side = (c["n"] / len(f) * abs(np.linalg.det(B)))**(1 / 3)
    R = g.rodrigues(c["d"], c["ang"])
    ctr, sh = np.array(c["c"]), np.array(c["sh"])
    h = 0.5 * side * sh / np.prod(sh)**(1 / 3)
    alg, pts = [], None
    if c["k"] == "sphere":
        alg = [dict(k="sphere", r=float(side * 0.6), c=c["c"], tol=None)]
    elif c["k"] == "cyl":
        alg = [dict(k="cyl", a=R[:, 2].tolist(), p=c["c"], r=float(side * 0.5), l=float(side * 1.2), tol=None)]
    else:
        pts = (ctr + (np.array([[i, j, k] for i in (-1, 1) for j in (-1, 1) for k in (-1, 1)]) * h) @ R.T).tolist()
        if c["k"] == "cut box":
            alg = [dict(k="plane", n=c["d"], p=c["c"], tol=None)]
    spec = dict(pts=pts, alg=alg)
    gen = Generator.from_unit_cell(c["z"], f, c["lat"][:3], c["lat"][3:], origin=np.array(c["o"]))
    v = g.build_vol(spec, generator=gen)
    v.populate_atoms()
    x, s = g.as_pts(v.atoms, what="atoms"), np.asarray(v.species)
    need(s.shape == (len(x),), "%s species for %d atoms", s.shape, len(x))
    m = (B, np.array(c["o"]), f, np.array(c["z"], float))
    need((g.on_lattice(m, x, s, tol=1e-5) >= 0).all(), "an atom is not a site of the crystal")
    mg = g.vol_margin(spec, x)
    need((mg > -1e-4).all(), "an atom lies %.3g outside the volume", -mg.min() if len(mg) else 0)
    need(g.unique_pts(x, 1e-3), "a site is present twice")
    lo, hi = g.vol_center_size(spec)[0] - g.vol_center_size(spec)[1], g.vol_center_size(spec)[0] + g.vol_center_size(spec)[1]
    cs, ss = g.sites(m, np.array([lo, hi]))
    ms = g.vol_margin(spec, cs)
    n0, n1 = (ms > 1e-4).sum(), (ms > -1e-4).sum()
    need(n0 <= len(x) <= n1, "%d atoms, %d sites inside", len(x), n0)
    ctx.label(c["k"], "%d0k" % (len(x) // 10000))
    ctx.hit(len(x) > 1000)


PARTS = [Part("populate", case, run, quick=2000, thorough=30000, shards=8), Part("large", lcase, run_large, quick=16, thorough=200, shards=8)]
