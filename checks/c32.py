import itertools
import numpy as np
from hypothesis import strategies as st
from pbt import Part, need
import c20, objs
import geom as g

ID = "C32"
RULE = ("A case is a crystal (any lattice system, placement), a bounded volume, a cutting plane and one or two zone axes. The populated grain boundary is compared atom by atom with the union of the two turned crystals, each cut to its side by an "
        "independent membership model; the source objects must be unchanged. Non-trivial: both grains hold atoms and the two crystals differ.")
ASSUMPTIONS = ["Zone axes antiparallel to z are excluded (the smallest rotation is not unique).", "The phases r1, r2 and planes given by Miller indices are declared but not implemented upstream; they are not part of the property.",
               "Atoms within 2e-6 of a decision boundary may go either way."]

zone = st.lists(st.integers(-3, 3), min_size=3, max_size=3).filter(any)
v_s = g.pick(st.tuples(g.vec(4, 12), g.vec(-5, 5)).map(lambda t: dict(pts=[[float(c + s * h / 2) for c, s, h in zip(t[1], k, t[0])] for k in itertools.product((-1, 1), repeat=3)], alg=[])),
             objs.vols())
case = st.fixed_dictionaries(dict(v=v_s, g=g.crystal(3), z1=zone, z2=g.pick(st.none(), zone, zone), n=g.direction(), off=g.vec(-0.3, 0.3), form=st.sampled_from(["list", "tuple", "array"]),
                                  pr=st.integers(-2, 3), again=st.booleans(), new=zone))


def turn(gm, z):
    """smallest rotation taking the zone axis of the crystal to +z, or None"""
    m = gm.model()
    d = g.unit(m[0] @ np.array(z, float))
    s, c = np.hypot(d[0], d[1]), d[2]
    if c < -0.999999:
        return None
    a = np.cross(d, [0, 0, 1.0])
    return np.eye(3) if s < 1e-12 else g.rodrigues(a, np.arctan2(s, c))


def run(c, ctx):
    from czone.prefab import SimpleGrainBoundary
    vspec = c["v"]
    ctr, half = g.vol_center_size(vspec)
    p = ctr + np.array(c["off"]) * half
    pl = dict(k="plane", n=c["n"], p=p.tolist(), tol=None)
    gen = g.build_gen(c["g"])
    vol = g.build_vol(vspec, priority=c["pr"])
    plane = g.build_surface(pl)
    f = dict(list=list, tuple=tuple, array=np.array)[c["form"]]
    kw = {} if c["z2"] is None else dict(z2=f(c["z2"]))
    s0 = [c20.snap(x) for x in (gen, vol, plane)]
    gb = SimpleGrainBoundary(z1=f(c["z1"]), r1=0.0, plane=plane, volume=vol, generator=gen, **kw)
    z1, z2 = c["z1"], c["z1"] if c["z2"] is None else c["z2"]
    for rnd in range(2 if c["again"] else 1):
        if rnd:
            gb.z2 = f(c["new"])
            z2 = c["new"]
        gm = objs.GM(c["g"])
        R = [turn(gm, z) for z in (z1, z2)]
        if R[0] is None or R[1] is None:
            ctx.label("antiparallel")
            return
        mv = gb.build_object()
        need(not any(c20.diff(a, c20.snap(b)) for a, b in zip(s0, (gen, vol, plane))), "building changed the generator, volume or plane given")
        kids = [objs.Ob(dict(v=dict(vspec, alg=vspec["alg"] + ([pl] if i == 0 else [])), g=c["g"], pr=i), build=False) for i in (0, 1)]
        for k, r in zip(kids, R):
            k.gm.B, k.gm.o = r @ k.gm.B, r @ k.gm.o
        try:
            parts = objs.resolve(kids)
        except objs.TooLarge:
            ctx.label("too large")
            return
        mv.populate_atoms()
        exp = (np.vstack([q[0] for q in parts]), np.hstack([q[1] for q in parts]), np.hstack([q[2] for q in parts]))
        # sites of the two crystals may coincide on the boundary itself only
        objs.compare(mv.atoms, mv.species, exp, "grain boundary")
        for r in (0, 1):
            d = g.unit(kids[r].gm.model()[0] @ np.array((z1, z2)[r], float))
            need(np.allclose(d, [0, 0, 1], atol=1e-9), "model")
        ctx.label("equal axes" if list(z1) == list(z2) else "two axes")
        ctx.hit(all(q[2].sum() > 0 for q in parts) and not np.allclose(R[0], R[1]))


PARTS = [Part("boundary", case, run, quick=700, thorough=10000, shards=8)]
