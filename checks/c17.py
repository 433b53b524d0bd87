import numpy as np
from hypothesis import strategies as st
from pbt import Part, need
import geom as g, objs
from objs import GM

ID = "C17"
RULE = ("A case is a homogeneous strain (3, 6 or 9 values, 3x3 arrays) or one of a family of user functions with parameters, a mode and an origin, applied to points directly and through a generator "
        "that is transformed, scaled or moved before and after, or through a filled volume. Compared with an affine / functional model. Non-trivial: the strain is not the identity and acts on some atom.")

# ---------------------------------------------------------------- user functions
def f_shear(x, a=0.1, **kw):
    return x + a * np.stack([x[:, 1], np.zeros(len(x)), np.zeros(len(x))], axis=1)
def f_wave(x, a=0.1, **kw):
    return x + a * np.sin(x[:, [1, 2, 0]])
def f_quad(x, a=0.1, **kw):
    return x * (1 + a * 0.01 * x)
def f_inplace(x, a=0.1, **kw):
    x[:, 2] *= 1 + a
    return x
def f_const(x, a=0.1, **kw):
    return x + np.array([a, -a, 2 * a])
FUN = dict(shear=f_shear, wave=f_wave, quad=f_quad, inplace=f_inplace, const=f_const)

fun = st.tuples(st.sampled_from(sorted(FUN)), g.pick(st.none(), g.num(-0.2, 0.2)), st.sampled_from(["crystal", "standard"]), g.pick(st.just("generator"), g.vec(-6, 6))).map(
    lambda t: dict(fun=t[0], a=t[1], mode=t[2], origin=t[3]))
strain = g.pick(objs.hstrain(), objs.hstrain(), fun, st.tuples(st.sampled_from(["crystal", "standard"]), g.pick(st.just("generator"), g.vec(-6, 6)), st.booleans()).map(
    lambda t: dict(ident=t[2], mode=t[0], origin=t[1])))


def build(s):
    from czone.transform.strain import HStrain, IStrain
    if "n" in s:
        return objs.build_strain(s)
    o = s["origin"] if s["origin"] == "generator" else np.array(s["origin"], float)
    if "fun" in s:
        kw = {} if s["a"] is None else dict(a=s["a"])
        return IStrain(fun=FUN[s["fun"]], origin=o, mode=s["mode"], **kw)
    return HStrain(origin=o, mode=s["mode"]) if s["ident"] else IStrain(origin=o, mode=s["mode"])


def model(s, pts, m):
    """Strained positions of points for a crystal (basis, origin, ...)."""
    B = m[0]
    o = m[1] if s["origin"] == "generator" else np.array(s["origin"], float)
    x = np.array(pts, float) - o
    if "ident" in s:
        return x + o
    if s["mode"] == "crystal":
        x = np.linalg.solve(B, x.T).T
    if "fun" in s:
        x = FUN[s["fun"]](x, **({} if s["a"] is None else dict(a=s["a"])))
    else:
        M = objs.strain_matrix(s)
        x = np.array([[sum(r[k] * M[k, j] for k in range(3)) for j in range(3)] for r in x]).reshape(-1, 3)
    if s["mode"] == "crystal":
        x = x @ B.T
    return x + o


pts = st.lists(g.vec(-9, 9), min_size=0, max_size=6)
dcase = st.fixed_dictionaries(dict(s=strain, g=g.crystal(2), late=st.lists(objs.flag(g.isometry(1)), max_size=2), p=pts, more=g.more()))


def trivial(s):
    return "ident" in s or ("n" in s and np.allclose(objs.strain_matrix(s), np.eye(3)))


def run_direct(c, ctx):
    s = c["s"]
    gen, gm = g.build_gen(c["g"]), GM(c["g"])
    f = build(s)
    if "n" in s:
        need(np.allclose(np.asarray(f.matrix, float), objs.strain_matrix(s), atol=1e-12), "matrix %s for values %s", np.asarray(f.matrix).tolist(), s["v"])
    need(f.mode == s["mode"], "mode is %s", f.mode)
    P = g.extend(np.array(c["p"], float).reshape(-1, 3), c["more"], 9)
    for i in range(len(c["late"]) + 1):
        f.scrape_params(gen)
        m = gm.model()
        need(np.allclose(np.asarray(f.origin, float), m[1] if s["origin"] == "generator" else s["origin"], atol=1e-8), "strain origin %s", np.asarray(f.origin).tolist())
        P0 = P.copy()
        got = np.asarray(f.apply_strain(P), float)
        need(np.array_equal(P, P0), "points modified")
        want = model(s, P, m)
        sc = (1 + np.abs(P).max(initial=0) + np.abs(m[1]).max()) * 1e-7
        need(got.shape == want.shape and (np.abs(got - want) <= sc).all(), "strained points %s, expected %s", got.tolist()[:3], want.tolist()[:3])
        if i < len(c["late"]):
            gen.transform(g.build_t(c["late"][i]))
            gm.apply(c["late"][i])
    ctx.label(s.get("fun", "h%s" % s.get("n", "ident")), s["mode"], "own origin" if s["origin"] != "generator" else "generator origin")
    ctx.hit(len(P) > 0 and not trivial(s))


op = g.pick(objs.flag(g.isometry(1)).map(lambda t: ["transform", t]), g.vec(-9, 9).map(lambda v: ["origin", v]), st.sampled_from([1.0, 1.2, [1.2, 1.0, 0.9]]).map(lambda s: ["scale", s]), strain.map(lambda s: ["strain", s]), st.just(["copy"]))
region = st.tuples(g.vec(-8, 8), g.vec(1, 9)).map(lambda t: [[t[0][0] + i * t[1][0], t[0][1] + j * t[1][1], t[0][2] + k * t[1][2]] for i in (0, 1) for j in (0, 1) for k in (0, 1)])
gcase = st.fixed_dictionaries(dict(s=strain, g=g.crystal(3), ops=st.lists(op, max_size=3), r=region, ctor=st.booleans()))


def run_gen(c, ctx):
    s = c["s"]
    gm = GM(c["g"])
    # the same generator with and without strain
    plain, gen = g.build_gen(c["g"]), g.build_gen(c["g"])
    if c["ctor"] and not c["g"]["tr"] and c["g"]["sc"] is None:
        from czone.generator import Generator
        kw = {} if c["g"]["o"] is None else dict(origin=np.array(c["g"]["o"], float))
        gen = Generator.from_unit_cell([x[0] for x in c["g"]["b"]], np.array([x[1] for x in c["g"]["b"]]), c["g"]["lat"][:3], c["g"]["lat"][3:], strain_field=build(s), **kw)
    else:
        gen.strain_field = build(s)
    R = np.array(c["r"], float)

    def check(what):
        m = gm.model()
        fr = np.linalg.solve(m[0], (R - m[1]).T).T
        if np.prod(np.ptp(fr, axis=0) + 3) * len(m[3]) > 6000:
            ctx.label("too large")
            return
        a, sa = plain.supply_atoms(R)
        b, sb = gen.supply_atoms(R)
        a, b = g.as_pts(a), g.as_pts(b, what="strained atoms")
        need(len(a) == len(b), "%s: %d strained atoms for %d sites", what, len(b), len(a))
        w = model(s, a, m)
        tol = 1e-6 * (1 + np.abs(w).max(initial=0) + np.abs(m[1]).max())
        need(np.array_equal(np.asarray(sa), np.asarray(sb)) and np.abs(b - w).max(initial=0) <= tol or _match(b, sb, w, sa, tol), "%s: strained atoms are not the images of the unstrained", what)
        for n in ("origin",):
            g.close(gen.origin, m[1], 1e-8, "generator origin")
        g.close(gen.voxel.sbases, m[0], 1e-8, "generator basis")
        b2, sb2 = gen.supply_atoms(R)
        need(np.array_equal(b, b2) and np.array_equal(sb, sb2), "%s: supplying again gives other atoms", what)
        ctx.hit(len(a) > 0 and not trivial(s))
    check("initially")
    for o in c["ops"]:
        k = o[0]
        if k == "transform":
            for x in (plain, gen):
                x.transform(g.build_t(o[1]))
            gm.apply(o[1])
        elif k == "origin":
            for x in (plain, gen):
                x.origin = np.array(o[1])
            gm.o = np.array(o[1])
        elif k == "scale":
            for x in (plain, gen):
                x.voxel.scale = np.array(o[1])
            gm.sc = np.array(o[1])
        elif k == "strain":
            s = o[1]
            gen.strain_field = build(s)
        else:
            gen = gen.from_generator()
        ctx.label(k)
        check("after " + k)


def _match(b, sb, w, sa, tol):
    g.match(b, np.asarray(sb, float), w, np.asarray(sa, float), tol, "strained atoms")
    return True


vcase = st.fixed_dictionaries(dict(s=strain, g=g.crystal(2), v=g.vol(), t=g.pick(st.none(), objs.flag(g.isometry(0)))))


def run_vol(c, ctx):
    s, v, gm = c["s"], c["v"], GM(c["g"])
    gen = g.build_gen(c["g"])
    gen.strain_field = build(s)
    ob = g.build_vol(v, generator=gen)
    if c["t"] is not None:
        ob.transform(g.build_t(c["t"]))
        v = g.vol_transform(v, *g.affine(c["t"]))
        if objs.locked(c["t"]):
            gm.apply(c["t"])
    m = gm.model()
    ctr, half = g.vol_center_size(v)
    if np.prod(np.abs(np.linalg.inv(m[0])) @ (2 * half) + 3) * len(m[3]) > 30000:
        ctx.label("too large")
        return
    ob.populate_atoms()
    a, sp = g.atoms_of(ob)
    cs, ss = g.sites(m, np.asarray(ob.get_bounding_box(), float), pad=1e-3)
    w = model(s, cs, m)
    sc = 2e-6 * (1 + np.abs(w).max(initial=0) / 10 + np.abs(m[1]).max() / 10)
    mg = g.vol_margin(v, w) if len(w) else np.zeros(0)
    hull = g.hull_margin(np.asarray(ob.get_bounding_box(), float), cs) if len(cs) else np.zeros(0)
    must = (mg > sc) & (hull > sc)
    g.contains(w[must], ss[must], a, sp, 10 * sc, "strained image of a site of the region, inside the volume, missing:")
    if len(a):
        need(np.all(g.vol_margin(v, a) > -sc), "atom outside the volume")
        # every atom is the strained image of some site
        box = np.asarray(ob.get_bounding_box(), float)
        fr = np.linalg.solve(m[0], (box - m[1]).T).T
        lo, hi = fr.min(0) - 2, fr.max(0) + 2
        par = np.array([[(lo, hi)[i][0], (lo, hi)[j][1], (lo, hi)[k][2]] for i in (0, 1) for j in (0, 1) for k in (0, 1)]) @ m[0].T + m[1]
        cs2, ss2 = g.sites(m, par)
        if len(cs2) < 200000:
            g.contains(a, sp, model(s, cs2, m) if len(cs2) < 3000 or "n" not in s else _fast(s, cs2, m), ss2, 20 * sc, "atom that is not the strained image of a site:")
    ctx.hit(must.any() and not trivial(s))


def _fast(s, x, m):
    A, b = objs.strain_affine(s, m)
    return x @ A.T + b


PARTS = [Part("direct", dcase, run_direct, quick=1500, thorough=20000), Part("generator", gcase, run_gen, quick=900, thorough=14000, shards=8), Part("volume", vcase, run_vol, quick=400, thorough=6000, shards=8)]
