import numpy as np
from hypothesis import strategies as st
from pbt import Part, need
import geom as g, objs
from objs import GM

ID = "C16"
RULE = ("A case is a crystal generator (any lattice system, placement, scale, optional homogeneous strain), Miller indices, a mode and a point: anywhere, on a plane of the family, or a given fraction between "
        "two of them. The plane returned is compared with reciprocal-lattice arithmetic. Non-trivial: the point is not on a plane of the family.")

hkl = st.lists(st.integers(-4, 4), min_size=3, max_size=3).filter(any)
point = g.pick(st.tuples(st.just("free"), g.shift_vec(60)), st.tuples(st.just("index"), st.integers(-9, 9), st.sampled_from([0.0, 0.5, 0.49, 0.51, 0.1, 0.9, 0.001]), g.vec(-6, 6)))
case = st.fixed_dictionaries(dict(g=g.crystal(2), late=st.lists(objs.flag(g.isometry(1)), max_size=2), h=hkl, mode=st.sampled_from(["nearest", "floor", "ceil", None]), p=point,
                                  strain=g.pick(st.none(), st.none(), objs.hstrain()), form=st.sampled_from(["tuple", "list", "array"])))


def run(c, ctx):
    from czone.volume import snap_plane_near_point
    gen, gm = g.build_gen(c["g"]), GM(c["g"])
    if c["strain"] is not None:
        gen.strain_field = objs.build_strain(c["strain"])
    for t in c["late"]:
        gen.transform(g.build_t(t))
        gm.apply(t)
    B, o, f, Z = gm.model()
    if c["strain"] is not None:
        A, b = objs.strain_affine(c["strain"], gm.model())
        B, o = A @ B, A @ o + b
        ctx.label("strained:" + c["strain"]["mode"])
    h = np.array(c["h"])
    R = np.linalg.inv(B).T @ h
    if c["p"][0] == "free":
        p = np.array(c["p"][1])
    else:
        w = np.array(c["p"][3])
        w = w - (w @ R) * R / (R @ R)
        p = o + (c["p"][1] + c["p"][2]) * R / (R @ R) + w
    idx = float(R @ (p - o))
    before = (gen.origin.copy(), gen.voxel.sbases.copy())
    arg = p.copy()
    mil = tuple(c["h"]) if c["form"] == "tuple" else list(c["h"]) if c["form"] == "list" else h.copy()
    kw = {} if c["mode"] is None else dict(mode=c["mode"])
    pl = snap_plane_near_point(arg, gen, mil, **kw)
    need(np.array_equal(arg, p), "point modified")
    need(c["form"] == "tuple" or list(mil) == list(c["h"]), "Miller indices modified")
    need(np.array_equal(before[0], gen.origin) and np.array_equal(before[1], gen.voxel.sbases), "generator modified")
    n = np.asarray(pl.normal, float).reshape(3)
    need(np.abs(n - R / np.linalg.norm(R)).max() < 1e-7, "normal %s, expected %s", n.tolist(), (R / np.linalg.norm(R)).tolist())
    k = float(R @ (np.asarray(pl.point, float).reshape(3) - o))
    eps = 1e-6 * (1 + abs(idx))
    need(abs(k - round(k)) < eps, "plane at index %.8g, not an integer", k)
    k = round(k)
    mode = c["mode"] or "nearest"
    near = abs(idx - round(idx)) < eps
    if mode == "nearest":
        ok = abs(k - idx) <= 0.5 + eps
    elif near:  # on a plane up to rounding: that plane, or the next one by rounding
        s = np.sign(idx) if round(idx) else 0
        ok = k in (round(idx), round(idx) + (s if mode == "ceil" else -s)) or round(idx) == 0 and mode == "ceil" and abs(k) <= 1
    elif mode == "floor":
        ok = k == np.fix(idx)
    else:
        ok = k == np.sign(idx) * np.ceil(abs(idx))
    need(ok, "mode %s: point at index %.8g snapped to plane %d", mode, idx, k)
    # the plane is the geometric one: distances of both descriptions agree
    d = (idx - k) / np.linalg.norm(R)
    need(abs(float(np.asarray(pl.sdist_from_plane(p.reshape(1, 3))).ravel()[0]) - d) < 1e-6 * (1 + abs(d) + np.abs(p).max()), "distance of the point to the plane is not %g", d)
    ctx.label(mode, "negative index" if idx < 0 else "positive index")
    ctx.hit(not near)


# ------------------------------------------------------------ the rounding helper
numb = g.pick(st.integers(-60, 60).map(float), st.tuples(st.integers(-60, 60), st.sampled_from([0.5, 1e-9, -1e-9, 1e-3, -1e-3])).map(sum), g.num(-100, 100), g.num(-1, 1, 9), st.floats(-1e9, 1e9), st.integers(-10**9, 10**9).map(float))
rcase = st.fixed_dictionaries(dict(x=st.lists(numb, min_size=1, max_size=9), form=st.sampled_from(["float", "array", "matrix", "np"])))


def away(x):
    k = int(x)  # towards zero
    return float(k if k == x else k + (1 if x > 0 else -1))


def run_round(c, ctx):
    from czone.util.misc import round_away
    e = np.array([away(x) for x in c["x"]])
    if c["form"] in ("float", "np"):
        got = np.array([float(round_away(x if c["form"] == "float" else np.float64(x))) for x in c["x"]])
    else:
        a = np.array(c["x"]) if c["form"] == "array" else np.array([c["x"], c["x"]]).T
        a0 = a.copy()
        got = np.asarray(round_away(a))
        need(np.array_equal(a, a0), "numbers modified")
        need(got.shape == a.shape, "shape %s instead of %s", got.shape, a.shape)
        if got.ndim == 2:
            need(np.array_equal(got[:, 0], got[:, 1]), "equal numbers rounded differently")
            got = got[:, 0]
    bad = np.flatnonzero(got != e)
    need(len(bad) == 0, "%r rounded to %r, expected %r", *((c["x"][bad[0]], got[bad[0]], e[bad[0]]) if len(bad) else (0, 0, 0)))
    ctx.label(c["form"], "integer" if np.any(e == c["x"]) else "fractions")
    ctx.hit(np.any(e != c["x"]))


PARTS = [Part("snap", case, run, quick=2500, thorough=40000), Part("rounding", rcase, run_round, quick=1000, thorough=20000, shards=1)]
