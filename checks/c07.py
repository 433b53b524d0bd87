import numpy as np
from hypothesis import strategies as st
from pbt import Part, need
import geom as g

ID = "C07"
RULE = ("Parts: axis-angle, vector-to-vector (random, parallel, opposite, nearly so, any length, list or column form), least-squares alignment of vector sets (exactly rotated, and noisy), "
        "zxz Euler angles in both conventions, angles between vectors of 1-6 dimensions, each compared with elementary rotation formulas. Non-trivial: the rotation is not the identity.")

anyv = st.tuples(g.direction(), st.sampled_from([1.0, 1e-3, 1e4])).map(lambda t: [x * t[1] for x in t[0]])


def proper(R, tol=1e-7):
    R = np.asarray(R, float)
    need(R.shape == (3, 3), "matrix shape %s", R.shape)
    need(np.all(np.isfinite(R)), "matrix has non-finite entries")
    need(np.abs(R @ R.T - np.eye(3)).max() < tol and abs(np.linalg.det(R) - 1) < tol, "not a proper rotation: %s", R.tolist())
    return R


def form(v, f):
    return {"array": lambda: np.array(v, float), "list": lambda: list(v), "column": lambda: np.array(v, float).reshape(3, 1), "row": lambda: np.array(v, float).reshape(1, 3)}[f]()


FORMS = ["array", "array", "list", "column", "row"]
vcase = st.fixed_dictionaries(dict(v=anyv, a=g.angle(), b=g.angle(), f=st.sampled_from(FORMS)))


def run_v(c, ctx):
    from czone.transform import rot_v
    arg = form(c["v"], c["f"])
    keep = np.array(arg, copy=True)
    R = proper(rot_v(arg, c["a"]))
    need(np.array_equal(keep, np.array(arg)), "axis modified")
    g.close(R, g.rodrigues(c["v"], c["a"]), 1e-9, "rotation about %s by %s" % (c["v"], c["a"]))
    R2 = proper(rot_v(arg, c["b"]))
    g.close(R2 @ R, proper(rot_v(arg, c["a"] + c["b"])), 1e-9, "sum of angles")
    ctx.hit(np.abs(R - np.eye(3)).max() > 1e-3)


tcase = st.fixed_dictionaries(dict(v=anyv, w=anyv, rel=st.sampled_from(["free", "free", "free", "same", "opposite", "near_same", "near_opposite"]), sc=st.sampled_from([1.0, 2.5, 0.01]),
                                   e=st.sampled_from([1e-3, 1e-5, 1e-7, 1e-9, 1e-12]), fv=st.sampled_from(FORMS), fw=st.sampled_from(FORMS)))


def run_vtv(c, ctx):
    from czone.transform import rot_vtv
    v = np.array(c["v"])
    u = g.unit(v)
    perp = g.unit(np.cross(u, g.unit(c["w"]))) if np.linalg.norm(np.cross(u, g.unit(c["w"]))) > 1e-6 else g.unit(np.cross(u, np.eye(3)[np.argmin(np.abs(u))]))
    w = {"free": np.array(c["w"]), "same": c["sc"] * v, "opposite": -c["sc"] * v, "near_same": c["sc"] * np.linalg.norm(v) * (u + c["e"] * perp),
         "near_opposite": c["sc"] * np.linalg.norm(v) * (-u + c["e"] * perp)}[c["rel"]]
    a1, a2 = form(v.tolist(), c["fv"]), form(w.tolist(), c["fw"])
    k1, k2 = np.array(a1, copy=True), np.array(a2, copy=True)
    R = proper(rot_vtv(a1, a2))
    need(np.array_equal(k1, np.array(a1)) and np.array_equal(k2, np.array(a2)), "vectors modified")
    uw = g.unit(w)
    need(np.abs(R @ u - uw).max() < 1e-6, "maps %s to %s, expected %s", u.tolist(), (R @ u).tolist(), uw.tolist())
    # smallest angle: rotation angle equals the angle between the vectors
    ang = np.arctan2(np.linalg.norm(np.cross(u, uw)), u @ uw)
    got = np.arctan2(np.linalg.norm([R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1]]) / 2, (np.trace(R) - 1) / 2)
    need(abs(ang - got) < 1e-5, "rotates by %.8g although the angle between the vectors is %.8g", got, ang)
    ctx.label(c["rel"])
    ctx.hit(c["rel"] != "same")


acase = st.fixed_dictionaries(dict(v=st.lists(g.direction(False), min_size=2, max_size=6), ax=g.direction(), a=g.angle(), noise=st.sampled_from([0.0, 0.0, 0.0, 0.2]), off=g.vec(0, 1),
                                   d=st.lists(g.vec(-0.3, 0.3), min_size=3, max_size=3)))


def run_align(c, ctx):
    from czone.transform import rot_align
    v = np.array(c["v"])
    s = np.linalg.svd(v, compute_uv=False)
    if s[1] < 0.15 * s[0]:
        ctx.label("degenerate (skipped)")
        return
    R0 = g.rodrigues(c["ax"], c["a"])
    vt = v @ R0.T + c["noise"] * (g.kron(len(v), c["off"]) - 0.5)
    a1, a2 = v.copy(), vt.copy()
    R = proper(rot_align(a1, a2))
    need(np.array_equal(a1, v) and np.array_equal(a2, vt), "vectors modified")
    if c["noise"] == 0.0:
        g.close(R, R0, 1e-5, "alignment of exactly rotated vectors")
    cost = np.sum((vt - v @ R.T) ** 2)
    for d in c["d"]:
        if np.linalg.norm(d) > 1e-3:
            Rp = g.rodrigues(d, np.linalg.norm(d)) @ R
            need(cost <= np.sum((vt - v @ Rp.T) ** 2) + 1e-7, "a nearby rotation aligns better")
    ctx.label("noise" if c["noise"] else "exact")
    ctx.hit(np.abs(R - np.eye(3)).max() > 1e-3)


zcase = st.fixed_dictionaries(dict(e=st.lists(g.angle(), min_size=3, max_size=3), conv=st.sampled_from(["intrinsic", "extrinsic", "default", "bogus"])))


def run_zxz(c, ctx):
    from czone.transform import rot_zxz
    a, b, y = c["e"]
    Rz = lambda t: g.rodrigues([0, 0, 1], t)
    Rx = lambda t: g.rodrigues([1, 0, 0], t)
    if c["conv"] == "bogus":
        try:
            rot_zxz(a, b, y, convention="spiral")
        except ValueError:
            return
        need(False, "unknown convention accepted")
    R = proper(rot_zxz(a, b, y) if c["conv"] == "default" else rot_zxz(a, b, y, convention=c["conv"]))
    if c["conv"] == "extrinsic":
        # fixed axes, gamma about z first, then beta about x, then alpha about z
        exp = Rz(a) @ Rx(b) @ Rz(y)
    else:
        # moving axes: alpha about z, beta about the rotated x, gamma about the rotated z
        R1 = Rz(a)
        x1 = R1 @ np.array([1.0, 0, 0])
        R2 = g.rodrigues(x1, b) @ R1
        z2 = R2 @ np.array([0, 0, 1.0])
        exp = g.rodrigues(z2, y) @ R2
    g.close(R, exp, 1e-9, "zxz %s" % c["conv"])
    ctx.label(c["conv"])
    ctx.hit(np.abs(R - np.eye(3)).max() > 1e-3)


ncase = st.fixed_dictionaries(dict(v=st.lists(g.num(-10, 10), min_size=1, max_size=6), w=st.lists(g.num(-10, 10), min_size=6, max_size=6), rel=st.sampled_from(["free", "same", "opposite", "orthogonal"]),
                                   s=st.sampled_from([1.0, 2.0, 0.37, 1e-3, 1e5, 3.3333333]), form=st.sampled_from(["array", "list", "int"])))


def run_angle(c, ctx):
    from czone.util.misc import vangle
    v, w = np.array(c["v"]), np.array(c["w"])[:len(c["v"])]
    if c["form"] == "int":
        v, w = np.round(v), np.round(w)
    if c["rel"] in ("same", "opposite"):
        w = v * (c["s"] if c["rel"] == "same" else -c["s"])
    elif c["rel"] == "orthogonal" and np.any(v):
        w = w - (w @ v) * v / (v @ v)
    if np.linalg.norm(v) < 1e-2 or np.linalg.norm(w) < 1e-6:
        return
    a, b = (v.tolist(), w.tolist()) if c["form"] == "list" else (v.copy(), w.copy())
    x = float(vangle(a, b))
    need(np.array_equal(a, v) and np.array_equal(b, w), "vectors modified")
    u, t = v / np.linalg.norm(v), w / np.linalg.norm(w)
    e = 2 * np.arctan2(np.linalg.norm(u - t), np.linalg.norm(u + t))
    need(np.isfinite(x) and abs(x - e) < 2e-7, "angle between %s and %s is %s, expected %.9g", v.tolist(), w.tolist(), x, e)
    ctx.label(c["rel"], "dim:%d" % len(v))
    ctx.hit(len(v) > 1)


PARTS = [Part("axis_angle", vcase, run_v, quick=1500, thorough=20000, shards=2), Part("vector_to_vector", tcase, run_vtv, quick=2500, thorough=40000, shards=2),
         Part("align", acase, run_align, quick=1000, thorough=15000, shards=2), Part("angle", ncase, run_angle, quick=1000, thorough=20000, shards=1), Part("zxz", zcase, run_zxz, quick=1000, thorough=15000, shards=2)]
