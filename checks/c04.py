import itertools
import numpy as np
from hypothesis import strategies as st
from scipy.spatial import ConvexHull, cKDTree
from pbt import Part, need
import geom as g

ID = "C04"
RULE = ("Parts: bounded volumes of every kind, checking interior cloud points and points just inside every surface against the hull of the reported region; "
        "plane sets with known status (bounded: brute-force triple-intersection vertices; infeasible; unbounded by construction), anywhere in space; "
        "convex hulls turned into planes; rectangular prisms. Non-trivial: interior points exist / at least 7 planes or a cut / status as constructed.")

# ------------------------------------------------------------------ volumes
big = st.fixed_dictionaries(dict(n=st.sampled_from([60, 200, 60, 200, 60, 200, 2500]), off=g.vec(0, 1)))
vcase = st.fixed_dictionaries(dict(v=g.vol(), cl=big, ts=st.lists(g.vec(0, 1), min_size=2, max_size=8), sh=g.pick(st.none(), g.vec(-60, 60)), rot=g.pick(st.none(), st.tuples(g.direction(), g.angle()))))


def run_vol(c, ctx):
    v = c["v"]
    A = np.eye(3) if c["rot"] is None else g.rodrigues(*c["rot"])
    b = np.zeros(3) if c["sh"] is None else np.array(c["sh"])
    v = g.vol_transform(v, A, b)
    ob = g.build_vol(v)
    if not v["pts"] and not any(s["k"] in ("sphere", "cyl") for s in v["alg"]):
        if len(g.polytope_vertices(v["alg"])) == 0:
            return
    bb = g.as_pts(ob.get_bounding_box(), what="bounding region")
    need(np.all(np.isfinite(bb)), "bounding region has non-finite entries")
    ce, h = g.vol_center_size(v)
    q = [g.bulk(c["cl"], ce, h)]
    for s in v["alg"]:
        q += [g.crafted(s, c["ts"], e) for e in (-1e-4, -1e-2)]
        # extreme points of spheres and cylinders along the coordinate axes
        if s["k"] == "sphere":
            q.append(np.asarray(s["c"]) + np.vstack([np.eye(3), -np.eye(3)]) * (s["r"] * 0.9999))
    if v["pts"]:
        p = np.array(v["pts"])
        q.append(p.mean(0) + (p - p.mean(0)) * 0.9999)
    q = np.vstack(q)
    m = g.vol_margin(v, q)
    inside = q[m > 1e-7]
    kinds = "+".join(sorted(set(s["k"] for s in v["alg"]) | ({"pts"} if v["pts"] else set())))
    ctx.label(kinds)
    if len(inside) == 0:
        return
    slack = 2 * max([g.tol_of(s) for s in v["alg"]] or [0]) + 1e-6
    hm = g.hull_margin(bb, inside)
    k = np.argmin(hm)
    need(hm[k] >= -slack, "interior point %s lies %.4g outside the bounding region", inside[k].tolist(), -hm[k])
    ctx.hit(True)

# ------------------------------------------------------------------ plane sets
pcase = st.fixed_dictionaries(dict(pl=g.polytope_planes(), mode=st.sampled_from(["bounded", "bounded", "bounded", "dup", "infeasible", "unbounded", "prism"]),
                                   d=g.direction(False), k=st.integers(0, 50), near=g.pick(st.just([]), st.just([]), st.lists(st.tuples(st.integers(0, 10), st.integers(3, 9), g.vec(-1, 1), st.sampled_from([0.0, 0.0, 1e-3, 0.1])), min_size=1, max_size=6))))


def nearly(pl, near):
    """Nearly redundant planes: copies of planes of the set, tilted by 10^-e and moved outward."""
    out = []
    for i, e, w, s in near:
        p = pl[i % len(pl)]
        n = g.unit(p["n"])
        out.append(dict(p, n=(n + 10.0 ** -e * np.array(w)).tolist(), p=(np.array(p["p"]) + s * n).tolist()))
    return out


def run_planes(c, ctx):
    from czone.volume.algebraic import get_bounding_box
    pl = [dict(p) for p in c["pl"]]
    mode = c["mode"]
    ctx.label(mode, "nearly redundant" if c["near"] else "plain")
    sharp = [dict(p) for p in pl]
    pl += nearly(pl, c["near"])
    if mode == "dup":
        q = dict(pl[c["k"] % len(pl)])
        q["n"] = [3 * x for x in q["n"]]
        pl.insert(c["k"] % 5, q)
    elif mode == "infeasible":
        vs = g.polytope_vertices(sharp)
        n = g.unit(c["d"])
        lo = np.min(vs @ n)
        pl.insert(c["k"] % (len(pl) + 1), dict(k="plane", n=c["d"], p=(n * (lo - 0.5 - c["k"] / 10)).tolist(), tol=None))
    elif mode == "unbounded":
        # every normal makes an angle of at least 90 degrees with d: moving along d never leaves
        d = g.unit(c["d"])
        keep = [p for p in pl if g.unit(p["n"]) @ d < -1e-6]
        if not keep:
            return
        pl = keep
    elif mode == "prism":
        # normals all perpendicular to one direction
        d = g.unit(c["d"])
        e1 = g.unit(np.cross(d, np.eye(3)[np.argmin(np.abs(d))]))
        e2 = np.cross(d, e1)
        ctr = np.asarray(pl[0]["p"])
        pl = [dict(k="plane", n=(np.cos(t) * e1 + np.sin(t) * e2).tolist(), p=(ctr + (1 + c["k"] / 10) * (np.cos(t) * e1 + np.sin(t) * e2)).tolist(), tol=None)
              for t in 2 * np.pi * np.arange(4 + c["k"] % 3) / (4 + c["k"] % 3)]
    obs = [g.build_surface(p) for p in pl]
    snap = [(np.array(o.normal), np.array(o.point)) for o in obs]
    res = get_bounding_box(obs)
    need(len(res) == 2, "expected vertices and status")
    vs, status = g.as_pts(res[0], what="vertices"), res[1]
    for o, (n, p) in zip(obs, snap):
        need(np.array_equal(o.normal, n) and np.array_equal(o.point, p), "planes were modified")
    if mode == "infeasible":
        need(status == 2 and len(vs) == 0, "infeasible planes: status %s with %d vertices", status, len(vs))
        ctx.hit()
        return
    if mode in ("unbounded", "prism"):
        need(status == 3 and len(vs) == 0, "unbounded planes: status %s with %d vertices", status, len(vs))
        ctx.hit()
        return
    need(status == 0, "bounded planes: status %s", status)
    need(np.all(np.isfinite(vs)), "non-finite vertices")
    if c["near"]:
        # vertices are ill-conditioned: the region must still be the intersection
        N = np.array([g.unit(p["n"]) for p in pl])
        D = np.array([n @ np.asarray(p["p"]) for n, p in zip(N, pl)])
        over = (vs @ N.T - D).max()
        need(over < 1e-6 * (1 + np.abs(vs).max()), "vertex %.3g outside a plane", over)
        q = g.bulk(dict(n=200, off=[0.1, 0.2, 0.3]), (vs.max(0) + vs.min(0)) / 2, np.ptp(vs, axis=0) * 0.6)
        q = q[(q @ N.T - D).max(1) < -1e-3]
        if len(q):
            hm = g.hull_margin(vs, q)
            need(hm.min() > -1e-6, "point %s of the intersection is %.3g outside the vertices", q[hm.argmin()].tolist(), -hm.min())
        ctx.hit(True)
        return
    exp = g.polytope_vertices(pl)
    tol = 1e-5 * (1 + np.abs(exp).max() / 10)
    d, _ = cKDTree(exp).query(vs)
    need(d.max() < tol, "vertex %s is not a vertex of the intersection", vs[d.argmax()].tolist())
    d, _ = cKDTree(vs).query(exp)
    need(d.max() < tol, "vertex %s of the intersection is missing", exp[d.argmax()].tolist())
    ctx.hit(len(pl) > 6)

# ------------------------------------------------------------------ hull to planes
hcase = st.fixed_dictionaries(dict(p=g.hull_points(), cl=big, sh=g.pick(st.none(), g.vec(-60, 60))))


def run_hull(c, ctx):
    from czone.volume.algebraic import convex_hull_to_planes
    from czone.volume import Volume
    p = np.array(c["p"], float)
    if c["sh"] is not None:
        p = p + np.array(c["sh"])
    if not g.good_hull(p) or len(p) != len(np.unique(p, axis=0)):
        return
    p0 = p.copy()
    planes = convex_hull_to_planes(p)
    need(np.array_equal(p, p0), "points were modified")
    ce = p.mean(0)
    q = np.vstack([g.bulk(c["cl"], ce, np.ptp(p, axis=0) * 0.75), ce + (p - ce) * 0.999, ce + (p - ce) * 1.001, [ce]])
    m = g.hull_margin(p, q)
    got = np.ones(len(q), bool)
    for pl in planes:
        got &= g.as_bool(pl.checkIfInterior(q), len(q))
    sure = np.abs(m) > 1e-4
    bad = np.nonzero(sure & (got != (m > 0)))[0]
    need(len(bad) == 0, "point %s (hull margin %.3g): inside planes: %s", q[bad[0]].tolist() if len(bad) else 0, m[bad[0]] if len(bad) else 0, got[bad[0]] if len(bad) else 0)
    # round trip through the bounding region of those planes
    v = Volume(alg_objects=planes)
    bb = g.as_pts(v.get_bounding_box())
    hp = p[ConvexHull(p).vertices]
    d, _ = cKDTree(bb).query(hp)
    need(d.max() < 1e-3, "hull vertex %s lost", hp[d.argmax()].tolist())
    ctx.hit(len(p) > 4)

# ------------------------------------------------------------------ prisms
rcase = st.fixed_dictionaries(dict(d=g.vec(0.01, 40), c=g.pick(st.none(), g.vec(-50, 50)), aslist=st.booleans()))


def run_prism(c, ctx):
    from czone.volume import makeRectPrism
    d = c["d"]
    ctr = None if c["c"] is None else (list(c["c"]) if c["aslist"] else np.array(c["c"]))
    p = g.as_pts(makeRectPrism(*d) if ctr is None else makeRectPrism(*d, center=ctr), 8)
    lo = np.zeros(3) if c["c"] is None else np.array(c["c"]) - np.array(d) / 2
    exp = np.array([[lo[i] + d[i] * b[i] for i in range(3)] for b in itertools.product((0, 1), repeat=3)])
    dist, idx = cKDTree(p).query(exp)
    need(dist.max() < 1e-9 * (1 + np.abs(exp).max()) and len(set(idx)) == 8, "corners %s, expected %s", p.tolist(), exp.tolist())
    ctx.hit(c["c"] is not None)


PARTS = [Part("volumes", vcase, run_vol, quick=1600, thorough=30000), Part("planes", pcase, run_planes, quick=1200, thorough=20000),
         Part("hull_to_planes", hcase, run_hull, quick=800, thorough=12000), Part("prisms", rcase, run_prism, quick=400, thorough=3000, shards=1)]
