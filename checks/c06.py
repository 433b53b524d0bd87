import numpy as np
from hypothesis import strategies as st
from pbt import Part, need
import geom as g
from c03 import Node, EPS

ID = "C06"
RULE = ("A case is a surface, volume or nested multi-volume, a sequence of transformations applied one after another (or as one nested sequence) and query points of the "
        "original region (cloud plus points near each surface). The transformed region must contain the image of a point exactly when the model of the original contains "
        "the point. Non-trivial: a non-identity map with points on both sides.")

big = st.fixed_dictionaries(dict(n=st.sampled_from([40, 150, 40, 150, 40, 150, 2500]), off=g.vec(0, 1)))
ts = st.lists(g.vec(0, 1), min_size=1, max_size=4)
isoseq = g.pick(*[st.lists(g.flagged(g.isometry(1)), min_size=1, max_size=4)] * 6 + [st.lists(g.flagged(g.isometry(1)), min_size=5, max_size=12)])


def band_of(A, b, q):
    return 1e-6 * (1 + np.abs(A).max()) * (1 + np.abs(q).max(initial=0) / 20 + np.abs(b).max() / 20)

# ------------------------------------------------------------ surfaces
scase = st.fixed_dictionaries(dict(s=g.surface(), seq=isoseq, cl=big, ts=ts, via=st.sampled_from(["apply", "from"])))
gcase = st.fixed_dictionaries(dict(s=g.plane(), seq=st.lists(g.flagged(g.pick(g.matrix_t(), g.isometry(1))), min_size=1, max_size=3), cl=big, ts=ts, via=st.sampled_from(["apply", "from"])))


def check_surf(ob, s, A, b, c, ctx, general=False):
    ctr = np.asarray(s.get("c", s.get("p")))
    q = np.vstack([g.bulk(c["cl"], ctr, 12.0)] + [g.crafted(s, c["ts"], e) for e in EPS])
    img = q @ A.T + b
    # a plane's tolerance is measured after the transformation: for general matrices use a band
    m = g.surf_margin(s, q)
    band = band_of(A, b, q) if not general else 2e-4 + 3 * g.tol_of(s) * (1 + np.linalg.norm(np.linalg.inv(A), 2))
    got = g.as_bool(ob.checkIfInterior(img), len(q))
    sure = np.abs(m) > band
    bad = np.nonzero(sure & (got != (m > 0)))[0]
    need(len(bad) == 0, "image of point %s (margin %.3g) reported %s by transformed %s", q[bad[0]].tolist() if len(bad) else 0, m[bad[0]] if len(bad) else 0,
         got[bad[0]] if len(bad) else 0, s["k"])
    ctx.hit(np.any(sure & (m > 0)) and np.any(sure & (m < 0)))


def run_surf(c, ctx, general=False):
    s = c["s"]
    ctx.label(s["k"], *["t:" + t["t"] for t in c["seq"]])
    ob = g.build_surface(s)
    obs_t = [g.build_t(t) for t in c["seq"]]
    A, b = g.affine(dict(t="S", seq=c["seq"]))
    if c["via"] == "from":
        new = ob.from_alg_object(transformation=obs_t)
        check_surf(ob, s, np.eye(3), np.zeros(3), c, ctx)
        check_surf(ob.from_alg_object(), s, np.eye(3), np.zeros(3), c, ctx)
        ob = new
    else:
        for t in obs_t:
            ob = t.applyTransformation_alg(ob)
    need(float(ob.tol) == g.tol_of(s), "tolerance changed to %r", ob.tol)
    if s["k"] != "plane":
        need(abs(ob.radius - s["r"]) < 1e-12, "radius changed to %r", ob.radius)
    if s["k"] == "cyl":
        need(abs(ob.length - s["l"]) < 1e-12, "length changed to %r", ob.length)
    check_surf(ob, s, A, b, c, ctx, general)


def run_gen(c, ctx):
    run_surf(c, ctx, general=True)

# ------------------------------------------------------------ volumes
leaf = g.vol(need_bounded=False).map(lambda v: dict(v=v))
tree = g.pick(leaf, leaf, st.recursive(leaf, lambda ch: st.lists(ch, min_size=1, max_size=3).map(lambda l: dict(m=l)), max_leaves=3))
vcase = st.fixed_dictionaries(dict(tree=tree, seq=isoseq, cl=big, ts=ts, via=st.sampled_from(["transform", "transform", "from"])))
hull = g.hull_points().map(lambda p: dict(v=dict(pts=p, alg=[])))
hcase = st.fixed_dictionaries(dict(tree=g.pick(hull, st.tuples(g.hull_points(), st.lists(g.plane(g.vec(-3, 3)), max_size=2)).map(lambda t: dict(v=dict(pts=t[0], alg=t[1])))),
                                   seq=st.lists(g.flagged(g.pick(g.matrix_t(), g.isometry(0))), min_size=1, max_size=2), cl=big, ts=ts, via=st.sampled_from(["transform", "from"])))


def qs(c, root):
    q = [g.bulk(c["cl"], (0, 0, 0), 10.0)]
    for l in root.leaves():
        for s in l.alg[:3]:
            q += [g.crafted(s, c["ts"], e) for e in EPS]
        if l.pts is not None:
            ce = l.pts.mean(0)
            q += [ce[None], ce + (l.pts[:4] - ce) * 0.98, ce + (l.pts[:4] - ce) * 1.02]
        elif l.alg:
            q.append(g.bulk(c["cl"], np.asarray(l.alg[0].get("c", l.alg[0].get("p"))), 5.0))
    return np.vstack(q)


def probe(ob, root, q, A, b, general, what, ctx):
    m, d = root.margin(q)
    band = band_of(A, b, q) if not general else 2e-3 + (1e-4 + 3 * root.tol) * (1 + np.linalg.norm(np.linalg.inv(A), 2)) * (1 + np.linalg.norm(A, 2))
    sure = d > band
    got = g.as_bool(ob.checkIfInterior(q @ A.T + b), len(q))
    bad = np.nonzero(sure & (got != (m > 0)))[0]
    need(len(bad) == 0, "%s: image of point %s (margin %.3g) reported %s", what, q[bad[0]].tolist() if len(bad) else 0, m[bad[0]] if len(bad) else 0, got[bad[0]] if len(bad) else 0)
    ctx.hit(np.any(sure & (m > 0)) and np.any(sure & (m < 0)))


def run_vol(c, ctx, general=False):
    root = Node(c["tree"])
    root.tol = max([g.tol_of(s) for l in root.leaves() for s in l.alg] + [0.0])
    ob = root.ob
    ctx.label("multi" if root.kids is not None else "single", c["via"], *["t:" + t["t"] for t in c["seq"]])
    q = qs(c, root)
    ts_ = [g.build_t(t) for t in c["seq"]]
    refs = [(t.applyTransformation(np.eye(3)), t.applyTransformation_bases(np.eye(3))) for t in ts_]
    if c["via"] == "from":
        new = ob.from_volume(transformation=ts_)
        A, b = g.affine(dict(t="S", seq=c["seq"]))
        probe(new, root, q, A, b, general, "copy", ctx)
        probe(ob, root, q, np.eye(3), np.zeros(3), False, "original", ctx)
        probe(ob.from_volume(), root, q, np.eye(3), np.zeros(3), False, "plain copy", ctx)
    else:
        A, b = np.eye(3), np.zeros(3)
        for i, (t, o) in enumerate(zip(c["seq"], ts_)):
            ob.transform(o)
            A2, b2 = g.affine(t)
            A, b = A2 @ A, A2 @ b + b2
            probe(ob, root, q, A, b, general, "after %d transformations" % (i + 1), ctx)
    for t, (r0, r1) in zip(ts_, refs):
        need(np.allclose(t.applyTransformation(np.eye(3)), r0, atol=1e-12) and np.allclose(t.applyTransformation_bases(np.eye(3)), r1, atol=1e-12), "transformation altered")
    # points and surfaces of the transformed object read back transformed
    if c["via"] == "transform" and root.kids is None and root.pts is not None:
        g.close(np.asarray(ob.points, float), root.pts @ A.T + b, 1e-8, "points after transformation")


def run_hull(c, ctx):
    run_vol(c, ctx, general=True)


PARTS = [Part("surfaces", scase, run_surf, quick=2000, thorough=30000), Part("planes_general", gcase, run_gen, quick=600, thorough=8000),
         Part("volumes", vcase, run_vol, quick=1600, thorough=24000, shards=8), Part("hulls_general", hcase, run_hull, quick=600, thorough=8000)]
