import itertools
import numpy as np
from hypothesis import strategies as st
from pbt import Part, need
import geom as g

ID = "C35"
RULE = ("A case is a voxel (any lattice or invertible basis, scale as a number or three numbers in the accepted shapes, origin anywhere) edited by a history of assignments, and boxes (prisms, single points, point clouds, "
        "far away) whose covering block is compared with the fractional coordinates of the box. Non-trivial: a non-orthogonal or scaled basis away from the coordinate origin, or a box crossing several cells.")
ASSUMPTIONS = ["Fractional coordinates within 1e-7 of an integer may be rounded either way.", "Three scale factors belong to the three basis vectors."]

basis = g.pick(g.lattice().map(lambda l: g.lat_matrix(l).tolist()),
               st.tuples(g.lattice(), g.direction(), g.angle(), st.sampled_from([1.0, -1.0])).map(lambda t: (t[3] * g.rodrigues(t[1], t[2]) @ g.lat_matrix(t[0])).tolist()),
               g.matrix_t().map(lambda t: t["m"]), st.just(np.eye(3).tolist()))
scale = st.tuples(g.pick(st.tuples(g.num(0.3, 3)), st.tuples(g.num(0.3, 3), g.num(0.3, 3), g.num(0.3, 3)), st.tuples(st.integers(1, 4))), st.sampled_from(["plain", "array", "row"]))
origin = g.pick(g.vec(-8, 8), g.vec(-8, 8), g.vec(-5000, 5000))
box = g.pick(st.tuples(g.vec(-9, 9), g.vec(0.01, 30)).map(lambda t: [[a + b * k for a, b, k in zip(*t, s)] for s in itertools.product((0, 1), repeat=3)]),
             st.lists(g.vec(-20, 20), min_size=1, max_size=9), g.vec(-20, 20).map(lambda v: [v]),
             st.tuples(g.vec(-4000, 4000), g.vec(0.5, 9)).map(lambda t: [[a + b * k for a, b, k in zip(*t, s)] for s in itertools.product((0, 1), repeat=3)]))
op = g.pick(basis.map(lambda b: ["bases", b]), scale.map(lambda s: ["scale", s]), origin.map(lambda o: ["origin", o]), box.map(lambda b: ["box", b]), box.map(lambda b: ["box", b]))
case = st.fixed_dictionaries(dict(b=basis, s=g.pick(st.none(), scale), o=g.pick(st.none(), origin), late=st.booleans(), ops=st.lists(op, min_size=1, max_size=8), b0=box))


def real_scale(s):
    v, form = s
    if len(v) == 1:
        return v[0] if form == "plain" else np.array(v, float)
    return np.array(v)[None] if form == "row" else np.array(v)


def check(vx, B, s, o, boxes, ctx):
    S = B * (np.ones(3) if s is None else np.array(s[0], float))
    g.close(vx.bases, B, 1e-12 * (1 + np.abs(B).max()), "bases")
    g.close(vx.sbases, S, 1e-11 * (1 + np.abs(S).max()), "scaled bases")
    g.close(np.asarray(vx.origin, float), o, 1e-12 * (1 + np.abs(o).max()), "origin")
    R = np.asarray(vx.reciprocal_bases, float)
    need(R.shape == (3, 3) and np.abs(R @ S - np.eye(3)).max() < 1e-8, "reciprocal basis times scaled basis is %s", (R @ S).tolist())
    for b in boxes:
        P = np.array(b, float)
        arg = P.copy()
        lo, hi = vx.get_extents(arg)
        need(np.array_equal(arg, P), "box modified")
        lo, hi = np.asarray(lo), np.asarray(hi)
        need(lo.shape == (3,) and hi.shape == (3,) and np.issubdtype(lo.dtype, np.integer) and np.issubdtype(hi.dtype, np.integer), "extents are %r, %r", lo, hi)
        F = (P - o) @ np.linalg.inv(S).T
        e = 1e-7 * (1 + np.abs(F).max() / 100)
        a, z = F.min(0), F.max(0)
        need(np.all((lo >= np.floor(a - e)) & (lo <= np.floor(a + e))) and np.all((hi >= np.ceil(z - e)) & (hi <= np.ceil(z + e))),
             "block %s .. %s for fractional extents %s .. %s", lo.tolist(), hi.tolist(), a.tolist(), z.tolist())
        ctx.hit(np.any(hi - lo > 2) or np.abs(o).max() > 0 and (s is not None or np.abs(B - np.diag(np.diag(B))).max() > 1e-6))


def run(c, ctx):
    from czone.volume.voxel import Voxel
    B, s, o = np.array(c["b"], float), c["s"], np.zeros(3) if c["o"] is None else np.array(c["o"], float)
    if c["late"]:
        vx = Voxel()
        vx.bases = B.copy()
        if s is not None:
            vx.scale = real_scale(s)
        if c["o"] is not None:
            vx.origin = o.copy()
    else:
        vx = Voxel(B.copy(), **({} if s is None else dict(scale=real_scale(s))), **({} if c["o"] is None else dict(origin=o.copy())))
    boxes = [c["b0"]]
    check(vx, B, s, o, boxes, ctx)
    for k, a in c["ops"]:
        ctx.label(k)
        if k == "bases":
            B = np.array(a, float)
            vx.bases = B.copy()
        elif k == "scale":
            s = a
            vx.scale = real_scale(s)
        elif k == "origin":
            o = np.array(a, float)
            vx.origin = o.copy()
        else:
            boxes = boxes[-2:] + [a]
        check(vx, B, s, o, boxes, ctx)
    # a fresh voxel is the unit cube at the coordinate origin, whatever happened to others
    check(Voxel(), np.eye(3), None, np.zeros(3), boxes[:1], ctx)


PARTS = [Part("voxels", case, run, quick=2500, thorough=40000)]
