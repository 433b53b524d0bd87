import numpy as np
from hypothesis import strategies as st
from pbt import Part, need
import geom as g

ID = "C02"
RULE = ("A case is a plane (normal of any length, point anywhere), query points and a query form (Nx3 array, single vector, list, integers, empty). "
        "Non-trivial: some query point is off the plane and the plane does not pass through the coordinate origin.")

case = st.fixed_dictionaries(dict(n=g.direction(), p=g.pick(g.vec(-8, 8), g.vec(-300, 300), g.vec(-8, 8), g.vec(-300, 300), g.vec(-20000, 20000)), pts=st.lists(g.pick(g.vec(-20, 20), g.vec(-500, 500)), min_size=0, max_size=8),
                                  uv=g.vec(-50, 50), more=g.more(), form=st.sampled_from(["array", "array", "single", "int", "list", "row"])))


def run(c, ctx):
    from czone.volume import Plane
    ctx.label("form:" + c["form"])
    n = g.unit(c["n"])
    p = np.array(c["p"])
    P = g.extend(np.array(c["pts"], float).reshape(-1, 3), c["more"], 50)
    q = P
    if c["form"] == "int":
        P = np.round(P)
        q = P.astype(int)
    single = c["form"] == "single"
    if c["form"] == "row":
        P = P[:1]
        q = P
    if single:
        P = P[:1] if len(P) else np.array([c["uv"]])
        q = P[0].copy()
    if c["form"] == "list":
        q = P.tolist() if len(P) else P
    pl = Plane(np.array(c["n"]), p.copy())
    snap = np.array(q, copy=True)
    tol = 1e-10
    exp = (P - p) @ n
    scale = 1 + np.abs(P).max(initial=0) + np.abs(p).max()
    shape = () if single else (len(P),)

    def chk(got, want, what, shp):
        got = np.asarray(got, float)
        if single and got.size == want.size:
            got = got.reshape(want.shape)
        need(got.shape == shp if not single else got.shape == want.shape, "%s has shape %s", what, got.shape)
        need(np.all(np.abs(got - want) <= tol * scale * 10), "%s = %s, expected %s", what, got.tolist(), want.tolist())

    one = (lambda x: x[0]) if single else (lambda x: x)
    chk(pl.sdist_from_plane(q), np.asarray(one(exp)), "signed distance", shape)
    chk(pl.dist_from_plane(q), np.asarray(one(np.abs(exp))), "distance", shape)
    proj = np.asarray(pl.project_point(q), float)
    want = P - exp[:, None] * n
    chk(proj, np.asarray(one(want)), "projection", want.shape)
    need(np.array_equal(snap, np.asarray(q)), "argument modified")
    # laws
    chk(pl.project_point(proj), np.asarray(one(want)), "projection of projection", want.shape)
    # another point of the same plane defines the same plane
    e1 = g.unit(np.cross(n, np.eye(3)[np.argmin(np.abs(n))]))
    e2 = np.cross(n, e1)
    p2 = p + c["uv"][0] * e1 + c["uv"][1] * e2
    pl2 = Plane(-2.5 * np.array(c["n"]), p2)
    chk(pl2.sdist_from_plane(q), np.asarray(one(-exp)), "signed distance to the reversed plane through another point", shape)
    chk(pl2.project_point(q), np.asarray(one(want)), "projection on the reversed plane through another point", want.shape)
    # single points agree with arrays
    for i in range(min(len(P), 3)):
        g.close(np.asarray(pl.sdist_from_plane(P[i])).reshape(()), exp[i], 1e-9 * scale, "signed distance of one point")
        g.close(np.asarray(pl.project_point(P[i])).reshape(3), want[i], 1e-9 * scale, "projection of one point")
    # the two sides of a plane: flipping negates signed distances and keeps the rest
    fl = Plane(np.array(c["n"]), p.copy())
    for k in range(3):
        fl.flip_orientation()
        s = -1 if k % 2 == 0 else 1
        chk(fl.sdist_from_plane(q), np.asarray(one(s * exp)), "signed distance after %d flips" % (k + 1), shape)
        chk(fl.dist_from_plane(q), np.asarray(one(np.abs(exp))), "distance after flips", shape)
        chk(fl.project_point(q), np.asarray(one(want)), "projection after flips", want.shape)
    need(np.array_equal(np.asarray(pl.point), p) and np.allclose(pl.normal, n, atol=1e-12), "plane changed by queries")
    ctx.hit(len(P) > 0 and np.any(np.abs(exp) > 1e-3) and abs(p @ n) > 1e-3)


PARTS = [Part("distances", case, run, quick=4000, thorough=60000)]
