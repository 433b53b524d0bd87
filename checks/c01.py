import numpy as np
from hypothesis import strategies as st
from pbt import Part, need, fail
import geom as g

ID = "C01"
RULE = ("A case is a surface (random or crystallographic parameters, tolerance, scale of the direction vector), a query form and points: "
        "a low-discrepancy cloud plus points crafted at stated signed distances from the decision boundary. Non-trivial: at least one "
        "point inside and one outside outside the excluded band.")

EPS = [1e-6, -1e-6, 1e-5, -1e-5, 1e-3, -1e-3, 0.2, -0.2]
FORMS = ["array", "int", "float32", "fortran", "reversed", "single", "empty", "strided"]


def far(s, k):
    """the same surface, moved far from the origin in half of the cases"""
    return s


case = st.fixed_dictionaries(dict(s=g.surface(g.pick(g.vec(-8, 8), g.vec(-8, 8), g.vec(-200, 200))), cl=g.cloud(),
                                  ts=st.lists(g.vec(0, 1), min_size=1, max_size=6), form=st.sampled_from(FORMS),
                                  arg=st.sampled_from(["array", "list", "int", "column"])))


def build(c):
    from czone.volume import Sphere, Plane, Cylinder
    s = c["s"]
    kw = {} if s["tol"] is None else dict(tol=s["tol"])
    conv = {"array": np.array, "list": list, "int": np.array, "column": np.array}[c["arg"]]
    if s["k"] == "sphere":
        return Sphere(s["r"], conv(s["c"]), **kw)
    if s["k"] == "plane":
        n = conv(s["n"])
        if c["arg"] == "column":
            n = n.reshape(3, 1)
        return Plane(n, conv(s["p"]), **kw)
    return Cylinder(conv(s["a"]), conv(s["p"]), s["r"], s["l"], **kw)


def center(s):
    return np.asarray(s.get("c", s.get("p")), float)


def points(c, s):
    bulk = g.bulk(c["cl"], center(s), 12.0)
    cr = [g.crafted(s, c["ts"], e) for e in EPS]
    pts = np.vstack([bulk] + cr)
    if c["form"] == "int":
        pts = np.round(pts).astype(int)
    elif c["form"] == "float32":
        pts = pts.astype(np.float32)
    elif c["form"] == "fortran":
        pts = np.asfortranarray(pts)
    elif c["form"] == "reversed":
        pts = pts[::-1]
    elif c["form"] == "strided":
        pts = np.repeat(pts, 2, axis=0)[::2]
    elif c["form"] == "single":
        pts = pts[:1]
    elif c["form"] == "empty":
        pts = pts[:0]
    return pts


def verify(ob, s, pts, ctx, what):
    before = pts.copy()
    got = g.as_bool(ob.checkIfInterior(pts), len(pts))
    need(np.array_equal(before, pts), "%s: query points were modified", what)
    m = g.surf_margin(s, pts)
    band = 1e-7 * (1 + np.abs(center(s)).max() / 10)
    if pts.dtype == np.float32:
        band = 1e-4 * (1 + np.abs(center(s)).max() / 10)
    sure = np.abs(m) > band
    bad = np.nonzero(sure & (got != (m > 0)))[0]
    need(len(bad) == 0, "%s: %s %s point %s (margin %.3g) reported %s", what, s["k"], s, pts[bad[0]].tolist() if len(bad) else 0,
         m[bad[0]] if len(bad) else 0, got[bad[0]] if len(bad) else 0)
    ctx.hit(bool(np.any(sure & (m > 0)) and np.any(sure & (m < 0))))
    return got, sure


def run(c, ctx):
    s = c["s"]
    ctx.label(s["k"], "form:" + c["form"], "tol" if s["tol"] else "default tol")
    if c["arg"] == "int":
        s = dict(s)
        for k in ("c", "p", "n", "a"):
            if k in s:
                v = [float(round(x)) for x in s[k]]
                s[k] = v if any(v) or k in "cp" else [1.0, 0.0, 0.0]
        c = dict(c, s=dict(s, **{k: [int(x) for x in s[k]] for k in ("c", "p", "n", "a") if k in s}))
    ob = build(c)
    pts = points(c, s)
    verify(ob, s, pts, ctx, "fresh")
    # parameters read back
    need(float(ob.tol) == g.tol_of(s), "tolerance reads back as %r", ob.tol)
    if s["k"] == "sphere":
        g.close(ob.center, s["c"], 1e-12, "center")
        g.close(ob.radius, s["r"], 1e-12, "radius")
        r, cc = ob.params
        g.close(cc, s["c"], 1e-12, "params center")
        g.close(r, s["r"], 1e-12, "params radius")
    elif s["k"] == "plane":
        g.close(ob.normal, g.unit(s["n"]), 1e-12, "normal")
        g.close(ob.point, s["p"], 1e-12, "point")
        n, p = ob.params
        g.close(n, g.unit(s["n"]), 1e-12, "params normal")
        g.close(p, s["p"], 1e-12, "params point")
    else:
        g.close(ob.axis, g.unit(s["a"]), 1e-12, "axis")
        g.close(ob.point, s["p"], 1e-12, "point")
        g.close(ob.radius, s["r"], 1e-12, "radius")
        g.close(ob.length, s["l"], 1e-12, "length")
    # scale of direction vectors is irrelevant; flipping swaps the sides
    if s["k"] == "plane":
        got, sure = verify(ob, s, pts, ctx, "again")
        ob2 = ob.flip_orientation()
        s2 = dict(s, n=[-x for x in s["n"]])
        verify(ob, s2, pts, ctx, "flipped")
        if ob2 is not None:
            verify(ob2, s2, pts, ctx, "returned by flip")
        ob.flip_orientation()
        verify(ob, s, pts, ctx, "flipped twice")


# ------------------------------------------------------------- edits
edit = g.pick(
    st.tuples(st.just("pos"), g.vec(-8, 8)), st.tuples(st.just("dir"), g.direction()),
    st.tuples(st.just("r"), g.num(0.3, 8)), st.tuples(st.just("l"), g.num(0.3, 12)), st.tuples(st.just("tol"), st.sampled_from([1e-5, 1e-3, 0.1, 0.5])),
    st.tuples(st.just("flip"), st.none()))
hist = st.fixed_dictionaries(dict(s=g.surface(), cl=g.cloud(), ts=st.lists(g.vec(0, 1), min_size=1, max_size=4), ed=st.lists(edit, min_size=1, max_size=6)))


def run_hist(c, ctx):
    s = dict(c["s"])
    ob = g.build_surface(s)
    done = 0
    for k, v in c["ed"]:
        if k == "pos":
            if s["k"] == "sphere":
                ob.center = np.array(v)
                s["c"] = v
            else:
                ob.point = np.array(v)
                s["p"] = v
        elif k == "dir" and s["k"] != "sphere":
            if s["k"] == "plane":
                ob.normal = np.array(v)
                s["n"] = v
            else:
                ob.axis = np.array(v)
                s["a"] = v
        elif k == "r" and s["k"] != "plane":
            ob.radius = v
            s["r"] = v
        elif k == "l" and s["k"] == "cyl":
            ob.length = v
            s["l"] = v
        elif k == "tol":
            ob.tol = v
            s["tol"] = v
        elif k == "flip" and s["k"] == "plane":
            ob.flip_orientation()
            s["n"] = [-x for x in s["n"]]
        else:
            continue
        done += 1
        ctx.label("edit:" + k)
        pts = np.vstack([g.bulk(c["cl"], center(s), 12.0)] + [g.crafted(s, c["ts"], e) for e in EPS])
        verify(ob, s, pts, ctx, "after setting " + k)
    ctx.label("edits:%d" % min(done, 4))


PARTS = [Part("membership", case, run, quick=4000, thorough=60000), Part("edits", hist, run_hist, quick=1600, thorough=20000)]
