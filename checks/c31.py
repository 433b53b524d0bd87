import os, itertools
import numpy as np
from hypothesis import strategies as st
from pbt import Part, need, fail
import c20, objs
import geom as g

os.environ["MPLBACKEND"] = "Agg"

ID = "C31"
RULE = ("A case is a populated scene (volumes, multi-volumes, molecules, optional bounds) or a bare array of positions and a camera direction. Every panel of the figure is read back: points drawn, grouping by species, axis limits, and where "
        "the camera sends displacements along x, y and z. Non-trivial: at least two species or ten atoms.")
ASSUMPTIONS = ["Figures are read through matplotlib's 3D artists (scatter collections and lines).", "The interactive notebook widgets are not driven."]

few = st.sampled_from([0, 0, 1, 2, -1])
small = g.pick(st.tuples(g.vec(2, 6), g.vec(-4, 4)).map(lambda t: dict(pts=[[float(c + s * h / 2) for c, s, h in zip(t[1], k, t[0])] for k in itertools.product((-1, 1), repeat=3)], alg=[])),
               st.tuples(g.num(2, 4), g.vec(-4, 4)).map(lambda t: dict(pts=None, alg=[dict(k="sphere", c=t[1], r=t[0], tol=None)])))
bounds = st.tuples(g.pick(g.vec(-20, 5), g.vec(-20, 5), g.vec(-20, 5), g.vec(-5000, 5000)), g.pick(g.vec(3, 40), g.vec(3, 40), g.vec(3, 40), g.vec(3, 8000))).map(lambda t: [t[0], [float(a + b) for a, b in zip(*t)]])
case = st.fixed_dictionaries(dict(what=st.sampled_from(["scene", "scene", "rotate", "array"]), obs=st.lists(g.pick(*[objs.leaf(few, small), objs.tree(few, 1, small), objs.mol(few)] * 5, objs.big_mol(few)), min_size=1, max_size=3),
                                  b=g.pick(st.none(), bounds), pts=st.lists(g.vec(-9, 9), min_size=1, max_size=20), more=g.more(),
                                  cam=g.pick(st.none(), st.tuples(g.num(-180, 180), g.num(-90, 90)))))


def drawn(ax):
    """Points of every artist of a panel."""
    out = []
    for a in ax.collections:
        if hasattr(a, "_offsets3d"):
            out.append(np.array([np.ma.filled(np.ma.asarray(x, float), np.nan) for x in a._offsets3d], float).T.reshape(-1, 3))
    for a in ax.lines:
        if hasattr(a, "get_data_3d") and a.get_marker() not in ("None", "", None):
            out.append(np.array(a.get_data_3d(), float).T.reshape(-1, 3))
    return [x for x in out if len(x)]


def screen(ax):
    """How displacements along the axes appear: 3x2 array of screen directions, at the centre of the limits."""
    M = ax.get_proj()
    lim = np.array([ax.get_xlim(), ax.get_ylim(), ax.get_zlim()])
    c, h = lim.mean(1), np.ptp(lim, axis=1) / 50

    def at(p):
        v = M @ np.append(p, 1)
        return v[:2] / v[3]
    return np.array([at(c + h[i] * np.eye(3)[i]) - at(c - h[i] * np.eye(3)[i]) for i in range(3)])


def same(a, b):
    k = lambda x: np.array(sorted(map(tuple, np.round(x, 9))))
    return a.shape == b.shape and np.allclose(k(a), k(b), atol=1e-7)


def run(c, ctx):
    import matplotlib.pyplot as plt
    from czone.scene import Scene
    from czone.viz import viz
    plt.close("all")
    ctx.label(c["what"])
    kw = {} if c["cam"] is None else dict(azim=c["cam"][0], elev=c["cam"][1])
    try:
        if c["what"] == "array":
            P = g.extend(np.array(c["pts"]), dict(c["more"], n=min(c["more"]["n"], 5000)), 9)
            P0 = P.copy()
            S = None
            viz.simple_view_with_rotate(P, **kw)
            need(np.array_equal(P, P0), "positions modified")
        else:
            try:
                kids = [objs.Ob(s) for s in c["obs"]]
                for k in kids:
                    k.expected()
            except objs.TooLarge:
                return
            sc = Scene(objects=[k.ob for k in kids], **({} if c["b"] is None else dict(bounds=np.array(c["b"]))))
            sc.populate()
            P, S = np.array(sc.all_atoms), np.array(sc.all_species)
            if not 0 < len(P) < 9000:
                return
            now = lambda: ([c20.snap(k.ob) for k in kids], np.array(sc.bounds).tolist(), np.array(sc.all_atoms).tolist(), [id(x) for x in sc.objects])
            s0 = now()
            (viz.simple_scene_view if c["what"] == "scene" else viz.simple_scene_view_with_rotate)(sc, **kw)
            s1 = now()
            need(s0[1:] == s1[1:] and not any(c20.diff(a, b) for a, b in zip(s0[0], s1[0])), "scene changed by viewing it")
        fig = plt.gcf()
        axes = [a for a in fig.axes if hasattr(a, "get_proj")]
        need(len(axes) == 4, "%d three-dimensional panels", len(axes))
        seen = []
        for a in axes:
            parts = drawn(a)
            t = a.get_title()
            need(same(np.vstack(parts + [np.zeros((0, 3))]), P), "panel %r shows %d points, not the %d atoms", t, sum(map(len, parts)), len(P))
            if S is not None:
                where = {tuple(x): set() for x in np.round(P, 9)}
                for x, z in zip(np.round(P, 9), S):
                    where[tuple(x)].add(z)
                for x in parts:
                    zs = [where[tuple(y)] for y in np.round(x, 9)]
                    need(len(set.union(*zs)) == 1 or set.intersection(*zs), "panel %r draws atoms of species %s alike", t, sorted(set.union(*zs)))
                lim = np.array([a.get_xlim(), a.get_ylim(), a.get_zlim()]).T
                need(np.allclose(lim, np.asarray(sc.bounds, float), atol=1e-9), "limits of panel %r are %s, bounds %s", t, lim.tolist(), np.asarray(sc.bounds).tolist())
            if t.endswith("projection"):
                h, v = "XYZ".index(t[0]), "XYZ".index(t[1])
                d = 3 - h - v
                s = screen(a)
                s /= np.abs(s).max()
                need(s[h, 0] > 0.1 and abs(s[h, 1]) < 1e-6 and s[v, 1] > 0.1 and abs(s[v, 0]) < 1e-6 and np.abs(s[d]).max() < 0.02,
                     "panel %r: x, y, z appear along %s", t, s.tolist())
                seen.append(t[:2])
            else:
                want = (-60.0, 30.0) if c["cam"] is None else c["cam"]
                need((a.azim - want[0]) % 360 in (0, 360) and abs(a.elev - want[1]) < 1e-9 or abs((a.azim - want[0] + 180) % 360 - 180) < 1e-9 and abs(a.elev - want[1]) < 1e-9,
                     "free panel seen from azimuth %s, elevation %s instead of %s", a.azim, a.elev, want)
        need(sorted(seen) == ["XY", "XZ", "YZ"], "projections shown: %s", seen)
        if S is not None:
            ctx.label("bounds" if c["b"] else "default bounds", "%d species" % min(4, len(set(S))))
        for bad in ("scene", None, P):
            for f in (viz.simple_scene_view, viz.simple_scene_view_with_rotate):
                try:
                    f(bad)
                except TypeError:
                    pass
                else:
                    fail("%s shows a %s as a scene", f.__name__, type(bad).__name__)
        ctx.hit(len(P) >= 10 or S is not None and len(set(S)) > 1)
    finally:
        plt.close("all")


PARTS = [Part("views", case, run, quick=200, thorough=3000, shards=8)]
