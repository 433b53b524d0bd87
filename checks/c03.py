import numpy as np
from hypothesis import strategies as st
from pbt import Part, need
import geom as g

ID = "C03"
RULE = ("A case is a tree of volumes and multi-volumes, a sequence of edits (add points, add one point, replace points, add surface, add member, mutate the "
        "caller's surface or points) and query points (cloud over the region plus points near each surface). Membership is compared with an independent "
        "half-space/distance model after every edit. Non-trivial: points both inside and outside, and the volume combines at least two parts.")

EPS = [1e-3, -1e-3, 0.05, -0.05]

vol_s = g.pick(g.vol(), g.vol(need_bounded=False))
tree = st.recursive(vol_s.map(lambda v: dict(v=v)), lambda ch: g.pick(*[st.lists(ch, min_size=0, max_size=3)] * 7 + [st.lists(ch, min_size=4, max_size=8)]).map(lambda l: dict(m=l)), max_leaves=10)
edit = g.pick(
    st.tuples(st.just("addpts"), st.lists(g.vec(-8, 8), min_size=1, max_size=3)),
    st.tuples(st.just("addone"), g.vec(-9, 9)),
    st.tuples(st.just("setpts"), g.hull_points()),
    st.tuples(st.just("alg"), g.surface()),
    st.tuples(st.just("member"), g.vol()),
    st.tuples(st.just("poison"), st.none()))
case = st.fixed_dictionaries(dict(tree=tree, ed=st.lists(st.tuples(st.integers(0, 5), edit), max_size=4), cl=st.fixed_dictionaries(dict(n=st.sampled_from([5, 60, 200, 60, 200, 60, 200, 2500]), off=g.vec(0, 1))), ts=st.lists(g.vec(0, 1), min_size=1, max_size=3),
                                  form=st.sampled_from(["array", "array", "array", "array", "single", "empty", "int"])))


class Node:
    """A real object together with its model."""

    def __init__(self, spec):
        from czone.volume import Volume, MultiVolume
        self.kids = None
        if "m" in spec:
            self.kids = [Node(s) for s in spec["m"]]
            obs = [k.ob for k in self.kids]
            self.ob = MultiVolume(obs) if obs else MultiVolume()
        else:
            v = spec["v"]
            self.pts = None if v["pts"] is None else np.array(v["pts"], float)
            self.alg = [dict(s) for s in v["alg"]]
            self.given = [g.build_surface(s) for s in v["alg"]]
            self.arr = None if self.pts is None else self.pts.copy()
            kw = {}
            if self.arr is not None:
                kw["points"] = self.arr
            if self.given:
                kw["alg_objects"] = self.given
            self.ob = Volume(**kw)

    def margin(self, q):
        """inside margin, and distance to the nearest decision boundary"""
        if self.kids is not None:
            m, b = np.full(len(q), -np.inf), np.full(len(q), np.inf)
            for k in self.kids:
                mk, bk = k.margin(q)
                m, b = np.maximum(m, mk), np.minimum(b, bk)
            return m, b
        m, b = np.full(len(q), np.inf), np.full(len(q), np.inf)
        if self.pts is not None:
            h = g.hull_margin(self.pts, q)
            m, b = np.minimum(m, h), np.minimum(b, np.abs(h))
        for s in self.alg:
            h = g.surf_margin(s, q)
            m, b = np.minimum(m, h), np.minimum(b, np.abs(h))
        return m, b

    def leaves(self):
        return [self] if self.kids is None else [x for k in self.kids for x in k.leaves()]

    def multis(self):
        return [] if self.kids is None else [self] + [x for k in self.kids for x in k.multis()]


def queries(c, root):
    q = [g.bulk(c["cl"], (0, 0, 0), 10.0)]
    for l in root.leaves():
        for s in l.alg[:4]:
            q += [g.crafted(s, c["ts"], e) for e in EPS]
        if l.pts is not None:
            ce = l.pts.mean(0)
            q += [ce[None], ce + (l.pts[:3] - ce) * 0.99, ce + (l.pts[:3] - ce) * 1.01]
        else:
            q.append(g.bulk(c["cl"], np.asarray(l.alg[0].get("c", l.alg[0].get("p"))) if l.alg else (0, 0, 0), 5.0))
    q = np.vstack(q)
    if c["form"] == "int":
        q = np.round(q).astype(int)
    if c["form"] == "empty":
        q = q[:0]
    return q


def verify(c, root, ctx, what):
    q = queries(c, root)
    for nd in [root] + (root.kids or []):
        m, b = nd.margin(q)
        sure = b > 1e-6
        if c["form"] == "single":
            idx = np.arange(len(q))[:: max(1, len(q) // 6)]
            got = m > 0
            for i in idx:
                got[i] = g.as_bool(nd.ob.checkIfInterior(q[i].copy()), 1)[0]
        else:
            q0 = q.copy()
            got = g.as_bool(nd.ob.checkIfInterior(q), len(q))
            need(np.array_equal(q, q0), "query points modified")
        bad = np.nonzero(sure & (got != (m > 0)))[0]
        need(len(bad) == 0, "%s: point %s (margin %.3g) reported %s", what, q[bad[0]].tolist() if len(bad) else 0, m[bad[0]] if len(bad) else 0, got[bad[0]] if len(bad) else 0)
        if nd is root and c["form"] == "array" and len(q) < 1000:
            # the answer for a point does not depend on the other points asked about, or on their order
            ins, out = np.nonzero(m > 0)[0], np.nonzero(m <= 0)[0]
            for name, idx in (("inside first", np.r_[ins, out]), ("outside first", np.r_[out, ins]), ("inside only", ins), ("outside only", out), ("repeated", np.r_[ins[:3], ins[:3], out[:3], ins[:1]])):
                if len(idx):
                    got = g.as_bool(nd.ob.checkIfInterior(q[idx]), len(idx))
                    bad = np.nonzero(sure[idx] & (got != (m[idx] > 0)))[0]
                    need(len(bad) == 0, "%s, %s: point %s (margin %.3g) reported %s", what, name, q[idx][bad[0]].tolist() if len(bad) else 0, m[idx][bad[0]] if len(bad) else 0, got[bad[0]] if len(bad) else 0)
        if nd is root:
            parts = sum((l.pts is not None) + len(l.alg) for l in root.leaves())
            ctx.hit(parts > 1 and np.any(sure & (m > 0)) and np.any(sure & (m < 0)))


def run(c, ctx):
    root = Node(c["tree"])
    ctx.label("multi" if root.kids is not None else "single", "form:" + c["form"])
    verify(c, root, ctx, "fresh")
    for who, (k, v) in c["ed"]:
        ls, ms = root.leaves(), root.multis()
        l = ls[who % len(ls)] if ls else None
        if k == "member":
            if not ms:
                continue
            m = ms[who % len(ms)]
            nd = Node(dict(v=v))
            m.ob.add_volume(nd.ob if who % 2 else [nd.ob])
            m.kids.append(nd)
        elif l is None:
            continue
        elif k in ("addpts", "addone"):
            add = np.array(v, float)
            if l.pts is None and len(np.atleast_2d(add)) < 4:
                continue
            l.ob.addPoints(add.copy())
            l.pts = np.vstack([l.pts, np.atleast_2d(add)]) if l.pts is not None else add
        elif k == "setpts":
            arr = np.array(v, float)
            l.ob.points = arr
            l.pts = arr.copy()
            arr += 3.0
        elif k == "alg":
            s = g.build_surface(v)
            l.ob.add_alg_object(s)
            l.alg.append(v)
            l.given.append(s)
        elif k == "poison":
            for s in l.given:
                s.tol = 5.0
                if hasattr(s, "radius"):
                    s.radius = 0.1
                if hasattr(s, "flip_orientation"):
                    s.flip_orientation()
            if l.arr is not None:
                l.arr += 100.0
        ctx.label("edit:" + k)
        if l is not None and l.pts is not None and k != "alg":
            g.close(l.ob.points, l.pts, 1e-12, "points of the volume")
        verify(c, root, ctx, "after " + k)


big = st.fixed_dictionaries(dict(n=st.sampled_from([60, 200, 60, 200, 60, 200, 2500]), off=g.vec(0, 1)))
hull_v = st.tuples(g.hull_points(), st.lists(g.surface(g.vec(-3, 3)), max_size=2)).map(lambda t: dict(v=dict(pts=t[0], alg=t[1])))
edit1 = g.pick(st.tuples(st.just("addpts"), st.lists(g.vec(-8, 8), min_size=1, max_size=3)), st.tuples(st.just("addone"), g.vec(-9, 9)),
                  st.tuples(st.just("setpts"), g.hull_points()), st.tuples(st.just("alg"), g.plane(g.vec(-2, 2))), st.tuples(st.just("poison"), st.none()))
one = st.fixed_dictionaries(dict(tree=g.pick(hull_v, hull_v, st.lists(hull_v, min_size=2, max_size=3).map(lambda l: dict(m=l))),
                                 ed=st.lists(st.tuples(st.integers(0, 5), edit1), min_size=1, max_size=5), cl=big,
                                 ts=st.lists(g.vec(0, 1), min_size=1, max_size=3), form=st.sampled_from(["array", "array", "array", "single"])))
PARTS = [Part("trees", case, run, quick=1600, thorough=24000, shards=8), Part("hulls", one, run, quick=1600, thorough=24000, shards=8)]
