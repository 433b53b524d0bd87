import numpy as np
from hypothesis import strategies as st
from pbt import Part, need
import geom as g

ID = "C09"
RULE = ("A case is a unit cell (any of six lattice systems, 1-4 sites with arbitrary fractional coordinates), an initial placement, and a history of supply requests, transformations "
        "(locked and basis-only), origin and scale changes. Each supply is compared with an independent enumeration of the infinite crystal: every site well inside the hull of the region "
        "present once, every supplied atom a site. Non-trivial: at least one site inside a requested region.")
MAXN = 30000


class GM:
    """Reference model of a crystal generator's state."""

    def __init__(self, spec):
        self.B = g.lat_matrix(spec["lat"])
        self.o = np.zeros(3) if spec["o"] is None else np.array(spec["o"], float)
        self.f = np.array([x[1] for x in spec["b"]], float)
        self.Z = np.array([x[0] for x in spec["b"]], float)
        self.sc = np.array(1.0)
        if spec.get("sc") is not None:
            self.sc = np.asarray(spec["sc"], float)
        for t in spec["tr"]:
            self.apply(t)

    def apply(self, t):
        if t["t"] == "S":
            for u in t["seq"]:
                self.apply(u)
            return
        A, b = g.affine(t)
        self.B = A @ self.B
        if not t.get("basis_only"):
            self.o = A @ self.o + b

    def model(self):
        return self.B * self.sc, self.o, self.f, self.Z


def flagged(t):
    """Transformations, some of which act on the basis only."""
    return st.tuples(t, st.sampled_from([None, None, True])).map(lambda p: dict(p[0], basis_only=True) if p[1] and p[0]["t"] != "S" else p[0])


def around_site(m, region):
    """A tiny box around a site of the crystal."""
    B, o, f, Z = m
    c = B @ (np.array(region["cell"]) + f[region["i"] % len(f)] - np.floor(f[region["i"] % len(f)])) + o
    h = np.array(region["h"]) * 0.02 + 0.003 + 3e-6 * np.abs(c).max()
    return np.array([[c[0] + sx * h[0], c[1] + sy * h[1], c[2] + sz * h[2]] for sx in (-1, 1) for sy in (-1, 1) for sz in (-1, 1)])


region = g.pick(
    st.tuples(g.hull_points(), g.shift_vec(80), st.sampled_from([1.0, 1.7, 2.5])).map(lambda t: dict(k="pts", p=(np.array(t[0]) * t[2] + np.array(t[1])).round(4).tolist())),
    st.fixed_dictionaries(dict(k=st.just("site"), cell=g.pick(*[st.lists(st.integers(-12, 12), min_size=3, max_size=3)] * 3 + [st.lists(g.pick(st.integers(-12, 12), st.integers(-300, 300), st.integers(-70000, 70000)), min_size=3, max_size=3)]), i=st.integers(0, 5), h=g.vec(0, 9))),
    st.tuples(st.lists(g.vec(-6, 6), min_size=1, max_size=3)).map(lambda t: dict(k="few", p=t[0])))
op = g.pick(region.map(lambda r: ["supply", r]), region.map(lambda r: ["supply", r]), flagged(g.isometry(1)).map(lambda t: ["transform", t]),
               g.matrix_t().map(lambda t: ["transform", t]), g.vec(-9, 9).map(lambda v: ["origin", v]), st.sampled_from([1.0, 1.2, [1.3, 1.0, 0.8]]).map(lambda s: ["scale", s]))
case = st.fixed_dictionaries(dict(g=g.pick(g.crystal(), g.crystal(), g.crystal(), g.crystal(12)), ops=st.lists(op, max_size=4), last=region))


def check_supply(gen, m, reg, ctx, pad=1e-6):
    """One supply call against the enumeration of the crystal."""
    lo, hi = reg.min(0), reg.max(0)
    # estimate of work: bounding parallelepiped in the crystal frame
    fr = np.linalg.solve(m[0], (reg - m[1]).T).T
    if np.prod(np.ptp(fr, axis=0) + 3) * len(m[3]) > MAXN or np.prod(hi - lo + 2) / abs(np.linalg.det(m[0])) * len(m[3]) > MAXN:
        ctx.label("too large")
        return
    r0 = reg.copy()
    c, s = gen.supply_atoms(reg)
    need(np.array_equal(reg, r0), "region modified")
    c = g.as_pts(c, what="supplied atoms")
    s = np.asarray(s)
    need(s.shape == (len(c),), "species shape %s for %d atoms", s.shape, len(c))
    scale = 1 + np.abs(reg).max() + np.abs(m[1]).max()
    tol = 1e-7 * scale + 1e-6
    on = g.on_lattice(m, c, s, tol=tol)
    bad = np.nonzero(on < 0)[0]
    need(len(bad) == 0, "supplied atom %s of species %s is not a site of the crystal (%d such)", c[bad[0]].tolist() if len(bad) else 0, s[bad[0]] if len(bad) else 0, len(bad))
    need(g.unique_pts(c, 1e-3), "a site is supplied twice")
    if g.good_hull(reg) or np.ptp(reg, axis=0).min() > 0 and len(reg) >= 8:
        cs, ss = g.sites(m, reg)
        inside = g.hull_margin(reg, cs) > pad * scale if len(cs) else np.zeros(0, bool)
        g.contains(cs[inside], ss[inside], c, s, tol=tol, what="missing site inside the region:")
        ctx.hit(np.any(inside))
        ctx.label("sites>0" if np.any(inside) else "no sites")
    return c, s


def run(c, ctx):
    gen = g.build_gen(c["g"])
    gm = GM(c["g"])
    ang = c["g"]["lat"][3:]
    ctx.label("orthogonal" if ang == [90.0, 90.0, 90.0] else "non-orthogonal")

    def supply(r):
        m = gm.model()
        reg = around_site(m, r) if r["k"] == "site" else np.array(r["p"], float)
        if r["k"] == "pts":  # keep regions near the crystal placed by the case small
            ctx.label("hull region")
        r1 = check_supply(gen, m, reg, ctx)
        if r1 is not None:
            r2 = gen.supply_atoms(reg)
            need(np.array_equal(r1[0], r2[0]) and np.array_equal(r1[1], r2[1]), "a second call gives different atoms")
    for k, v in c["ops"]:
        if k == "supply":
            supply(v)
        elif k == "transform":
            gen.transform(g.build_t(v))
            gm.apply(v)
            ctx.label("transformed")
        elif k == "origin":
            gen.origin = np.array(v)
            gm.o = np.array(v)
        else:
            gen.voxel.scale = np.array(v)
            gm.sc = np.array(v)
    supply(c["last"])
    m = gm.model()
    g.close(gen.origin, m[1], 1e-9, "generator origin")
    g.close(gen.voxel.sbases, m[0], 1e-9, "generator basis")


PARTS = [Part("supply", case, run, quick=3000, thorough=16000, shards=8)]
