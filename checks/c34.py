import numpy as np
from hypothesis import strategies as st
from scipy.spatial import cKDTree
from pbt import Part, need
import geom as g, objs
from objs import Ob, TooLarge
from c12 import ovl, few, order

ID = "C34"
RULE = ("A case is a scene of crystal-filled volumes, nested multi-volumes and molecules (some crystals with a substitution of all atoms of a species), and a change of the scene that must have a known effect: the whole "
        "scene moved by isometries, a volume cut in two by a plane, members wrapped or unwrapped, priorities relabelled in the same order, objects added in another order, a hole carved by an empty volume, an object "
        "covered by an equal or more important one, a distant object added. Both scenes are populated by the real code and compared. Non-trivial: at least five atoms, and the change is not the identity.")
ASSUMPTIONS = ["Atoms within 3e-6 (relative to position) of the boundary of any region before or after the change are not compared."]

ob_s = g.pick(objs.tree(few, 1, ovl), objs.tree(few, 2, ovl), objs.leaf(few, ovl), objs.leaf(few, ovl), objs.leaf(few, ovl), objs.leaf(few, ovl), objs.tree(few, 2, ovl), g.pick(*[objs.mol(few)] * 5, objs.big_mol(few)))
change = g.pick(
    st.lists(g.isometry(1), min_size=1, max_size=3).map(lambda l: ["move", l]), st.lists(g.isometry(1), min_size=1, max_size=3).map(lambda l: ["move", l]),
    st.tuples(st.integers(0, 30), g.direction(), g.vec(-2, 2)).map(lambda t: ["cut", *t]), st.tuples(st.integers(0, 30), g.direction(), g.vec(-2, 2)).map(lambda t: ["cut", *t]),
    st.tuples(st.integers(0, 30), st.integers(1, 3)).map(lambda t: ["wrap", *t]),
    st.tuples(st.integers(1, 5), st.integers(-9, 9)).map(lambda t: ["relabel", *t]),
    st.integers(0, 10**6).map(lambda k: ["reorder", k]),
    ovl.map(lambda v: ["carve", v]), ovl.map(lambda v: ["carve", v]),
    st.tuples(st.integers(0, 30), st.integers(0, 3)).map(lambda t: ["cover", *t]),
    objs.leaf(few, ovl).map(lambda s: ["far", s]))
case = st.fixed_dictionaries(dict(obs=g.pick(*[st.lists(ob_s, min_size=1, max_size=4)] * 7 + [st.lists(ob_s, min_size=5, max_size=8)]), ch=change, sub=g.pick(st.none(), st.integers(0, 30)), how=st.sampled_from(["transform", "copy"])))


def scene(kids):
    from czone.scene import Scene
    sc = Scene(objects=[k.ob for k in kids])
    sc.populate()
    al, sp = g.as_pts(sc.all_atoms, what="all_atoms"), np.asarray(sc.all_species, float)
    need(sp.shape == (len(al),), "%s species for %d atoms", sp.shape, len(al))
    return al, sp


def thin(v):
    return len(v) < 4 or np.linalg.svd(v - v.mean(0), compute_uv=False)[-1] < 1e-3


def clear(kids, q):
    """Points away from the boundaries of all regions."""
    ok = np.ones(len(q), bool)
    for k in kids:
        ok &= k.margin(q)[1] > 3e-6 * (1 + np.abs(q).max(initial=0) / 10)
    return ok


def same(a, b, amask, bmask, what):
    """Atoms of a selected by amask are in b and the reverse."""
    (p, s), (q, z) = a, b
    tol = 1e-5 + 1e-7 * np.abs(p).max(initial=0)
    g.contains(p[amask], s[amask], q, z, tol, what + ": atom missing afterwards")
    g.contains(q[bmask], z[bmask], p, s, tol, what + ": atom not there before")
    near = [cKDTree(x).query_pairs(1e-4) if len(x) > 1 else set() for x in (p, q)]
    if not near[0] and not near[1]:
        need(abs(len(p) - len(q)) <= (~amask).sum() + (~bmask).sum(), "%s: %d atoms before, %d afterwards", what, len(p), len(q))


def run(c, ctx):
    from czone.transform.post import ChemicalSubstitution
    k = c["ch"][0]
    ctx.label(k)

    def build(specs):
        ks = [Ob(s) for s in specs]
        if c["sub"] is not None:
            ls = [l for x in ks for l in x.leaves() if l.gm is not None]
            if ls:
                l = ls[c["sub"] % len(ls)]
                l.ob.generator.post_transform = ChemicalSubstitution([int(l.gm.Z[0])], [33], 1.0)
        return ks

    specs = c["obs"]
    A = build(specs)
    try:
        for x in A:
            x.expected()
    except TooLarge:
        ctx.label("too large")
        return
    a = scene(A)
    keep = np.ones(len(a[0]), bool)
    ctx.hit(len(a[0]) >= 5)
    if k == "move":
        B = build(specs)
        M, b = g.affine(dict(t="S", seq=c["ch"][1]))
        for x in B:
            ts = [g.build_t(t) for t in c["ch"][1]]
            if c["how"] == "copy":
                x.ob = x.ob.from_molecule(transformation=ts) if x.mol is not None else x.ob.from_volume(transformation=ts)
            else:
                for t in ts:
                    x.ob.transform(t)
        bb = scene(B)
        mv = (a[0] @ M.T + b, a[1])
        ok = clear(A, a[0])
        back = (bb[0] - b) @ np.linalg.inv(M).T
        same(mv, bb, ok, clear(A, back), "moved")
        return
    if k == "cut":
        # the two sides of a plane through one leaf, as objects of the same standing, replace it
        vols = [i for i, s in enumerate(specs) if "v" in s]
        if not vols:
            return
        i = vols[c["ch"][1] % len(vols)]
        s = specs[i]
        ctr, _ = g.vol_center_size(s["v"])
        p = (np.asarray(ctr) + np.array(c["ch"][3])).tolist()
        n = np.array(c["ch"][2])
        halves = [dict(s, v=dict(s["v"], alg=s["v"]["alg"] + [dict(k="plane", n=(sg * n).tolist(), p=p, tol=None)])) for sg in (1.0, -1.0)]
        if s["v"].get("pts") is None and all(o["k"] == "plane" for o in s["v"]["alg"]) and any(thin(g.polytope_vertices(h["v"]["alg"])) for h in halves):
            ctx.label("empty half")   # nothing to populate: planes alone that enclose no region
            return
        B = []
        A2 = build(specs)
        for j, x in enumerate(A2):
            if j != i:
                B.append(x)
                continue
            for h in halves:
                y = Ob(h)
                if y.gm is not None and x.ob.generator.post_transform is not None:
                    y.ob.generator.post_transform = x.ob.generator.post_transform
                B.append(y)
    elif k == "wrap":
        i = c["ch"][1] % len(specs)
        B = build(specs)
        if B[i].mol is not None:
            return
        from czone.volume import MultiVolume
        for _ in range(c["ch"][2]):
            x = B[i]
            w = Ob(dict(m=[], pr=x.pr))
            w.ob = MultiVolume([x.ob], priority=x.pr)
            w.kids = [x]
            B[i] = w
    elif k == "relabel":
        B = build(specs)
        for x in B:
            for y in [x] + x.multis() + x.leaves():
                if not hasattr(y, "done"):
                    y.ob.priority = y.pr = c["ch"][1] * y.pr + c["ch"][2]
                    y.done = True
    elif k == "reorder":
        B = build(specs)
        B = [B[i] for i in order(len(B), c["ch"][1])]
    elif k == "carve":
        B = build(specs)
        hole = Ob(dict(v=c["ch"][1], g="null", pr=min(x.pr for x in B) - 1))
        B.append(hole)
        keep = hole.margin(a[0])[0] <= 0
    elif k == "cover":
        i = c["ch"][1] % len(specs)
        if "mol" in specs[i]:
            return
        B = build(specs)
        extra = Ob(specs[i])
        extra.ob.priority = extra.pr = B[i].pr + 1 + c["ch"][2]
        # a less important copy of an object adds nothing, but it covers less important objects - as the object itself does
        B.append(extra)
    else:  # far
        B = build(specs)
        far = Ob(c["ch"][1])
        t = dict(t="T", s=[4000.0, -3000.0, 2500.0])
        far.ob.transform(g.build_t(t))
        far.apply(t)
        far.ob.populate_atoms()
        own = (np.asarray(far.ob.atoms), np.asarray(far.ob.species, float))
        B.append(far)
        a = (np.vstack([a[0], own[0]]), np.hstack([a[1], own[1]]))
        keep = np.ones(len(a[0]), bool)
    bb = scene(B)
    ok, okb = clear(A + B, a[0]), clear(A + B, bb[0])
    if k == "cut":   # both sides hold (and exclude) what lies within the tolerance of the cut
        ok &= np.abs((a[0] - p) @ g.unit(n)) > 3e-5
        okb &= np.abs((bb[0] - p) @ g.unit(n)) > 3e-5
    a = (a[0][keep], a[1][keep])
    same(a, bb, ok[keep], okb, k)


PARTS = [Part("relations", case, run, quick=1500, thorough=20000, shards=8)]
