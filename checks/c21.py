import itertools
import numpy as np
from hypothesis import strategies as st
from scipy.spatial import cKDTree
from pbt import Part, need, fail
import geom as g, objs
from c20 import snap, diff

ID = "C21"
RULE = ("A case is an fcc crystal (one or four species, any orientation, handedness, scale and placement), a volume, a {111} plane and defect parameters, with the random draws fixed by the case. The populated result is "
        "judged from its atoms: containment, twelve neighbours at the bulk distance, hcp-coordinated layers (one for a twin, two for a stacking fault) at least the requested number of planes apart on planes of the "
        "original crystal, original atoms above the topmost defect. Where all defects must be visible (aligned boxes and spheres, separation of at least 3) their number and types are exact. "
        "proportions: number of faults among many builds within 7 sigma. Non-trivial: at least one hcp layer among atoms well inside.")
ASSUMPTIONS = ["The crystal has an atom at its origin and the conventional cubic cell.", "Separation of at least one plane."]

PL = [p for p in itertools.product((1, -1), repeat=3)]


def fcc_s():
    return st.fixed_dictionaries(dict(a=g.num(3.2, 4.6, 3), z=g.pick(st.just([29]), st.just([29, 79, 79, 79])), o=g.pick(st.none(), g.vec(-6, 6)), tr=st.lists(g.isometry(0, 12), max_size=2),
                                      sc=st.sampled_from([None, None, None, 1.1, 0.9]), by=st.sampled_from(["cell", "cell", "group"])))


def build_fcc(c):
    from czone.generator import Generator
    a = c["a"]
    f = np.array([[0, 0, 0], [0, .5, .5], [.5, 0, .5], [.5, .5, 0]])
    kw = {} if c["o"] is None else dict(origin=np.array(c["o"], float))
    if c["by"] == "group" and len(c["z"]) == 1:
        gen = Generator.from_spacegroup(c["z"], [[0, 0, 0]], [a] * 3, [90] * 3, sgn=225, **kw)
    else:
        gen = Generator.from_unit_cell((c["z"] * 4)[:4], f, [a] * 3, [90] * 3, **kw)
    if c["sc"] is not None:
        gen.voxel.scale = np.array([c["sc"]])
    for t in c["tr"]:
        gen.transform(g.build_t(t))
    return gen


def model(c):
    """basis, origin of the crystal spec"""
    B, o = np.eye(3) * c["a"] * (c["sc"] or 1.0), np.zeros(3) if c["o"] is None else np.array(c["o"], float)
    for t in c["tr"]:
        A, b = g.affine(t)
        B, o = A @ B, A @ o + b
    return B, o


vs = g.pick(
    st.tuples(st.just("box"), g.num(9, 13), g.num(9, 13), g.num(15, 24), g.angle()),
    st.tuples(st.just("sphere"), g.num(9.5, 12.5)),
    st.tuples(st.just("any box"), g.num(10, 16), g.num(10, 16), g.num(10, 16), g.direction(), g.angle()),
    st.tuples(st.just("cyl"), g.num(6, 9), g.num(12, 20), g.direction()),
    st.tuples(st.just("plane box"), g.num(9, 13), g.num(9, 13), g.num(15, 20), g.angle()),
    st.tuples(st.just("cut sphere"), g.num(9.5, 12), g.direction(), g.num(0, 4)))


def frame(n, ang):
    n = g.unit(n)
    a = np.eye(3)[np.argmin(np.abs(n))]
    u = g.unit(np.cross(n, a))
    v = np.cross(n, u)
    return np.column_stack([np.cos(ang) * u + np.sin(ang) * v, -np.sin(ang) * u + np.cos(ang) * v, n])


def vol_spec(v, n, ctr):
    """Volume spec of shape v around ctr; n is the plane normal of the crystal."""
    ctr = np.asarray(ctr, float)
    k = v[0]
    if k in ("box", "any box", "plane box"):
        R = frame(n, v[4]) if k != "any box" else g.rodrigues(v[4], v[5])
        if k == "plane box":
            return dict(pts=None, alg=[dict(k="plane", n=(s * R[:, i]).tolist(), p=(ctr + s * R[:, i] * v[1 + i] / 2).tolist(), tol=None) for i in range(3) for s in (1, -1)])
        return dict(pts=[(ctr + R @ (np.array(s) * np.array(v[1:4]) / 2)).tolist() for s in itertools.product((-1, 1), repeat=3)], alg=[])
    if k == "sphere":
        return dict(pts=None, alg=[dict(k="sphere", r=v[1], c=ctr.tolist(), tol=None)])
    if k == "cyl":
        return dict(pts=None, alg=[dict(k="cyl", a=v[3], p=ctr.tolist(), r=v[1], l=v[2], tol=None)])
    return dict(pts=None, alg=[dict(k="sphere", r=v[1], c=ctr.tolist(), tol=None), dict(k="plane", n=v[2], p=(ctr + g.unit(v[2]) * v[3]).tolist(), tol=None)])


case = st.fixed_dictionaries(dict(g=fcc_s(), v=vs, c=g.shift_vec(60), plane=st.sampled_from(PL), ty=st.sampled_from(["mixed", "mixed", "twin", "fault"]), N=st.sampled_from([0, 1, 1, 2, 2, 3, 4]), m=st.sampled_from([1, 2, 3, 3, 3, 4]),
                                  ratio=st.sampled_from([0.5, 0.5, 0.5, 0.3, 0.0, 1.0]), seed=st.integers(0, 2**31), own=st.booleans(), late=st.booleans()))


def prefab(c, gen, vol):
    from czone.prefab.prefab import fccMixedTwinSF, fccStackingFault, fccTwin
    kw = dict(N=c["N"], min_sep=c["m"], plane=tuple(c["plane"]))
    if not c["late"]:
        kw.update(generator=gen, volume=vol)
    p = fccTwin(**kw) if c["ty"] == "twin" else fccStackingFault(**kw) if c["ty"] == "fault" else fccMixedTwinSF(ratio=c["ratio"], **kw)
    if c["late"]:
        p.generator, p.volume = gen, vol
    return p


def run(c, ctx):
    from czone.generator import NullGenerator
    B, o = model(c["g"])
    a = np.linalg.norm(B[:, 0])
    nn, d = a / np.sqrt(2), a / np.sqrt(3)
    n = g.unit(B @ np.array(c["plane"], float))
    spec = vol_spec(c["v"], n, c["c"])
    gen = build_fcc(c["g"])
    vol = g.build_vol(spec, generator=gen if c["own"] else NullGenerator(), priority=3)
    s0, s1 = snap(gen), snap(vol)
    p = prefab(c, gen, vol)
    # extent of the volume along the plane normal: how many planes there are to choose from
    if c["v"][0] in ("sphere", "cut sphere"):
        ext = 2 * c["v"][1]
    else:
        ext = np.ptp(np.asarray(vol.get_bounding_box()) @ n)
    with g.seeded(c["seed"]):
        try:
            mv, types = p.build_object(return_defect_types=True)
        except ValueError:
            l = int(ext / d) - 1
            need(c["N"] > 0 and not (c["N"] + 1) * c["m"] < l, "%d defects %d planes apart refused in a volume of %d planes", c["N"], c["m"], l)
            ctx.label("infeasible")
            return
    need(diff(s0, snap(gen)) is None, "the source generator changed in %s", diff(s0, snap(gen)))
    need(diff(s1, snap(vol)) is None, "the source volume changed in %s", diff(s1, snap(vol)))
    with g.seeded(c["seed"]):
        mv2 = p.build_object()
    need(type(mv2) is type(mv), "build_object gives a %s", type(mv2).__name__)
    mv.populate_atoms()
    at, sp = g.atoms_of(mv)
    mv2.populate_atoms()
    need(np.array_equal(at, mv2.atoms) and np.array_equal(sp, mv2.species), "the same random draws give another object")
    mg = g.vol_margin(spec, at)
    eps = 1e-4 + 1e-6 * np.abs(c["c"]).max()
    need(len(at) > 0 and (mg > -eps).all(), "an atom lies %.3g outside the volume", -mg.min())
    deep = np.flatnonzero(mg > nn + 0.05)
    tree = cKDTree(at)
    dd, ii = tree.query(at[deep], k=14)
    bad = np.flatnonzero((np.abs(dd[:, 1:13] - nn) > 1e-3).any(axis=1) | (dd[:, 13] < 1.2 * nn))
    need(len(bad) == 0, "neighbours of an atom well inside at %s instead of twelve at %.4f (height %s planes)", np.round(dd[bad[0], 1:] if len(bad) else 0, 4).tolist(), nn, ((at[deep[bad[0]]] - o) @ n / d) if len(bad) else 0)
    # close together anywhere
    d2, _ = tree.query(at, k=2)
    need((d2[:, 1] > nn - 1e-3).all(), "two atoms %.4f apart, bulk distance %.4f", d2[:, 1].min(), nn)
    # layers: on planes of the original crystal (defects only shift within or reflect at planes)
    h = (at - o) @ n / d
    lay = np.round(h).astype(int)
    need(np.abs(h - lay).max() < 1e-3, "an atom is off the {111} planes of the original crystal")
    # hcp coordination: the neighbour shell lacks inversion symmetry
    v = at[ii[:, 1:13]] - at[deep][:, None, :]
    s = np.linalg.norm(v[:, :, None, :] + v[:, None, :, :], axis=3)
    fcc = (s.min(axis=2) < 1e-2).all(axis=1)
    hcp_of = {}
    for L, f in zip(lay[deep], fcc):
        need(hcp_of.setdefault(L, not f) == (not f), "layer %d is partly defective", L)
    L = sorted(hcp_of)
    hcp = [x for x in L if hcp_of[x]]
    runs = []
    for x in hcp:
        if runs and runs[-1][-1] == x - 1:
            runs[-1].append(x)
        else:
            runs.append([x])
    ctx.hit(len(hcp) > 0)
    kinds = {0.0: "twin", 1.0: "fault"}.get(c["ratio"], "mixed") if c["ty"] == "mixed" else c["ty"]
    need(set(types) == {"twin", "stacking_fault"}, "defect types reported: %s", types)
    if kinds != "mixed":
        need(bool(types["twin"]) == (kinds == "twin" and c["N"] > 0) and bool(types["stacking_fault"]) == (kinds == "fault" and c["N"] > 0), "defect types reported %s for %s", types, kinds)
    need(bool(types["twin"]) or bool(types["stacking_fault"]) or c["N"] == 0, "no defect type reported for %d defects", c["N"])
    need(len(hcp) <= 2 * c["N"], "%d hcp layers for %d defects", len(hcp), c["N"])
    visible = c["v"][0] in ("box", "sphere", "plane box") and c["m"] >= 3
    ctx.label(c["v"][0], kinds, "N%d" % c["N"], "visible" if visible else "partly visible")
    # the original atoms above the topmost defect
    src = vol.from_volume(generator=gen)
    src.populate_atoms()
    so, ss = np.asarray(src.atoms), np.asarray(src.species)
    ho = (so - o) @ n / d
    if c["N"] == 0:
        g.match(at, sp, so, ss, 1e-3, "atoms without defects")
    if visible and c["N"]:
        need(all(len(r) <= 2 for r in runs), "hcp layers %s: %s planes apart requested", hcp, c["m"])
        need(len(runs) == c["N"], "%d defects (hcp layers %s), %d requested", len(runs), hcp, c["N"])
        pos = [r[0] for r in runs]
        need(all(y - x >= c["m"] for x, y in zip(pos, pos[1:])), "defect planes %s, %d planes apart requested", pos, c["m"])
        # a single layer at the rim may be the lower one of two
        k = [len(r) for r in runs if not (len(r) == 1 and r[0] == L[-1])]
        rim = len(k) < len(runs)
        if kinds != "mixed":
            need(set(k) <= {1 if kinds == "twin" else 2}, "hcp layers %s, only %s requested", hcp, kinds)
        need((1 not in k or types["twin"]) and (2 not in k or types["stacking_fault"]) and (rim or (1 in k) == bool(types["twin"]) and (2 in k) == bool(types["stacking_fault"])), "hcp layers %s, types reported %s", hcp, types)
        top = pos[-1]
        up, upo = h > top + 0.5, ho > top + 0.5
        g.match(at[up], sp[up], so[upo], ss[upo], 1e-3, "atoms above the topmost defect")
        need(up.any(), "no atoms above the topmost defect")
        # ends of the list of planes are kept clear too
        heights = np.array([h.min(), h.max()])
        need(pos[0] >= heights[0] + c["m"] - 2.01 and pos[-1] <= heights[1] - c["m"] + 2.01, "defect planes %s too close to the ends %s", pos, heights.tolist())
        below = h < pos[0] - 0.5
        if below.any() and not len(pos) == 0:
            tr = cKDTree(so)
            ctx.label("below moved" if (tr.query(at[below])[0] > 0.1).any() else "below same")


pcase = st.fixed_dictionaries(dict(r=st.sampled_from([0.5, 0.2, 0.8]), N=st.integers(1, 3), seed=st.integers(0, 2**31)))


def run_prop(c, ctx):
    """Proportion of the kinds and spread of the planes over many builds (no atoms)."""
    from czone.generator import Generator
    from czone.prefab.prefab import fccMixedTwinSF
    from czone.volume import Volume, Sphere
    f = np.array([[0, 0, 0], [0, .5, .5], [.5, 0, .5], [.5, .5, 0]])
    gen = Generator.from_unit_cell([29] * 4, f, [4.0] * 3, [90] * 3)
    vol = Volume(alg_objects=[Sphere(16.0, np.array([3.0, 2.0, 1.0]))], generator=gen)
    p = fccMixedTwinSF(generator=gen, volume=vol, ratio=c["r"], N=c["N"], min_sep=2)
    K = 250
    sf = tw = 0
    tops = {}
    with g.seeded(c["seed"]):
        for _ in range(K):
            mv, t = p.build_object(return_defect_types=True)
            sf += bool(t["stacking_fault"])
            tw += bool(t["twin"])
            z = np.column_stack([np.linspace(-16, 16, 129)] * 3) / np.sqrt(3) + np.array([3.0, 2.0, 1.0])
            # highest point below a defect plane, seen through the members
            tops.setdefault(tuple(sum(v.checkIfInterior(z) for v in mv.volumes).tolist()), 0)
    for k, q, what in ((sf, 1 - (1 - c["r"])**c["N"], "stacking faults"), (tw, 1 - c["r"]**c["N"], "twins")):
        need(abs(k - K * q) <= 7 * np.sqrt(K * q * (1 - q)) + 2, "%d of %d objects have %s; ratio %s, %d defects", k, K, what, c["r"], c["N"])
    need(len(tops) > 5, "only %d different placements of defects in %d builds", len(tops), K)
    ctx.hit()


PARTS = [Part("defects", case, run, quick=700, thorough=10000, shards=8), Part("proportions", pcase, run_prop, quick=8, thorough=100, shards=8)]
