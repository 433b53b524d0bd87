import itertools
import numpy as np
from hypothesis import strategies as st
from scipy.spatial import cKDTree
from pbt import Part, need, fail
import geom as g
from c20 import snap, diff
from c21 import vol_spec, frame

ID = "C22"
RULE = ("A case is a wurtzite crystal (lattice parameters, internal parameter, setting, orientation, handedness, scale, placement), a volume and fault parameters, with the random draws fixed by the case. The populated "
        "result is judged from its atoms: containment, four unlike neighbours at the two bulk bond lengths and nothing closer, one cubic-stacked bilayer per fault, at least the requested number of planes apart, original "
        "atoms above the topmost fault and other atoms below it. Non-trivial: at least one cubic-stacked layer among atoms well inside.")
ASSUMPTIONS = ["Sites at (1/3,2/3) and (2/3,1/3) in either order, half a cell apart, one species at z = 0, internal parameter near 3/8 and axial ratio near ideal."]


def wz_s():
    return st.fixed_dictionaries(dict(a=g.num(2.9, 3.5, 3), ca=g.pick(st.just(1.633), g.num(1.58, 1.68)), u=g.pick(st.just(0.375), g.num(0.365, 0.387)), z=st.sampled_from([[30, 8], [31, 7], [48, 34], [8, 30]]), swap=st.booleans(), perm=st.permutations(range(4)),
                                      o=g.pick(st.none(), g.vec(-6, 6)), tr=st.lists(g.isometry(0, 12), max_size=2), sc=st.sampled_from([None, None, None, 1.1, 0.9]), by=st.sampled_from(["cell", "group"])))


def build_wz(c):
    from czone.generator import Generator
    a, cc, u = c["a"], c["a"] * c["ca"], c["u"]
    zm, zx = c["z"]
    kw = {} if c["o"] is None else dict(origin=np.array(c["o"], float))
    if c["by"] == "group":
        gen = Generator.from_spacegroup([zm, zx], [[2 / 3, 1 / 3, 0], [2 / 3, 1 / 3, u]] if c["swap"] else [[1 / 3, 2 / 3, 0], [1 / 3, 2 / 3, u]], [a, a, cc], [90, 90, 120], sgn=186, **kw)
    else:
        f = [[1 / 3, 2 / 3, 0], [2 / 3, 1 / 3, .5], [1 / 3, 2 / 3, u], [2 / 3, 1 / 3, .5 + u]]
        if c["swap"]:
            f = [[1 - x, 1 - y, z] for x, y, z in f]
        gen = Generator.from_unit_cell([[zm, zm, zx, zx][i] for i in c["perm"]], [f[i] for i in c["perm"]], [a, a, cc], [90, 90, 120], **kw)
    if c["sc"] is not None:
        gen.voxel.scale = np.array([c["sc"]])
    for t in c["tr"]:
        gen.transform(g.build_t(t))
    return gen


def model(c):
    B = g.lat_matrix([c["a"], c["a"], c["a"] * c["ca"], 90.0, 90.0, 120.0]) * (c["sc"] or 1.0)
    o = np.zeros(3) if c["o"] is None else np.array(c["o"], float)
    for t in c["tr"]:
        A, b = g.affine(t)
        B, o = A @ B, A @ o + b
    return B, o


vs = g.pick(
    st.tuples(st.just("box"), g.num(13, 15), g.num(13, 15), g.num(26, 60), g.angle()),
    st.tuples(st.just("box"), g.num(13, 15), g.num(13, 15), g.num(34, 60), g.angle()),
    st.tuples(st.just("box"), g.num(13, 14), g.num(13, 14), g.num(60, 100), g.angle()),
    st.tuples(st.just("sphere"), g.num(13, 18)),
    st.tuples(st.just("any box"), g.num(11, 16), g.num(11, 16), g.num(11, 16), g.direction(), g.angle()),
    st.tuples(st.just("cyl"), g.num(7, 9), g.num(14, 22), g.direction()),
    st.tuples(st.just("plane box"), g.num(13, 15), g.num(13, 15), g.num(30, 44), g.angle()))
case = st.fixed_dictionaries(dict(g=wz_s(), v=vs, c=g.shift_vec(60), N=st.sampled_from([0, 1, 1, 2, 2, 3, 3, 4, 5, 6]), m=st.sampled_from([1, 2, 3, 4, 4, 4, None]), seed=st.integers(0, 2**31), own=st.booleans(), late=st.booleans()))


def run(c, ctx):
    from czone.generator import NullGenerator
    from czone.prefab.prefab import wurtziteStackingFault
    B, o = model(c["g"])
    a, cc, u = np.linalg.norm(B[:, 0]), np.linalg.norm(B[:, 2]), c["g"]["u"]
    n = g.unit(np.linalg.inv(B)[2])
    d = cc / 2
    axial, lateral = u * cc, np.sqrt(a * a / 3 + ((0.5 - u) * cc)**2)
    bond = sorted([axial, lateral])
    spec = vol_spec(c["v"], n, c["c"])
    gen = build_wz(c["g"])
    vol = g.build_vol(spec, generator=gen if c["own"] else NullGenerator(), priority=-2)
    s0, s1 = snap(gen), snap(vol)
    kw = dict(N=c["N"])
    m = 6 if c["m"] is None else c["m"]
    if c["m"] is not None:
        kw["min_sep"] = m
    if not c["late"]:
        kw.update(generator=gen, volume=vol)
    p = wurtziteStackingFault(**kw)
    if c["late"]:
        p.generator, p.volume = gen, vol
    ext = 2 * c["v"][1] if c["v"][0] == "sphere" else np.ptp(np.asarray(vol.get_bounding_box()) @ n)
    with g.seeded(c["seed"]):
        try:
            mv, types = p.build_object(return_defect_types=True)
        except ValueError:
            l = int(ext / d) - 1
            need(c["N"] > 0 and not (c["N"] + 1) * m < l, "%d faults %d planes apart refused in a volume of %d planes", c["N"], m, l)
            ctx.label("infeasible")
            return
    need(types == {"stacking_fault": True}, "defect types reported: %s", types)
    need(diff(s0, snap(gen)) is None, "the source generator changed in %s", diff(s0, snap(gen)))
    need(diff(s1, snap(vol)) is None, "the source volume changed in %s", diff(s1, snap(vol)))
    with g.seeded(c["seed"]):
        mv2 = p.build_object()
    mv.populate_atoms()
    at, sp = g.atoms_of(mv)
    mv2.populate_atoms()
    need(np.array_equal(at, mv2.atoms) and np.array_equal(sp, mv2.species), "the same random draws give another object")
    mg = g.vol_margin(spec, at)
    eps = 1e-4 + 1e-6 * np.abs(c["c"]).max()
    need(len(at) > 0 and (mg > -eps).all(), "an atom lies %.3g outside the volume", -mg.min())
    tree = cKDTree(at)
    d2, _ = tree.query(at, k=2)
    need((d2[:, 1] > bond[0] - 1e-3).all(), "two atoms %.4f apart, shortest bond %.4f", d2[:, 1].min(), bond[0])
    # tetrahedral bonding
    deep = np.flatnonzero(mg > 1.3 * bond[1] + 0.05)
    dd, ii = tree.query(at[deep], k=6)
    want = np.sort([axial] + [lateral] * 3)
    bad = np.flatnonzero((np.abs(dd[:, 1:5] - want) > 1e-3).any(axis=1) | (dd[:, 5] < 1.25 * bond[1]))
    need(len(bad) == 0, "neighbours of an atom well inside at %s instead of %s", np.round(dd[bad[0], 1:] if len(bad) else 0, 4).tolist(), np.round(want, 4).tolist())
    bad = np.flatnonzero((sp[ii[:, 1:5]] == sp[deep][:, None]).any(axis=1))
    need(len(bad) == 0, "an atom of species %s is bonded to its own kind", sp[deep[bad[0]]] if len(bad) else 0)
    # stacking of the sublattice on the planes: hexagonal in the crystal, cubic next to a fault
    M = c["g"]["z"][0]
    cat = at[sp == M]
    h = (cat - o) @ n / d
    lay = np.round(h).astype(int)
    need(np.abs(h - lay).max() < 1e-3, "an atom is off the basal planes of the original crystal")
    r = 0.5 * (max(a, np.sqrt(a * a / 3 + cc * cc / 4)) + np.sqrt(2) * min(a, np.sqrt(a * a / 3 + cc * cc / 4)))
    mc = g.vol_margin(spec, cat)
    inn = np.flatnonzero(mc > 1.03 * max(a, np.sqrt(a * a / 3 + cc * cc / 4)))
    ct = cKDTree(cat)
    kind = {}
    for i in inn:
        nb = cat[[j for j in ct.query_ball_point(cat[i], r) if j != i]] - cat[i]
        need(len(nb) == 12, "%d like neighbours instead of 12 well inside", len(nb))
        cub = (np.linalg.norm(nb[:, None] + nb[None], axis=2).min(axis=1) < 1e-2).all()
        need(kind.setdefault(lay[i], cub) == cub, "basal layer %d is partly faulted", lay[i])
    L = sorted(kind)
    cubic = [x for x in L if kind[x]]
    ctx.hit(bool(cubic))
    need(len(cubic) <= c["N"], "cubic layers %s for %d faults", cubic, c["N"])
    src = vol.from_volume(generator=gen)
    src.populate_atoms()
    so, ss = np.asarray(src.atoms), np.asarray(src.species)
    if c["N"] == 0:
        g.match(at, sp, so, ss, 1e-3, "atoms without faults")
    visible = c["v"][0] in ("box", "sphere", "plane box") and m >= 4
    ctx.label(c["v"][0], "N%d" % c["N"], "visible" if visible else "partly visible", "m%s" % c["m"])
    if visible and c["N"]:
        need(len(cubic) == c["N"], "%d faults (cubic layers %s), %d requested", len(cubic), cubic, c["N"])
        need(all(y - x >= m for x, y in zip(cubic, cubic[1:])), "fault layers %s, %d planes apart requested", cubic, m)
        # which layers move: those up to the fault plane; the cubic layer is at or next to it
        H, HS = (at - o) @ n / d, (so - o) @ n / d
        top = cubic[-1]
        up, upo = H > top + 1.2, HS > top + 1.2
        g.match(at[up], sp[up], so[upo], ss[upo], 1e-3, "atoms above the topmost fault")
        need(up.any(), "no atoms above the topmost fault")
        tr = cKDTree(np.column_stack([so, ss * 1e4]))
        low = (H < top - 1.2) & (H > (cubic[-2] + 1.2 if len(cubic) > 1 else -np.inf)) & (g.vol_margin(spec, at) > 0.3)
        if len(np.unique(np.round(H[low & (sp == M)]))) >= 2:
            off = tr.query(np.column_stack([at[low], sp[low] * 1e4]))[0]
            need((off > 0.1).any(), "atoms below the topmost fault are those of the original crystal")


PARTS = [Part("faults", case, run, quick=700, thorough=10000, shards=8)]
