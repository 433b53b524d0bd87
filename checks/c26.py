import contextlib, io, itertools
import numpy as np
from hypothesis import strategies as st
from scipy.spatial import ConvexHull
from pbt import Part, need
import c20, c25, objs
import geom as g

ID = "C26"
RULE = ("Molecules of 1-6 (sometimes up to 24) atoms (any orientation matrix, origin, direction vector, rotation) on populated volumes and multi-volumes of fcc/bcc/rocksalt/diamond/random crystals, with up to three filters of all kinds and any seed: rigid copy with "
        "handedness, bond length, direction along the bond, target on the surface by the empty-sphere bound and within all filters, success iff no atom is inside, repeatability, rotation about the bond, nothing modified. Non-trivial: a placement "
        "with at least two atoms and a filter or a rotation.")
ASSUMPTIONS = ["Filters that leave no surface atom may raise an exception; this is only accepted when no certain surface atom (hull corner) passes them.",
               "On the convex hull of the crystal the placement must point away from it of a single volume (more than 45 degrees from the line to every other atom).", "Atoms within 2e-6 of the volume's boundary may count either way."]

XT = dict(fcc=[[79, [0, 0, 0]], [79, [.5, .5, 0]], [79, [.5, 0, .5]], [79, [0, .5, .5]]], bcc=[[26, [0, 0, 0]], [26, [.5, .5, .5]]],
          b2=[[55, [0, 0, 0]], [17, [.5, .5, .5]]],
          nacl=[[11, [0, 0, 0]], [11, [.5, .5, 0]], [11, [.5, 0, .5]], [11, [0, .5, .5]], [17, [.5, 0, 0]], [17, [0, .5, 0]], [17, [0, 0, .5]], [17, [.5, .5, .5]]])
A0 = dict(fcc=3.6, bcc=2.8, b2=3.4, nacl=4.4)
SYM = {79: "Au", 26: "Fe", 55: "Cs", 17: "Cl", 11: "Na"}


def xtal():
    return st.tuples(st.sampled_from(sorted(XT)), g.pick(st.none(), g.vec(-3, 3)), st.lists(g.isometry(0), max_size=2)).map(
        lambda t: dict(name=t[0], lat=[A0[t[0]]] * 3 + [90.0] * 3, b=XT[t[0]], o=t[1], tr=t[2]))


def box(l):
    return st.fixed_dictionaries(dict(v=g.pick(
        st.tuples(g.vec(5, 12), g.vec(-5, 5)).map(lambda t: dict(pts=[[float(c + s * h / 2) for c, s, h in zip(t[1], k, t[0])] for k in itertools.product((-1, 1), repeat=3)], alg=[])),
        st.tuples(g.num(3.5, 7), g.vec(-5, 5)).map(lambda t: dict(pts=None, alg=[dict(k="sphere", c=t[1], r=t[0], tol=None)])),
        objs.vols()), g=xtal(), go=st.none(), pr=st.integers(0, 3)))


tree = g.pick(box(0), box(0), box(0), st.lists(box(0), min_size=2, max_size=2).map(lambda m: dict(m=m, pr=0)))
mol = st.fixed_dictionaries(dict(p=g.pick(*[st.lists(g.vec(-2, 2), min_size=1, max_size=6, unique_by=tuple)] * 4 + [st.lists(g.vec(-6, 6), min_size=7, max_size=24, unique_by=tuple)]), z=st.lists(st.integers(1, 118), min_size=24, max_size=24), o=g.pick(st.none(), g.vec(-4, 4), st.just(0)),
                                 R=g.pick(st.none(), st.tuples(g.direction(), g.angle())), at=g.vec(-8, 8)))
half = st.tuples(g.direction(False), g.num(-3, 3))
filt = g.pick(st.fixed_dictionaries(dict(k=st.just("element"), v=st.lists(st.sampled_from([79, 26, 55, 17, 11, 8]), min_size=1, max_size=3), sym=st.booleans())),
              st.fixed_dictionaries(dict(k=st.just("mask"), d=half)),
              st.fixed_dictionaries(dict(k=st.just("indices"), off=st.integers(0, 5), step=st.integers(1, 4), how=st.sampled_from(["list", "array"]))),
              st.fixed_dictionaries(dict(k=st.just("indices"), hull=st.integers(0, 9))),
              st.fixed_dictionaries(dict(k=st.just("spatial"), d=half)))
case = st.fixed_dictionaries(dict(t=tree, mol=mol, idx=g.pick(st.integers(0, 5), st.integers(0, 5), st.integers(0, 23)), L=g.pick(g.num(1, 3), g.num(0.3, 6)), vec=g.pick(st.none(), g.direction()), rot=g.pick(st.just(0.0), g.angle()), rot2=g.angle(), probe=g.pick(st.none(), g.num(1.2, 2.2)),
                                  f=st.lists(filt, max_size=3), seed=g.pick(st.integers(0, 2**31), st.integers(0, 5), st.none()), smp=st.sampled_from([True, True, True, False]), np=st.integers(0, 2**31),
                                  sh=g.pick(st.none(), st.integers(1, 4)), so=st.sampled_from([None, None, True, False])))


def build_mol(m):
    from czone.molecule.molecule import Molecule
    p = np.array(m["p"]) + np.array(m["at"])
    kw = {} if m["o"] is None else dict(origin=m["o"] if isinstance(m["o"], int) else np.array(m["o"]))
    if m["R"] is not None:
        kw["orientation"] = g.rodrigues(*m["R"])
    r = Molecule(m["z"][:len(p)], p, **kw)
    r.print_warnings = False
    return r


def filters(c, vol, hull):
    """The filters as given to the code, and the atoms that satisfy all of them."""
    x, z = vol.atoms, vol.species
    d, ok = {}, np.ones(len(x), bool)
    ctr = x.mean(0)
    for i, f in enumerate(c["f"]):
        key = f["k"] + ["", "_2", "C"][i]
        if f["k"] == "element":
            v = [SYM.get(e, "O") if f["sym"] else e for e in f["v"]]
            ok &= np.isin(z, f["v"])
        elif f["k"] == "indices":
            v = [hull[f["hull"] % len(hull)]] if "hull" in f else list(range(f["off"] % len(x), len(x), f["step"]))
            if f.get("how") == "array":
                v = np.array(v)
            k = np.zeros(len(x), bool)
            k[v] = True
            ok &= k
        else:
            n, h = g.unit(f["d"][0]), f["d"][1] / 3 * np.ptp(x) / 2
            k = (x - ctr) @ n > h
            v = k.copy() if f["k"] == "mask" else (lambda p, n=n, h=h: (p - ctr) @ n > h)
            ok &= k
        d[key] = v
    return d, ok


def run(c, ctx):
    from czone.surface.adsorbate import add_adsorbate
    o = objs.Ob(c["t"])
    o.ob.populate_atoms()
    x = o.ob.atoms
    if x is None or not 12 <= len(x) <= 300 or np.linalg.svd(x - x.mean(0))[1][2] < 2.5 or not g.unique_pts(x, 0.5):
        return
    x = x.copy()
    mol = build_mol(c["mol"])
    idx = c["idx"] % len(mol.atoms)
    e = ConvexHull(x).equations
    dist = x @ e[:, :3].T + e[:, 3]
    corners = [i for i in range(len(x)) if np.linalg.matrix_rank(e[np.abs(dist[i]) < 1e-6][:, :3], tol=1e-3) == 3]
    fl, allowed = filters(c, o.ob, corners)
    fl0 = {k: (np.array(v).copy() if not callable(v) else v) for k, v in fl.items()}
    a0 = A0[c["t"]["g"]["name"] if "g" in c["t"] else c["t"]["m"][0]["g"]["name"]]
    probe = 2.5 if c["probe"] is None else round(c["probe"] * a0, 3)
    kw = dict(mol=mol, adsorbate_idx=idx, bond_length=c["L"], volume=o.ob, use_sampling=c["smp"])
    mv = np.array([0.0, 0, 1]) if c["vec"] is None else np.array(c["vec"])
    if c["vec"] is not None:
        kw["mol_vector"] = mv
    if c["probe"] is not None:
        kw["probe_radius"] = probe
    if fl:
        kw["filters"] = fl
    if c["seed"] is not None:
        kw["seed"] = c["seed"]
    if c["sh"] is not None:
        kw["N_shells"] = c["sh"]
    if c["so"] is not None:
        kw["surface_only"] = c["so"]
    s0, v0 = c20.snap(mol), c20.snap(o.ob)

    def call(rot, debug):
        np.random.seed(c["np"] % 2**32)
        with contextlib.redirect_stdout(io.StringIO()):
            r = add_adsorbate(mol_rotation=rot, debug=debug, **kw) if rot or debug else add_adsorbate(**kw)
        d = c20.diff(s0, c20.snap(mol)) or c20.diff(v0, c20.snap(o.ob))
        need(d is None, "molecule or volume changed: %s", d)
        need(set(fl) == set(fl0) and all(callable(v) or np.array_equal(v, fl0[k]) for k, v in fl.items()), "filters changed")
        return r
    ok = c25.certain(x, probe)[0]
    sure = [i for i in corners if ok[i] and allowed[i]]
    try:
        out, good = call(c["rot"], False)
    except ValueError:
        need(not sure, "no atom found, although the corner at %s of the crystal passes all filters %s", x[sure[0]].tolist() if sure else "", sorted(fl))
        ctx.label("no atom left")
        return
    need(good is True or good is False or isinstance(good, np.bool_), "success flag is %r", good)
    dbg = call(c["rot"], True)
    od, ti = dbg[0], dbg[1]
    need(np.allclose(od.atoms, out.atoms, rtol=0, atol=1e-9), "same seed, different placement")
    # rigid copy
    m0, p = s0["x"], np.asarray(out.atoms)
    need(out is not mol and type(out) is type(mol), "result is not a new molecule")
    need(p.shape == m0.shape and np.array_equal(out.species, s0["z"]), "atoms or species of the molecule changed")
    tol = 1e-6 * (1 + np.abs(p).max() + np.abs(m0).max())
    a, b = m0 - m0[idx], p - p[idx]
    need(np.allclose(a @ a.T, b @ b.T, rtol=0, atol=10 * tol), "molecule is deformed")
    # bond
    need(isinstance(ti, (int, np.integer)) and 0 <= ti < len(x), "target index %r", ti)
    w = (p[idx] - x[ti]) / c["L"]
    need(abs(np.linalg.norm(w) - 1) < 1e-6, "bond length %.6f instead of %s", np.linalg.norm(w) * c["L"], c["L"])
    m = g.unit(s0["R"] @ mv)
    need(np.allclose(a @ m, b @ w, rtol=0, atol=10 * tol), "direction %s of the molecule is not along the bond", mv.tolist())
    for i, j in itertools.combinations(range(len(a)), 2):
        need(abs(np.linalg.det([a[i], a[j], m]) - np.linalg.det([b[i], b[j], w])) < 100 * tol, "molecule is mirrored")
    need(np.allclose(out.origin, p[idx], rtol=0, atol=tol), "origin of the adsorbate is not its bonding atom")
    # target
    need(allowed[ti], "atom %d at %s, species %s does not pass all filters %s", ti, x[ti].tolist(), o.ob.species[ti], {k: v for k, v in c.items() if k == "f"})
    touch = c25.reach(x)
    need(touch[ti] > 0.98 * probe, "target at %s is not on the surface (largest empty sphere %.4g, probe %s)", x[ti].tolist(), touch[ti], probe)
    if ti in corners and c["sh"] is None and ok[ti] and "m" not in c["t"]:
        u = np.delete(x, ti, axis=0) - x[ti]
        need((u @ w / np.linalg.norm(u, axis=1)).max() < 0.7, "adsorbate on a corner points into the crystal")
    # success
    inn, bd = o.margin(p)
    if (bd > 2e-6 * (1 + np.abs(p).max())).all():
        need(bool(good) == (not (inn > 0).any()), "success reported as %s with %d atoms inside of the volume", good, (inn > 0).sum())
    # rotation about the bond
    o2 = call(c["rot2"], False)[0]
    want = p[idx] + b @ g.rodrigues(w, c["rot2"] - c["rot"]).T
    need(np.allclose(o2.atoms, want, rtol=0, atol=10 * tol), "rotation by %s instead of %s does not turn the molecule about the bond", c["rot2"], c["rot"])
    # independence of the copy
    out.update_positions(out.atoms + 1.0)
    need(c20.diff(s0, c20.snap(mol)) is None, "result shares data with the molecule given")
    ctx.label("ok" if good else "collision", "corner" if ti in corners else "hull" if np.isinf(touch[ti]) else "hollow", "atoms:%d" % min(len(a), 4), *[f["k"] for f in c["f"]])
    ctx.hit(len(a) > 1 and (len(fl) > 0 or c["rot"] != 0))


PARTS = [Part("placement", case, run, quick=500, thorough=8000, shards=8)]
