import itertools, json, os
import numpy as np
from hypothesis import strategies as st
from pbt import Part, need
import geom as g, objs
from c17 import strain, build as build_strain, model as strain_model

ID = "C28"
RULE = ("A case is a crystal to construct: a unit cell given explicitly, or a space group (any of the 230 by number, standard symbol, full symbol or symbol of another setting) with a lattice compatible with it and one to "
        "three sites in general or special position; plus an origin, a strain field, or a history of structure replacements and moves. The unit cell is compared with the orbit under the group's operations "
        "taken from the table of spglib, and the supplied atoms with an enumeration of the infinite crystal. Non-trivial: the crystal has more than one atom per cell, a non-orthogonal lattice, or extra options.")
TAB = json.load(open(os.path.join(os.path.dirname(os.path.abspath(g.__file__)), "settings.json")))
STD = {int(k): tuple(v) for k, v in TAB["std"].items()}
ALT = sorted(TAB["alt"].items())
_ops = {}


def ops(hall):
    if hall not in _ops:
        import spglib
        d = spglib.get_symmetry_from_database(hall)
        _ops[hall] = np.array(d["rotations"], float), np.array(d["translations"], float)
    return _ops[hall]


def group_lattice(hall, d, o):
    """Lattice parameters compatible with the group: a metric averaged over its point group."""
    A = np.diag(d) + np.array(o, float).reshape(3, 3)
    G = np.mean([R.T @ (A.T @ A) @ R for R in ops(hall)[0]], axis=0)
    n = np.sqrt(np.diag(G))
    ang = [90.0 if abs(G[i, j]) < 1e-9 else float(np.degrees(np.arccos(G[i, j] / n[i] / n[j]))) for i, j in ((1, 2), (0, 2), (0, 1))]
    if abs(ang[2] - 120) < 1e-9:
        ang[2] = 120.0
    n = [float(x) for x in n]
    for i, j in ((0, 1), (0, 2), (1, 2)):
        if abs(n[i] - n[j]) < 1e-9:
            n[j] = n[i]
    return n + ang


def wrapdist(B, a, b):
    d = np.asarray(a)[:, None] - np.asarray(b)[None]
    d = d - np.round(d)
    best = None
    for s in itertools.product((-1, 0, 1), repeat=3):
        x = np.linalg.norm((d + np.array(s)) @ B.T, axis=-1)
        best = x if best is None else np.minimum(best, x)
    return best


def orbit(hall, x):
    R, t = ops(hall)
    p = (R @ np.array(x, float)) + t
    p = p - np.floor(p)
    out = []
    for q in p:
        d = np.array(out).reshape(-1, 3) - q
        if not np.any(np.all(np.abs(d - np.round(d)) < 1e-6, axis=1)):
            out.append(q)
    return np.array(out)


def metric(l):
    a, b, c = l[:3]
    ca, cb, cg = np.cos(np.radians(l[3:]))
    return np.array([[a * a, a * b * cg, a * c * cb], [a * b * cg, b * b, b * c * ca], [a * c * cb, b * c * ca, c * c]])


def check_cell(gen, lat, Z, f, what, order=True):
    """Lattice and content of the unit cell."""
    B = np.asarray(gen.voxel.sbases, float)
    need(np.allclose(B.T @ B, metric(lat), atol=1e-6 * max(lat[:3]) ** 2), "%s: lattice vectors %s do not have parameters %s", what, B.T.tolist(), lat)
    need(np.linalg.det(B) > 0, "%s: left-handed lattice", what)
    need(np.allclose(np.asarray(gen.lattice.matrix, float).T, B, atol=1e-9), "%s: lattice and voxel differ", what)
    s, x = np.asarray(gen.species, float), np.asarray(gen.coords, float).reshape(-1, 3)
    need(len(s) == len(x) == len(Z), "%s: %d atoms (%d species) in the cell, expected %d", what, len(x), len(s), len(Z))
    if order:
        need(np.array_equal(s, np.asarray(Z, float)) and np.allclose(x, f, atol=1e-9), "%s: cell content %s %s", what, s.tolist(), x.tolist())
    else:
        d = wrapdist(B, x, f)
        need(np.all(d.min(0) < 1e-3), "%s: site %s of the orbit is missing", what, f[int(d.min(0).argmax())].tolist())
        need(np.all(d.min(1) < 1e-3), "%s: atom %s is not in the orbit", what, x[int(d.min(1).argmax())].tolist())
        need(np.array_equal(s, np.asarray(Z, float)[d.argmin(1)]), "%s: wrong species in the cell", what)


def check_supply(gen, B, o, f, Z, s, region, what):
    m = (B, o, np.asarray(f, float), np.asarray(Z, float))
    region = np.asarray(region, float)
    c, z = gen.supply_atoms(region)
    c, z = g.as_pts(c, what=what), np.asarray(z, float)
    need(z.shape == (len(c),), "%s: species shape %s", what, z.shape)
    exp, es = g.sites(m, region, pad=-1e-6)
    if s is not None:
        plain = gen.from_generator()
        plain._strain_field = None
        c0, z0 = plain.supply_atoms(region)
        g.match(c, z, strain_model(s, c0, m), z0, 1e-4, what + " with strain")
        c, z = c0, z0
    g.contains(exp, es, c, z, 1e-4, what + ": missing atom")
    bad = np.nonzero(g.on_lattice(m, c, z, 1e-4) < 0)[0]
    need(len(bad) == 0, "%s: supplied atom %s is not in the crystal", what, c[bad[0]].tolist() if len(bad) else None)
    need(g.unique_pts(c, 1e-3), "%s: an atom is supplied twice", what)
    return len(exp)


REGION = g.vec(-6, 6).map(lambda p: (np.array(p) + np.array(list(itertools.product((-3.1, 2.7), (-2.2, 3.3), (-2.9, 2.6))))).round(4).tolist())
orig = g.pick(st.none(), g.vec(-9, 9))
how = st.sampled_from(["list", "array", "tuple"])


def as_(k, x):
    return np.array(x) if k == "array" else tuple(tuple(r) if isinstance(r, list) else r for r in x) if k == "tuple" else x


def fin(l):
    return st.fixed_dictionaries(dict(lat=st.just(l), b=g.basis(l, 4), int=st.sampled_from([False, False, True]), o=orig, s=g.pick(st.none(), strain), how=st.lists(how, min_size=4, max_size=4), r=REGION))


cell_case = g.lattice().flatmap(fin)


def run_cell(c, ctx):
    from czone.generator import Generator
    Z, f = [x[0] for x in c["b"]], [list(x[1]) for x in c["b"]]
    if c["int"]:
        Z, f = Z[:1], [[int(np.round(v)) for v in f[0]]]
    kw = {}
    if c["o"] is not None:
        kw["origin"] = np.array(c["o"])
    if c["s"] is not None:
        kw["strain_field"] = build_strain(c["s"])
    h = c["how"]
    gen = Generator.from_unit_cell(as_(h[0], Z), as_(h[1], f), as_(h[2], c["lat"][:3]), as_(h[3], c["lat"][3:]), **kw)
    o = np.zeros(3) if c["o"] is None else np.array(c["o"], float)
    need(np.allclose(gen.origin, o), "origin is %s, not %s", np.asarray(gen.origin).tolist(), o.tolist())
    check_cell(gen, c["lat"], Z, np.array(f, float), "unit cell")
    need((gen.strain_field is None) == (c["s"] is None), "strain field %s", gen.strain_field)
    B = np.asarray(gen.voxel.sbases, float)
    n = check_supply(gen, B, o, f, Z, c["s"], c["r"], "supply")
    from pymatgen.core import Structure, Lattice
    other = Generator(structure=Structure(Lattice.from_parameters(*c["lat"]), Z, f), **kw)
    check_cell(other, c["lat"], Z, np.array(f, float), "from structure")
    need(np.allclose(other.voxel.sbases, B), "constructors place the lattice differently")
    ctx.label("strained" if c["s"] else "plain", "origin" if c["o"] else "no origin", "integer" if c["int"] else "n=%d" % len(Z))
    ctx.hit(n > 0 and (len(Z) > 1 or c["lat"][3:] != [90.0] * 3 or bool(kw)))


SPECIAL = [0.0, 0.5, 0.25, 0.75, 1 / 3, 2 / 3, 0.125, 1 / 6]
sitec = g.pick(st.lists(st.sampled_from(SPECIAL), min_size=3, max_size=3), g.num(0.01, 0.99, 3).map(lambda u: [u, u, u]), st.tuples(g.num(0.01, 0.99, 3), st.sampled_from(SPECIAL)).map(lambda t: [t[0], t[1], t[1]]),
               st.tuples(g.num(0.01, 0.99, 3), st.sampled_from(SPECIAL)).map(lambda t: [t[1], t[1], t[0]]), g.vec(0.01, 0.99, 3), g.vec(-1.3, 2.3, 3))
common = dict(d=g.vec(5.0, 9.0, 3), o=st.lists(g.num(-1.2, 1.2, 3), min_size=9, max_size=9), sites=st.lists(st.tuples(st.sampled_from([1, 6, 8, 14, 79, 92]), sitec).map(list), min_size=1, max_size=3), origin=orig,
              s=g.pick(st.none(), st.none(), strain), r=REGION)
group_case = g.pick(
    st.fixed_dictionaries(dict(common, sgn=st.integers(1, 230), way=st.sampled_from(["sgn", "sym", "full", "both", "spaced"]), other=st.integers(1, 230))),
    st.fixed_dictionaries(dict(common, sgn=st.sampled_from([2, 14, 62, 166, 160, 194, 186, 225, 227, 216, 229, 136, 141, 205]), way=st.sampled_from(["sgn", "sym", "full", "both"]), other=st.integers(1, 230))),
    st.fixed_dictionaries(dict(common, alt=st.integers(0, len(ALT) - 1), way=st.just("alt"))))


def run_group(c, ctx):
    from czone.generator import Generator
    from pymatgen.symmetry.groups import SpaceGroup
    if c["way"] == "alt":
        name, hall = ALT[c["alt"]]
        kw = dict(sym=name)
        what = "symbol " + name
    else:
        name, hall = STD[c["sgn"]]
        if c["way"] == "sgn":
            kw = dict(sgn=c["sgn"])
        elif c["way"] == "both":
            kw = dict(sgn=c["sgn"], sym=STD[c["other"]][0])
        elif c["way"] == "full":
            kw = dict(sym=next((k for k, v in sorted(SpaceGroup.abbrev_sg_mapping.items()) if v == name), name))
        elif c["way"] == "spaced":
            kw = dict(sym=name[0] + " " + name[1:])
        else:
            kw = dict(sym=name)
        what = "group %s" % kw
    lat = group_lattice(hall, c["d"], c["o"])
    B0 = g.lat_matrix(lat)
    orbs, Z, f = [], [], []
    for z, x in c["sites"]:
        p = orbit(hall, x)
        dd = wrapdist(B0, p, p) + 10 * np.eye(len(p))
        if dd.min() < 0.4 or (f and wrapdist(B0, p, np.array(f)).min() < 0.4):
            continue
        orbs.append((z, x))
        Z += [z] * len(p)
        f += p.tolist()
    if not orbs or len(Z) > 400:
        ctx.label("no usable site")
        return
    f = np.array(f)
    if c["origin"] is not None:
        kw["origin"] = np.array(c["origin"])
    if c["s"] is not None:
        kw["strain_field"] = build_strain(c["s"])
    gen = Generator.from_spacegroup([z for z, _ in orbs], np.array([x for _, x in orbs]), lat[:3], lat[3:], **kw)
    o = np.zeros(3) if c["origin"] is None else np.array(c["origin"], float)
    need(np.allclose(gen.origin, o), "%s: origin is %s, not %s", what, np.asarray(gen.origin).tolist(), o.tolist())
    need((gen.strain_field is None) == (c["s"] is None), "%s: strain field %s", what, gen.strain_field)
    check_cell(gen, lat, Z, f, what, order=False)
    B = np.asarray(gen.voxel.sbases, float)
    n = check_supply(gen, B, o, f, Z, c["s"], c["r"], what)
    ctx.label(c["way"], "sites=%d" % len(orbs), "special" if any(len(orbit(hall, x)) < len(ops(hall)[0]) for _, x in orbs) else "general")
    ctx.hit(len(Z) > 1)


sop = g.pick(g.crystal(3).map(lambda s: ["structure", s]), g.crystal(3).map(lambda s: ["structure", s]), objs.flag(g.isometry(1)).map(lambda t: ["transform", t]), g.vec(-9, 9).map(lambda v: ["origin", v]),
             st.sampled_from([1.2, [1.1, 0.9, 1.3]]).map(lambda s: ["scale", s]))
struct_case = st.fixed_dictionaries(dict(g=g.pick(g.crystal(3), st.none()), o=g.vec(-9, 9), ops=st.lists(sop, min_size=1, max_size=5), s=g.pick(st.none(), st.none(), strain), r=REGION))


def run_struct(c, ctx):
    """Histories of replaced structures."""
    from czone.generator import Generator
    from pymatgen.core import Structure, Lattice
    mk = lambda s: Structure(Lattice.from_parameters(*s["lat"]), [x[0] for x in s["b"]], [x[1] for x in s["b"]])
    late = c["g"] is None
    if late:   # origin first, structure later
        gen = Generator(origin=np.array(c["o"]))
        B, o, f, Z = None, np.array(c["o"], float), None, None
    else:
        gen = g.build_gen(c["g"])
        B, o, f, Z = g.gen_model(c["g"])
    n = 0
    for k, a in c["ops"]:
        if B is None and k not in ("structure", "origin"):
            continue
        if k == "structure":
            gen.structure = mk(a)
            B, f, Z = g.lat_matrix(a["lat"]), np.array([x[1] for x in a["b"]], float), np.array([x[0] for x in a["b"]], float)
            check_cell(gen, a["lat"], Z, f, "replaced structure")
            n += 1
        elif k == "origin":
            gen.origin = np.array(a)
            o = np.array(a, float)
        elif k == "scale":
            gen.voxel.scale = np.array(a)
            B = B / (np.linalg.norm(B, axis=0) / np.linalg.norm(np.asarray(gen.voxel.bases, float), axis=0)) * np.array(a)
        else:
            gen.transform(g.build_t(a, **{}))
            gm = objs.GM.__new__(objs.GM)
            gm.B, gm.o = B, o
            gm.apply(a)
            B, o = gm.B, gm.o
        if B is not None:
            need(np.allclose(gen.voxel.sbases, B, atol=1e-7), "after %s: basis %s, expected %s", k, np.asarray(gen.voxel.sbases).tolist(), B.tolist())
        need(np.allclose(gen.origin, o, atol=1e-6), "after %s: origin %s, expected %s", k, np.asarray(gen.origin).tolist(), o.tolist())
    if B is None:
        return
    if c["s"] is not None:
        gen.strain_field = build_strain(c["s"])
    k = check_supply(gen, B, o, f, Z, c["s"], c["r"], "supply")
    ctx.label("replaced %d" % n, "late" if late else "from cell")
    ctx.hit(k > 0 and n > 0)


PARTS = [Part("cell", cell_case, run_cell, quick=400), Part("group", group_case, run_group, quick=500, shards=8), Part("structure", struct_case, run_struct, quick=250)]
