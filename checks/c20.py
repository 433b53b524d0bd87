import copy, warnings
import numpy as np
from hypothesis import strategies as st
from pbt import Part, need
import geom as g, objs
from objs import Ob
from c17 import strain, build as build_strain

ID = "C20"
RULE = ("A case is an object (volume, nested multi-volume, generator, surface or molecule) and a history of derivations (plain, transformed, with replacements) and edits (methods, setters and in-place "
        "changes of held arrays, at any depth, population) on any of the objects existing so far. Every object not edited must look exactly as before (all parameters, interiority at probe points, atoms "
        "held and supplied); every copy must look like its source apart from what was requested. Non-trivial: a copy was made and then an edit changed one object of its family.")

Q = np.random.default_rng(5).uniform(-9, 9, (40, 3))
BOX = np.array([[x, y, z] for x in (-3, 3) for y in (-2, 3) for z in (-3, 1.5)], float)


def arr(a):
    return None if a is None else np.array(a, copy=True)


def snap(o):
    """Everything observable of an object, as nested plain data (without populating it)."""
    from czone.volume import Volume, MultiVolume, Sphere, Plane, Cylinder
    from czone.molecule.molecule import BaseMolecule
    from czone.generator import Generator, AmorphousGenerator, NullGenerator
    if isinstance(o, MultiVolume):
        return dict(k="multi", priority=o.priority, kids=[snap(v) for v in o.volumes], atoms=arr(getattr(o, "_atoms", None)), species=arr(getattr(o, "_species", None)),
                    inside=arr(o.checkIfInterior(Q)))
    if isinstance(o, Volume):
        return dict(k="volume", priority=o.priority, tolerance=o.tolerance, points=arr(o.points), alg=[snap(a) for a in o.alg_objects], generator=None if o.generator is None else snap(o.generator),
                    atoms=arr(o.atoms), species=arr(getattr(o, "_species", None)), inside=arr(o.checkIfInterior(Q)), box=arr(o.get_bounding_box()))
    if isinstance(o, Sphere):
        return dict(k="sphere", r=float(o.radius), c=arr(o.center), tol=o.tol)
    if isinstance(o, Plane):
        return dict(k="plane", n=arr(o.normal), p=arr(o.point), tol=o.tol)
    if isinstance(o, Cylinder):
        return dict(k="cylinder", a=arr(o.axis), p=arr(o.point), r=float(o.radius), l=float(o.length), tol=o.tol)
    if isinstance(o, NullGenerator):
        return dict(k="null")
    if isinstance(o, AmorphousGenerator):
        return dict(k="amorphous", o=arr(o.origin), z=o.species, d=o.density, m=o.min_dist, use=o.use_old_result, old=None if o.old_result is None else [arr(o.old_result[0]), arr(o.old_result[1])])
    if isinstance(o, Generator):
        d = dict(k="crystal", o=arr(o.origin), b=arr(o.voxel.bases), s=arr(o.voxel.scale), z=list(o.species), f=arr(o.coords), lat=arr(o.structure.lattice.matrix), post=type(o.post_transform).__name__)
        if np.prod(np.ptp(np.linalg.solve(o.voxel.sbases, (BOX - o.origin).T).T, axis=0) + 3) * len(d["z"]) < 4000:
            x, s = o.supply_atoms(BOX)
            d.update(x=arr(x), xs=arr(s))
        if o.strain_field is not None:
            d.update(strain=type(o.strain_field).__name__, m=arr(o.strain_field.matrix) if hasattr(o.strain_field, "matrix") else None, mode=o.strain_field.mode)
        return d
    assert isinstance(o, BaseMolecule)
    return dict(k="molecule", x=arr(o.atoms), z=arr(o.species), o=arr(o.origin), tr=bool(o._origin_tracking), R=arr(o.orientation), priority=o.priority, w=o.print_warnings)


def diff(a, b, tol=0.0, skip=(), path=""):
    """First difference of two snapshots (None if equal)."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k in skip:
                continue
            if k not in a or k not in b:
                if tol and k in ("x", "xs"):
                    continue
                return path + "." + k
            d = diff(a[k], b[k], tol, skip, path + "." + k)
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return path + " length"
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, tol, skip, path + "[%d]" % i)
            if d:
                return d
        return None
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape:
            return path + " shape"
        if a.dtype == bool or not tol:
            return None if np.array_equal(a, b) else path
        return None if np.abs(a - b).max(initial=0) <= tol * (1 + np.abs(a).max(initial=0)) else path
    if isinstance(a, float) and isinstance(b, float) and tol:
        return None if abs(a - b) <= tol * (1 + abs(a)) else path
    return None if type(a) is type(b) and a == b else path


def flat(o):
    from czone.volume import MultiVolume
    return [x for v in o.volumes for x in flat(v)] if isinstance(o, MultiVolume) else [o]


def nested(o):
    from czone.volume import MultiVolume
    return [o] + [x for v in o.volumes for x in nested(v)] if isinstance(o, MultiVolume) else [o]


# ---------------------------------------------------------------- edits

E_SURF = g.pick(st.tuples(st.sampled_from(["tol", "radius", "center", "normal", "array"]), g.vec(0.5, 4)).map(list))
E_GEN = g.pick(objs.flag(g.isometry(1)).map(lambda t: ["transform", t]), g.vec(-6, 6).map(lambda v: ["origin", v]), st.sampled_from([0.5, 1.3, [1.1, 1.2, 0.8]]).map(lambda s: ["scale", s]),
               strain.map(lambda s: ["strain", s]), st.just(["array bases"]), st.just(["array origin"]), st.just(["post"]), st.just(["structure"]), st.just(["strain edit"]), st.just(["result"]), st.just(["attribute"]))
E_VOL = g.pick(objs.flag(g.isometry(1)).map(lambda t: ["transform", t]), objs.flag(g.isometry(1)).map(lambda t: ["transform leaf", t]), g.surface(g.vec(-3, 3)).map(lambda s: ["alg", s]), g.vec(-6, 6).map(lambda v: ["points", v]),
               g.crystal(2).map(lambda c: ["generator", c]), st.integers(-9, 9).map(lambda i: ["priority", i]), st.integers(-9, 9).map(lambda i: ["leaf priority", i]), st.just(["populate"]), st.just(["populate"]),
               st.sampled_from([1e-6, 1e-3]).map(lambda t: ["tolerance", t]), E_GEN.map(lambda e: ["gen edit", e]), E_SURF.map(lambda e: ["surf edit", e]), st.just(["array points"]), st.just(["array atoms"]),
               st.just(["drop member"]), st.just(["drop surface"]))
E_MOL = g.pick(g.isometry(1).map(lambda t: ["transform", t]), g.vec(-6, 6).map(lambda v: ["move", v]), st.integers(1, 94).map(lambda z: ["species", z]), st.just(["remove"]), g.vec(-6, 6).map(lambda v: ["origin", v]),
               st.just(["track"]), st.integers(-9, 9).map(lambda i: ["priority", i]), st.just(["array atoms"]), st.just(["array species"]), st.just(["orientation"]))


def edit_surf(s, e):
    k, v = e
    if k == "tol":
        s.tol = v[0] / 100
    elif k == "radius" and hasattr(s, "radius"):
        s.radius = v[0]
    elif k in ("center", "normal") and hasattr(s, "center"):
        s.center = np.array(v)
    elif k in ("center", "radius") and hasattr(s, "point"):
        s.point = np.array(v)
    elif k == "normal" and hasattr(s, "normal"):
        s.normal = np.array(v)
    elif k == "normal" and hasattr(s, "axis"):
        s.axis = np.array(v)
    elif k == "array":
        a = s.center if hasattr(s, "center") else s.point
        a += 0.5


def edit_gen(o, e):
    from czone.generator import Generator, AmorphousGenerator, NullGenerator
    from czone.transform.post import ChemicalSubstitution
    from pymatgen.core import Structure, Lattice
    if isinstance(o, NullGenerator):
        return
    k = e[0]
    if k == "transform":
        o.transform(g.build_t(e[1]))
    elif k == "origin":
        o.origin = np.array(e[1])
    elif k == "array origin" and o.origin is not None:
        if np.issubdtype(o.origin.dtype, np.floating):
            o.origin[0] += 0.75
    elif isinstance(o, AmorphousGenerator):
        if k == "result" and o.old_result is not None:
            o.old_result[0][:] += 1.0
        elif k == "attribute":
            o.species, o.density, o.min_dist, o.use_old_result = 14, o.density * 1.1, o.min_dist * 0.9, not o.use_old_result
        elif k in ("structure", "post", "strain edit", "array bases"):
            if np.prod(np.ptp(BOX, axis=0)) * o.density < 200:
                o.supply_atoms(BOX)
    elif k == "scale":
        o.voxel.scale = np.array(e[1]) if isinstance(e[1], list) else np.array([e[1]])
    elif k == "strain":
        o.strain_field = build_strain(e[1])
    elif k == "array bases":
        o.voxel.bases[:] *= 1.125
    elif k == "post":
        z = sorted(set(o.species))
        o.post_transform = ChemicalSubstitution(z, [x + 1 for x in z], 1.0)
    elif k == "structure":
        o.structure = Structure(Lattice.from_parameters(3.1, 3.4, 3.3, 90, 90, 95), [22], [[0.1, 0.2, 0.3]])
    elif k == "strain edit" and o.strain_field is not None:
        if hasattr(o.strain_field, "matrix"):
            o.strain_field.matrix = np.array([1.2, 1.0, 0.9])
        o.strain_field.mode = "standard"
    elif k == "attribute":
        o.structure[0] = o.structure[0].specie, [0.37, 0.41, 0.43]


def edit_vol(o, e, who):
    from czone.volume import MultiVolume
    k = e[0]
    leaf = flat(o)
    leaf = leaf[who % len(leaf)]
    if k == "transform":
        o.transform(g.build_t(e[1]))
    elif k == "transform leaf":
        leaf.transform(g.build_t(e[1]))
    elif k == "alg":
        leaf.add_alg_object(g.build_surface(e[1]))
    elif k == "points" and leaf.points is not None:
        leaf.addPoints(np.array(e[1]))
    elif k == "generator":
        leaf.add_generator(g.build_gen(e[1]))
    elif k == "priority":
        o.priority = e[1]
    elif k == "leaf priority":
        leaf.priority = e[1]
    elif k == "populate":
        if all(small(v) for v in flat(o)):
            o.populate_atoms()
    elif k == "tolerance":
        leaf.tolerance = e[1]
    elif k == "gen edit" and leaf.generator is not None:
        edit_gen(leaf.generator, e[1])
    elif k == "surf edit" and leaf.alg_objects:
        edit_surf(leaf.alg_objects[who % len(leaf.alg_objects)], e[1])
    elif k == "array points" and leaf.points is not None:
        leaf.points[0] += 0.25
    elif k == "array atoms" and leaf.atoms is not None and len(leaf.atoms):
        leaf.atoms[0] += 1.0
        leaf.species[0] = 3
    elif k == "drop member" and isinstance(o, MultiVolume):
        ms = [x for x in nested(o) if isinstance(x, MultiVolume) and len(x.volumes) > 1]
        if ms:
            ms[who % len(ms)].volumes.pop()
    elif k == "drop surface" and len(leaf.alg_objects) > 1 and leaf.points is not None:
        leaf.alg_objects.pop()


def edit_mol(o, e):
    k = e[0]
    n = len(o.atoms)
    if k == "transform":
        o.transform(g.build_t(e[1]))
    elif k == "move" and n:
        o.update_positions(np.asarray(o.atoms) + np.array(e[1]))
    elif k == "species" and n:
        o.update_species(np.full(n, e[1]))
    elif k == "remove" and n > 1:
        o.remove_atoms([0] if not o._origin_tracking else [i for i in (0, 1) if i != o._origin_idx % n][:1])
    elif k == "origin":
        o.set_origin(point=np.array(e[1]))
    elif k == "track" and n:
        o.set_origin(idx=n - 1)
    elif k == "priority":
        o.priority = e[1]
    elif k == "array atoms" and n:
        o.atoms[0] += 0.5
    elif k == "array species" and n:
        o.species[0] = 5
    elif k == "orientation":
        o.orientation = np.array([[0.0, -1, 0], [1, 0, 0], [0, 0, 1]])


def small(v):
    """Populating is cheap enough."""
    from czone.generator import Generator, AmorphousGenerator
    b = v.get_bounding_box()
    if b is None or v.generator is None:
        return False
    b = np.asarray(b, float)
    if isinstance(v.generator, Generator):
        o = v.generator
        return np.prod(np.ptp(np.linalg.solve(o.voxel.sbases, (b - o.origin).T).T, axis=0) + 3) * len(o.species) < 8000
    if isinstance(v.generator, AmorphousGenerator):
        return np.prod(np.ptp(b, axis=0)) * v.generator.density < 300 and np.ptp(b, axis=0).min() > 2.0
    return True


# ---------------------------------------------------------------- histories

def family(c, ctx, first, derive, derive_args, edit, equal):
    """Pool of independent objects; ops copy or edit one of them."""
    pool = [first]
    snaps = [snap(first)]
    copied = changed = False

    def untouched(i, what):
        for j, (o, s) in enumerate(zip(pool, snaps)):
            if j != i:
                d = diff(s, snap(o))
                need(d is None, "%s: object %d changed too (%s)", what, j, d)
    for op in c["ops"]:
        i = op[1] % len(pool)
        if op[0] == "copy":
            if len(pool) > 4:
                continue
            new = derive(pool[i], op[2])
            untouched(-1, "making a copy")
            need(all(new is not o for o in pool), "the copy is the object itself")
            equal(pool[i], new, op[2])
            untouched(-1, "comparing a copy")
            pool.append(new)
            snaps.append(snap(new))
            copied = True
        else:
            edit(pool[i], op[2], op[3])
            ctx.label(op[2][0])
            untouched(i, "editing object %d (%s)" % (i, op[2][0]))
            now = snap(pool[i])
            changed |= copied and diff(now, snaps[i]) is not None
            snaps[i] = now
    ctx.hit(changed)


def ops_of(args, edits):
    who = st.integers(0, 11)
    cp = st.tuples(st.just("copy"), who, args)
    ed = st.tuples(st.just("edit"), who, edits, who)
    return st.tuples(st.lists(ed, max_size=2), cp, st.lists(g.pick(cp, ed, ed, ed, ed), min_size=2, max_size=8)).map(lambda t: [list(x) for x in t[0] + [t[1]] + t[2]])


ts = g.pick(st.none(), st.none(), st.lists(objs.flag(g.isometry(1)), max_size=2))
vargs = st.fixed_dictionaries(dict(t=ts, gen=g.pick(st.none(), st.none(), g.crystal(2)), pr=g.pick(st.none(), st.none(), st.integers(-5, 5)), tol=g.pick(st.none(), st.none(), st.sampled_from([1e-7, 1e-4])),
                                   alg=g.pick(st.none(), st.none(), st.none(), st.lists(g.sphere(g.vec(-2, 2)), min_size=1, max_size=2)), go=g.pick(st.none(), st.none(), g.vec(-4, 4))))
vcase = st.fixed_dictionaries(dict(o=objs.tree(depth=2, vs=g.vol()), am=st.integers(0, 3), ops=ops_of(vargs, E_VOL)))


def vkw(a):
    kw = {}
    if a["gen"] is not None:
        kw["generator"] = g.build_gen(a["gen"])
    if a["pr"] is not None:
        kw["priority"] = a["pr"]
    if a["tol"] is not None:
        kw["tolerance"] = a["tol"]
    if a["alg"] is not None:
        kw["alg_objects"] = [g.build_surface(s) for s in a["alg"]]
    if a["go"] is not None:
        kw["gen_origin"] = np.array(a["go"])
    return kw


def run_vol(c, ctx):
    from czone.generator import AmorphousGenerator, Generator
    from czone.volume import MultiVolume
    first = Ob(c["o"]).ob
    if c["am"] == 0:
        flat(first)[0].add_generator(AmorphousGenerator(origin=np.zeros(3), density=0.02))

    def derive(o, a):
        kw = vkw(a)
        if a["t"] is not None:
            kw["transformation"] = [g.build_t(t) for t in a["t"]]
        before = {k: snap(v) for k, v in kw.items() if k == "generator"}
        new = o.from_volume(**kw)
        # the caller's replacement objects are copied: changing them later has no effect
        s = snap(new)
        if "generator" in kw:
            need(diff(before["generator"], snap(kw["generator"])) is None, "from_volume changes the generator passed")
            edit_gen(kw["generator"], ["scale", 0.5])
            edit_gen(kw["generator"], ["array bases"])
            edit_gen(kw["generator"], ["array origin"])
        for x in kw.get("alg_objects", []):
            edit_surf(x, ["radius", [0.25, 0, 0]])
            edit_surf(x, ["array", [0, 0, 0]])
        need(diff(s, snap(new)) is None, "the copy changes with the caller's replacement objects")
        return new

    def equal(o, new, a):
        fo, fn = nested(o), nested(new)
        need(len(fo) == len(fn) and [type(x) for x in fo] == [type(x) for x in fn], "the copy has another structure")
        kw = vkw(a)
        want = [copy_state(x) for x in fo]
        tt = [g.build_t(t) for t in a["t"] or []]
        for x, y, w in zip(fo, fn, want):
            if isinstance(x, MultiVolume):
                need(y.priority == x.priority, "priority of the copied multi-volume is %s, source %s", y.priority, x.priority)
                continue
            w = dict(w)
            if "priority" in kw:
                w["priority"] = kw["priority"]
            if "tolerance" in kw:
                w["tolerance"] = kw["tolerance"]
            gen = kw.get("generator", x.generator)
            gen = None if gen is None else gen.from_generator()
            if "gen_origin" in kw and isinstance(gen, Generator):
                gen.voxel.origin = np.array(a["go"])
            alg = [s.from_alg_object() for s in kw.get("alg_objects", x.alg_objects)]
            pts = None if x.points is None else np.array(x.points)
            for t in tt:
                if pts is not None:
                    pts = np.asarray(t.applyTransformation(pts))
                alg = [t.applyTransformation_alg(s) for s in alg]
                if t.locked and gen is not None:
                    gen.transform(t)
            w.update(points=pts, alg=[snap(s) for s in alg], generator=None if gen is None else snap(gen))
            got = snap(y)
            d = diff({k: w[k] for k in ("k", "priority", "tolerance", "points", "alg", "generator")}, {k: got[k] for k in ("k", "priority", "tolerance", "points", "alg", "generator")}, 1e-9)
            need(d is None, "the copy differs from its source in %s", d)
            if not kw and not tt:
                need(np.array_equal(got["inside"], snap(x)["inside"]), "the copy has another interior")
            # the same atoms
            if not kw and not tt and isinstance(x.generator, Generator) and small(x):
                p, q = x.from_volume(), y.from_volume()
                p.populate_atoms()
                q.populate_atoms()
                need(np.array_equal(p.atoms, q.atoms) and np.array_equal(p.species, q.species), "the copy is populated with other atoms")
    ctx.label("multi" if isinstance(first, MultiVolume) else "single")
    family(c, ctx, first, derive, vargs, edit_vol, equal)


def copy_state(x):
    return snap(x)


gspec = g.pick(g.crystal(3), g.crystal(3), st.fixed_dictionaries(dict(am=st.just(True), o=g.pick(st.none(), g.vec(-3, 3)))))
tsl = g.pick(st.none(), st.lists(objs.flag(g.isometry(1)), max_size=2))
gcase = st.fixed_dictionaries(dict(g=gspec, s=g.pick(st.none(), strain), ops=ops_of(tsl, E_GEN), via=st.sampled_from(["copy", "copy", "attach"])))


def run_gen(c, ctx):
    from czone.generator import AmorphousGenerator, Generator
    from czone.volume import Volume, Sphere
    if "am" in c["g"]:
        first = AmorphousGenerator(origin=None if c["g"]["o"] is None else np.array(c["g"]["o"]), density=0.03)
    else:
        first = g.build_gen(c["g"])
        if c["s"] is not None:
            first.strain_field = build_strain(c["s"])

    def derive(o, a):
        if c["via"] == "attach":
            v = Volume(alg_objects=[Sphere(3.0, np.zeros(3))], generator=o)
            for t in a or []:
                v.generator.transform(g.build_t(t))
            return v.generator
        return o.from_generator() if a is None else o.from_generator(transformation=[g.build_t(t) for t in a])

    def equal(o, new, a):
        if not a:
            need(diff(snap(o), snap(new)) is None, "the copy differs from its source in %s", diff(snap(o), snap(new)))
            if "am" in c["g"] and np.prod(np.ptp(BOX, axis=0)) * o.density < 200:
                p, q = o.from_generator(), new.from_generator()
                st_ = np.random.get_state()
        else:
            w = o.from_generator()
            for t in a:
                w.transform(g.build_t(t))
            need(diff(snap(w), snap(new), 1e-9) is None, "the transformed copy differs from a transformed source in %s", diff(snap(w), snap(new), 1e-9))
    family(c, ctx, first, derive, tsl, lambda o, e, w: edit_gen(o, e), equal)
    ctx.label(c["via"], "amorphous" if "am" in c["g"] else "crystal")


tplain = g.pick(st.none(), st.lists(g.isometry(1), max_size=2))
scase = st.fixed_dictionaries(dict(s=g.surface(g.vec(-5, 5)), ops=ops_of(tplain, E_SURF), via=st.sampled_from(["copy", "copy", "attach"])))


def run_surf(c, ctx):
    from czone.volume import Volume
    first = g.build_surface(c["s"])

    def derive(o, a):
        if c["via"] == "attach":
            v = Volume(alg_objects=[o])
            for t in a or []:
                v.alg_objects[0] = g.build_t(t).applyTransformation_alg(v.alg_objects[0])
            return v.alg_objects[0]
        return o.from_alg_object() if a is None else o.from_alg_object(transformation=[g.build_t(t) for t in a])

    def equal(o, new, a):
        w = snap(o)
        if a:
            x = o.from_alg_object()
            for t in a:
                x = g.build_t(t).applyTransformation_alg(x)
            w = snap(x)
        d = diff(w, snap(new), 1e-9)
        need(d is None, "the copy differs from its source in %s", d)
        if not a:
            need(np.array_equal(o.checkIfInterior(Q), new.checkIfInterior(Q)), "the copy has another interior")
    family(c, ctx, first, derive, tplain, lambda o, e, w: edit_surf(o, e), equal)


mcase = st.fixed_dictionaries(dict(a=st.lists(st.tuples(st.integers(1, 94), g.vec(-9, 9)), min_size=1, max_size=6), o=g.pick(st.none(), st.integers(0, 5), g.vec(-4, 4)), ops=ops_of(tplain, E_MOL)))


def run_mol(c, ctx):
    from czone.molecule.molecule import Molecule
    n = len(c["a"])
    kw = {} if c["o"] is None else dict(origin=c["o"] % n if isinstance(c["o"], int) else np.array(c["o"]))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        first = Molecule([x[0] for x in c["a"]], np.array([x[1] for x in c["a"]], float), **kw)

        def derive(o, a):
            return o.from_molecule() if a is None else o.from_molecule(transformation=[g.build_t(t) for t in a])

        def equal(o, new, a):
            w = snap(o)
            if a:
                for t in a:
                    A, b = g.affine(t)
                    w["x"] = w["x"] @ A.T + b
                    w["o"] = A @ w["o"] + b
            d = diff(w, snap(new), 1e-9)
            need(d is None, "the copy differs from its source in %s", d)
        family(c, ctx, first, derive, tplain, lambda o, e, w: edit_mol(o, e), equal)


PARTS = [Part("volumes", vcase, run_vol, quick=1000, thorough=15000, shards=8), Part("generators", gcase, run_gen, quick=800, thorough=12000, shards=8),
         Part("surfaces", scase, run_surf, quick=500, thorough=8000), Part("molecules", mcase, run_mol, quick=500, thorough=8000)]
