import contextlib, io, itertools
import numpy as np
from hypothesis import strategies as st
from pbt import Part, need
import c20, c29
from c29 import A, see
import geom as g

ID = "C30"
RULE = ("setters: two identical objects (of one of 24 kinds) and a sequence of up to six assignments, additions or calls on one attribute or method each, some with documented-invalid and some with valid (often borderline) "
        "values. An invalid one must raise on the first object and leave everything observable of it unchanged; valid ones are made on both, must be accepted and read back, and in the end both objects must look alike. "
        "construct: constructors and functions with one invalid argument must raise, and with the borderline valid value must not. Non-trivial: at least one invalid value was tried (and, in setters, a later valid one accepted).")
ASSUMPTIONS = ["Any exception counts as refusal; its type is not demanded."]

EPS = 1e-17
BADNUM = [0, 0.0, -1.5, -1e-9, "a", None, [1.0, 2.0]]


def wrong3(q):
    """Values that are not a vector of three elements."""
    r = q.r
    return q.one([r.normal(size=2), r.normal(size=4), r.normal(size=(2, 3)), r.normal(size=(4, 3)), np.zeros(0), [1, 2], [1, 2, 3, 4], 1.5, r.normal(size=(3, 2)), r.normal(size=6)])


def vec3(q):
    v = q.vec()
    return q.one([np.array(v, float), v.tolist(), tuple(v.tolist()), np.round(v).astype(int)])


def ndir(q):
    d = q.dir()
    return d * q.one([1, 1e-6, 1e6, 1e-10])


def wrong_kind(q, *ok):
    """Objects of kinds other than `ok`."""
    from czone.volume import Volume, MultiVolume, Sphere, Plane
    from czone.generator import Generator, AmorphousGenerator
    from czone.molecule.molecule import Molecule
    from czone.transform import Translation
    from czone.transform.strain import HStrain
    from czone.transform.post import ChemicalSubstitution
    from czone.volume.voxel import Voxel
    from czone.scene import Scene
    c = [lambda: np.eye(3), lambda: "sphere", lambda: None, lambda: 3.0, lambda: Sphere, lambda: (lambda x: x), lambda: dict(a=1), lambda: Sphere(1.0, [0, 0, 0]), lambda: Plane([0, 0, 1], [0, 0, 0]), lambda: Volume(alg_objects=[Sphere(1.0, [0, 0, 0])]),
         lambda: MultiVolume(), lambda: Translation([1, 0, 0]), lambda: HStrain(), lambda: ChemicalSubstitution([1], [2], .5), lambda: Voxel(), lambda: AmorphousGenerator(),
         lambda: Generator(origin=np.zeros(3)), lambda: Molecule([1], [[0, 0, 0]]), lambda: Scene()]
    while True:
        x = q.one(c)()
        if not isinstance(x, ok) and not (isinstance(x, type) and False):
            return x


def bad_hull(q):
    r = q.r
    n = int(r.integers(4, 9))
    p = r.uniform(-5, 5, (n, 3))
    k = q.i(9)
    if k == 0:
        p[:, q.i(3)] = 1.25                     # coplanar
    elif k == 1:
        p = np.outer(r.uniform(-5, 5, n), q.dir())  # collinear
    elif k == 2:
        p = p[:3]
    elif k == 3:
        p = r.uniform(-5, 5, (n, 2))
    elif k == 4:
        p = r.uniform(-5, 5, (n, 4))
    elif k == 5:
        p = r.uniform(-5, 5, (2, 4, 3))
    elif k == 6:
        p[q.i(n), q.i(3)] = np.nan
    elif k == 7:
        p = np.zeros((0, 3))
    else:
        p[:] = p[0]                            # one point repeated
    return p


def bad_more(q):
    return q.one([q.r.normal(size=2), q.r.normal(size=(4, 2)), q.r.normal(size=(3, 4)), q.r.normal(size=(2, 2, 3)), np.array([[1.0, np.nan, 0]])])


def bad_rot(q):
    R = np.array(q.rot(), float)
    shear = np.eye(3)
    shear[0, 1] = .3
    return q.one([-np.eye(3), 2 * np.eye(3), np.diag([1.0, 1, -1]), shear, np.zeros((3, 3)), R * 1.001, R[:, [1, 0, 2]], R @ np.diag([2, .5, 1]), R[:2], R.ravel(), np.eye(4), R[0], np.full((3, 3), np.nan)])


def good_rot(q):
    R = g.rodrigues(q.dir(), q.num(-3, 3))
    return q.one([R, np.eye(3), R + 1e-9, np.diag([-1.0, -1, 1]), np.eye(3, dtype=int)])


def bad_bases(q):
    r = q.r
    B = np.round(r.uniform(-3, 3, (3, 3)), 2)
    k = q.i(7)
    if k == 0:
        B[:, 2] = B[:, 0] * 2
    elif k == 1:
        B[2] = B[0] * -1.5
    elif k == 2:
        B[:, q.i(3)] = 0
    elif k == 3:
        B[:, 0] = B[:, 1] + B[:, 2]
    elif k == 4:
        return q.one([B[:2], B.ravel(), np.eye(4), B[0], np.hstack([B, B])])
    elif k == 5:
        B[2] = 0.5 * B[0] + 0.25 * B[1]
    else:
        return np.ones((3, 3))
    return B


def good_bases(q):
    return q.one([np.diag([2.5, 3, 3.5]), np.array([[3, .4, .2], [0, 3.2, -.5], [0, 0, 2.9]]), np.array([[0, 2.0, 2], [2, 0, 2], [2, 2, 0]]), np.diag([-3, 3, 3]), [[3, 0, 0], [0, 3, 0], [0, 0, 4]]])


def nonint(q):
    return q.one([1.5, 2.0, "1", None, [1], np.array([1, 2]), 1j])


# ---------------------------------------------------------------- kinds of objects

def setv(name, v, check=None, read=True):
    """A valid assignment, read back."""
    def f(o):
        setattr(o, name, v)
        if read:
            got = getattr(o, name)
            want = np.asarray(v if check is None else check)
            need(np.shape(np.squeeze(got)) == np.shape(np.squeeze(want)) and np.all(np.abs(np.squeeze(np.asarray(got, float)) - np.squeeze(want)) <= 1e-9 * (1 + np.abs(np.squeeze(want)))),
                 "%s.%s: assigned %r but reads %r", type(o).__name__, name, v, got)
    return ("%s" % name, True, f)


def badv(name, v):
    return (name, False, lambda o: setattr(o, name, v))


def call(name, ok, f):
    return (name, ok, f)


def unit(v):
    v = np.asarray(v, float).ravel()
    return v / np.linalg.norm(v)


def k_sphere(q):
    from czone.volume import Sphere
    r, c = q.num(1, 4), q.vec()

    def op(q):
        if q.i(2):
            return q.one([lambda: setv("radius", q.one([1e-6, 3, 2.25, 1e6])), lambda: setv("center", vec3(q)), lambda: setv("tol", q.one([1e-14, 1e-3, 1]))])()
        return q.one([lambda: badv("radius", q.one(BADNUM + [np.nan])), lambda: badv("center", wrong3(q)), lambda: badv("tol", q.one(BADNUM + [np.nan]))])()
    return lambda: Sphere(r, c), op


def k_plane(q):
    from czone.volume import Plane
    d, p = q.dir(), q.vec()

    def op(q):
        if q.i(2):
            n = ndir(q)
            n = q.one([n, n.reshape(3, 1), n.reshape(1, 3), n.tolist()])
            v = vec3(q)
            return q.one([lambda: setv("normal", n, unit(n)), lambda: setv("point", v), lambda: setv("tol", q.one([1e-14, 1e-3, 1]))])()
        z = q.one([np.zeros(3), [0, 0, 0], q.dir() * EPS, np.full(3, np.nan)])
        return q.one([lambda: badv("normal", z), lambda: badv("normal", wrong3(q)), lambda: badv("point", wrong3(q)), lambda: badv("tol", q.one(BADNUM))])()
    return lambda: Plane(d, p), op


def k_cylinder(q):
    from czone.volume import Cylinder
    d, p = q.dir(), q.vec()

    def op(q):
        if q.i(2):
            n = ndir(q)
            return q.one([lambda: setv("axis", n, unit(n)), lambda: setv("point", vec3(q)), lambda: setv("radius", q.one([1e-6, 3, 2.25])), lambda: setv("length", q.one([1e-6, 3, 2.25])), lambda: setv("tol", q.one([1e-14, 1e-3, 1]))])()
        z = q.one([np.zeros(3), [0, 0, 0], q.dir() * EPS])
        return q.one([lambda: badv("axis", z), lambda: badv("axis", wrong3(q)), lambda: badv("point", wrong3(q)), lambda: badv("radius", q.one(BADNUM)), lambda: badv("length", q.one(BADNUM)), lambda: badv("tol", q.one(BADNUM))])()
    return lambda: Cylinder(d, p, 2.0, 5.0), op


def k_volume(q):
    from czone.volume import Volume, Sphere, Plane, BaseAlgebraic
    from czone.generator import BaseGenerator, Generator, AmorphousGenerator
    from czone.transform import BaseTransform, Translation, Rotation
    h, has, gen, fill = np.array(q.hull(), float), q.i(4), q.i(3), q.i(2)

    def mk():
        v = Volume(points=h if has else None, alg_objects=[Sphere(4.0, [0, 0, 0])] if has != 1 else None, priority=2)
        if gen:
            v.add_generator(Generator.from_unit_cell([29], np.zeros((1, 3)), [2.7, 2.8, 2.9], [90, 90, 90]))
            if fill:
                v.populate_atoms()
        return v

    def op(q):
        hh, more, s, sg, t = np.array(q.hull(), float), q.r.uniform(-5, 5, (q.i(3) + 1, 3)), Sphere(q.num(3, 6), q.vec(-1, 1)), q.num(2.6, 3), q.vec()
        G = Generator.from_unit_cell([14], np.zeros((1, 3)), [sg] * 3, [90] * 3)
        if q.i(2):
            return q.one([lambda: setv("points", hh), lambda: call("addPoints", True, lambda o: o.addPoints(hh if o.points is None else q.one([more, more[0]]))), lambda: setv("priority", q.one([-3, 0, 7])), lambda: setv("tolerance", q.one([1e-12, 1e-4])),
                          lambda: call("add_alg_object", True, lambda o: o.add_alg_object(s)), lambda: call("add_generator", True, lambda o: o.add_generator(G, np.ones(3))), lambda: call("transform", True, lambda o: o.transform(Translation(t)))])()
        b, m, w = bad_hull(q), bad_more(q), wrong_kind(q, BaseAlgebraic)
        wg, wt, query = wrong_kind(q, BaseGenerator), wrong_kind(q, BaseTransform), q.one([q.r.normal(size=(5, 2)), q.r.normal(size=(2, 2, 3)), q.r.normal(size=(3, 4)), q.r.normal(size=2)])
        return q.one([lambda: badv("points", b), lambda: badv("points", b), lambda: call("addPoints", False, lambda o: o.addPoints(m)), lambda: call("addPoints", False, lambda o: o.addPoints(m)), lambda: badv("priority", nonint(q)), lambda: badv("tolerance", q.one(["a", None, [1e-3]])),
                      lambda: call("add_alg_object", False, lambda o: o.add_alg_object(q.one([w, [s]]))), lambda: call("add_generator", False, lambda o: o.add_generator(wg)), lambda: call("add_generator origin", False, lambda o: o.add_generator(G, np.zeros(4))),
                      lambda: call("transform", False, lambda o: o.transform(q.one([wt, [Translation(t)]]))), lambda: call("checkIfInterior", False, lambda o: o.checkIfInterior(query))])()
    return mk, op


def k_multi(q):
    from czone.volume import Volume, MultiVolume, Sphere, BaseVolume
    from czone.transform import BaseTransform, Translation
    n = q.i(3)

    def mk():
        return MultiVolume([Volume(alg_objects=[Sphere(2.0, [3.0 * i, 0, 0])]) for i in range(n)], priority=1)

    def op(q):
        c, t = q.vec(), q.vec()
        new = lambda: Volume(alg_objects=[Sphere(1.5, c)])
        if q.i(2):
            return q.one([lambda: call("add_volume", True, lambda o: o.add_volume(new())), lambda: call("add_volume", True, lambda o: o.add_volume([new(), MultiVolume([new()])])), lambda: setv("priority", q.one([-3, 0, 7])), lambda: call("transform", True, lambda o: o.transform(Translation(t)))])()
        w, wt, query = wrong_kind(q, BaseVolume, type(None)), wrong_kind(q, BaseTransform), q.one([q.r.normal(size=(5, 2)), q.r.normal(size=(2, 2, 3)), q.r.normal(size=2)])
        lst = q.one([[new(), w], [w, new()], [new(), new(), w]])
        return q.one([lambda: call("add_volume", False, lambda o: o.add_volume(lst)), lambda: call("add_volume", False, lambda o: o.add_volume(q.one([w, None]))), lambda: badv("priority", nonint(q)), lambda: call("transform", False, lambda o: o.transform(wt)),
                      lambda: call("checkIfInterior", False, lambda o: o.checkIfInterior(query))])()
    return mk, op


def k_scene(q):
    from czone.volume import Volume, Sphere
    from czone.scene import Scene

    def op(q):
        b = q.r.uniform(-5, 5, (2, 3))
        if q.i(2):
            return setv("bounds", q.one([b, b.tolist()]))
        return badv("bounds", q.one([b.T, b.ravel(), b[:1], b[0], np.vstack([b, b]), b[:, :2], None, 3.0]))
    return lambda: Scene(bounds=np.array([[-1, -1, -1], [2, 3, 4]]), objects=[Volume(alg_objects=[Sphere(1.0, [0, 0, 0])])]), op


def k_molecule(q):
    from czone.molecule.molecule import Molecule
    from czone.transform import BaseTransform, Translation
    n, track = q.i(4) + 2, q.i(2)
    x, z, R = q.r.uniform(-3, 3, (n, 3)), q.r.integers(1, 30, n), np.array(q.rot())

    def mk():
        m = Molecule(z, x, origin=[None, n - 1][track], orientation=R)
        m.print_warnings = False
        return m

    def op(q):
        t, k = q.vec(), q.i(2)
        if k:
            o = lambda o: (np.random.default_rng(5).uniform(-3, 3, (len(o.atoms), 3)), np.arange(1, len(o.atoms) + 1))
            Rg = good_rot(q)
            return q.one([lambda: call("set_atoms", True, lambda m: m.set_atoms(*o(m)[::-1])), lambda: call("update_positions", True, lambda m: m.update_positions(o(m)[0])), lambda: call("update_species", True, lambda m: m.update_species(o(m)[1])),
                          lambda: setv("orientation", Rg), lambda: setv("priority", q.one([-3, 0, np.int64(7)])), lambda: call("set_origin", True, lambda m: m.set_origin(point=t)), lambda: call("set_origin idx", True, lambda m: m.set_origin(idx=q.one([0, np.int64(len(m.atoms) - 1)]))),
                          lambda: setv("print_warnings", False), lambda: call("transform", True, lambda m: m.transform(Translation(t))),
                          lambda: call("remove_atoms", True, lambda m: m.remove_atoms([0]) if len(m.atoms) > 2 and not (m._origin_tracking and m._origin_idx == 0) else None)])()
        wt, Rb = wrong_kind(q, BaseTransform), bad_rot(q)
        w = wrong3(q)
        new_too = q.i(3)

        def rm(m):
            N = len(m.atoms)
            big = q.one([[N], [0, N + 3], [-N - 1], np.array([N])])
            if new_too == 0:
                return m.remove_atoms(big)
            if new_too == 1 and m._origin_tracking:
                return m.remove_atoms([m._origin_idx])
            return m.remove_atoms(*q.one([([0], 0), ([0, 1], 1), ([0], N), ([0], N + 2), ([0], 1.0), ([0], "1"), ([1], -N - 1), ([N - 1], -1), ([-1], N - 1)]))
        N = lambda m: len(m.atoms)
        return q.one([lambda: call("set_atoms", False, lambda m: m.set_atoms(np.ones(N(m) + q.one([1, -1, 3])), np.zeros((N(m), 3)))), lambda: call("set_atoms", False, lambda m: m.set_atoms(np.ones(N(m)), q.one([np.zeros((N(m), 2)), np.zeros((N(m) + 1, 3)), np.zeros(3 * N(m) + 1)])) if N(m) % 3 else m.set_atoms([1], np.eye(3))),
                      lambda: call("update_positions", False, lambda m: m.update_positions(np.zeros((N(m) + q.one([1, -1]), 3)))), lambda: call("update_species", False, lambda m: m.update_species(np.ones(N(m) + q.one([1, -1])))),
                      lambda: badv("orientation", Rb), lambda: badv("orientation", Rb), lambda: badv("priority", q.one([1.5, "1", None, [1], np.float64(2)])), lambda: badv("print_warnings", q.one([1, 0, "True", None])), lambda: call("remove_atoms", False, rm), lambda: call("remove_atoms", False, rm),
                      lambda: call("set_origin", False, lambda m: m.set_origin(point=w)), lambda: call("set_origin idx", False, lambda m: m.set_origin(idx=q.one([N(m), N(m) + 4, -N(m) - 1, 1.0, "0", [0]]))), lambda: call("transform", False, lambda m: m.transform(wt))])()
    return mk, op


def flags(q, good):
    return q.one([lambda: setv(q.one(["locked", "basis_only"]), q.one([True, False]))] if good else [lambda: badv(q.one(["locked", "basis_only"]), q.one([1, 0, "True", None, np.ones(1), [True]]))])()


def k_translation(q):
    from czone.transform import Translation
    v = q.vec()

    def op(q):
        if q.i(2):
            return q.one([lambda: flags(q, 1), lambda: setv("shift", vec3(q))])()
        return q.one([lambda: flags(q, 0), lambda: badv("shift", wrong3(q)), lambda: badv("shift", q.r.normal(size=(1, 3)))])()
    return lambda: Translation(v), op


def k_matrix(q):
    from czone.transform import MatrixTransform
    M, v = np.eye(3) + q.r.uniform(-.2, .2, (3, 3)), q.vec()

    def op(q):
        if q.i(2):
            return q.one([lambda: flags(q, 1), lambda: setv("matrix", q.r.uniform(-2, 2, (3, 3))), lambda: setv("origin", vec3(q))])()
        return q.one([lambda: flags(q, 0), lambda: badv("matrix", q.one([np.eye(4), np.eye(3)[:2], np.ones(9), np.ones(3), np.ones((3, 4)), np.ones((1, 3, 3)), None, 2.0])), lambda: badv("origin", wrong3(q))])()
    return lambda: MatrixTransform(M, origin=v), op


def k_rotation(q):
    from czone.transform import Rotation
    R, v = np.array(q.rot()), q.vec()

    def op(q):
        if q.i(2):
            return q.one([lambda: flags(q, 1), lambda: setv("matrix", good_rot(q)), lambda: setv("origin", vec3(q))])()
        return q.one([lambda: flags(q, 0), lambda: badv("matrix", bad_rot(q)), lambda: badv("matrix", bad_rot(q)), lambda: badv("origin", wrong3(q))])()
    return lambda: Rotation(R, origin=v), op


def k_inversion(q):
    from czone.transform import Inversion
    v = q.vec()

    def op(q):
        if q.i(2):
            return q.one([lambda: flags(q, 1), lambda: setv("origin", vec3(q))])()
        return q.one([lambda: flags(q, 0), lambda: badv("matrix", q.one([np.eye(3), -np.eye(3), 2 * np.eye(3)])), lambda: badv("origin", wrong3(q))])()
    return lambda: Inversion(origin=v), op


def k_reflection(q):
    from czone.transform import Reflection
    from czone.volume import Plane
    d, v = q.dir(), q.vec()

    def op(q):
        if q.i(2):
            P = Plane(q.dir(), q.vec())
            return q.one([lambda: flags(q, 1), lambda: call("plane", True, lambda o: setattr(o, "plane", P))])()
        return q.one([lambda: flags(q, 0), lambda: badv("plane", wrong_kind(q, Plane)), lambda: badv("plane", (d, v))])()
    return lambda: Reflection(Plane(d, v)), op


def k_multit(q):
    from czone.transform import MultiTransform, Translation, Inversion, BaseTransform
    v = q.vec()

    def op(q):
        t = Translation(q.vec())
        if q.i(2):
            return call("add_transform", True, lambda o: o.add_transform(q.one([t, [t], [t, Inversion()], MultiTransform([t])])))
        w = wrong_kind(q, BaseTransform)
        return call("add_transform", False, lambda o: o.add_transform(q.one([3.0 if hasattr(w, "__iter__") else w, [t, w], [w, t], [[t]], [t, t, None]])))
    return lambda: MultiTransform([Translation(v)]), op


def k_voxel(q):
    from czone.volume.voxel import Voxel
    v = q.vec().astype(float)

    def op(q):
        if q.i(2):
            return q.one([lambda: setv("bases", good_bases(q)), lambda: setv("scale", q.one([2.0, [1.5], [1.0, 2, 3], np.array([[1.0, 2, 3]])])), lambda: setv("origin", q.vec().astype(float))])()
        return q.one([lambda: badv("bases", bad_bases(q)), lambda: badv("scale", q.one([[1.0, 2], np.ones(4), np.ones((3, 3)), np.zeros(0), np.ones(9)])), lambda: badv("origin", q.one([np.ones(2), np.ones(4), np.ones((1, 3)), np.ones((3, 1)), np.ones((2, 3))]))])()
    return lambda: Voxel(np.diag([3.0, 3.1, 3.2]), np.array([1.1]), v), op


def k_generator(q):
    from czone.generator import Generator
    from czone.volume.voxel import Voxel
    from czone.transform import BaseTransform, Translation
    from czone.transform.strain import HStrain, BaseStrain
    from czone.transform.post import ChemicalSubstitution, BasePostTransform
    from pymatgen.core import Structure, Lattice, Molecule as PM
    v, with_ = q.vec().astype(float), q.i(3)

    def mk():
        G = Generator.from_unit_cell([29, 8], np.array([[0, 0, 0], [.5, .5, .4]]), [4.0, 4.4, 5.0], [90, 85, 100], origin=v)
        if with_:
            G.strain_field = HStrain([1.05, .97, 1.0])
        if with_ == 2:
            G.post_transform = ChemicalSubstitution([8], [16], 1.0)
        return G

    def op(q):
        t, a, o = q.vec(), q.num(3.5, 5), q.vec().astype(float)
        if q.i(2):
            s = Structure(Lattice.cubic(a), [14], [[0, 0, .25]])
            return q.one([lambda: setv("structure", s, read=False), lambda: setv("voxel", Voxel(np.diag([a, 4, 4]), np.array([1.0]), o), read=False), lambda: setv("strain_field", HStrain([a / 4, 1.0, 1]), read=False), lambda: setv("post_transform", ChemicalSubstitution([29], [47], 1.0), read=False),
                          lambda: setv("origin", o), lambda: call("transform", True, lambda G: G.transform(Translation(t)))])()
        return q.one([lambda: badv("structure", q.one([wrong_kind(q), Lattice.cubic(3), PM([1], [[0, 0, 0]])])), lambda: badv("voxel", wrong_kind(q, Voxel)), lambda: badv("strain_field", wrong_kind(q, BaseStrain)), lambda: badv("post_transform", wrong_kind(q, BasePostTransform)),
                      lambda: badv("origin", q.one([np.ones(2), np.ones(4), np.ones((2, 3)), np.ones((3, 1))])), lambda: call("transform", False, lambda G: G.transform(wrong_kind(q, BaseTransform))), lambda: call("transform", False, lambda G: G.transform([Translation(t)]))])()
    return mk, op


def k_amorphous(q):
    from czone.generator import AmorphousGenerator
    from czone.transform import BaseTransform, Translation
    v = q.vec()

    def op(q):
        t = q.vec()
        if q.i(2):
            return q.one([lambda: setv("origin", vec3(q)), lambda: setv("density", q.one([1e-4, .05, 1])), lambda: setv("min_dist", q.one([1e-3, 1.4, 2])), lambda: call("transform", True, lambda o: o.transform(Translation(t)))])()
        return q.one([lambda: badv("origin", wrong3(q)), lambda: badv("density", q.one(BADNUM + [np.nan])), lambda: badv("min_dist", q.one(BADNUM + [np.nan])), lambda: call("transform", False, lambda o: o.transform(wrong_kind(q, BaseTransform)))])()
    return lambda: AmorphousGenerator(origin=v), op


def strain_common(q):
    if q.i(2):
        return q.one([lambda: call("mode", True, lambda o: setattr(o, "mode", q.one(["crystal", "standard"]))), lambda: setv("origin", q.vec().astype(float))])()
    return q.one([lambda: badv("mode", q.one(["Crystal", "", None, 1, "generator", "std"])), lambda: badv("origin", q.one([np.ones(2), np.ones(4), np.ones((1, 3)), np.ones((3, 1)), np.ones((2, 3))]))])()


def k_hstrain(q):
    from czone.transform.strain import HStrain
    M, v = np.eye(3) + q.r.uniform(-.1, .1, (3, 3)), q.vec().astype(float)

    def op(q):
        if q.i(3) == 0:
            return strain_common(q)
        m = q.r.uniform(.9, 1.1, (3, 3))
        if q.i(2):
            full = np.array([[m[0, 0], m[2, 2], m[1, 1]], [m[2, 2], m[0, 1], m[1, 0]], [m[1, 1], m[1, 0], m[0, 2]]])
            return q.one([lambda: setv("matrix", m), lambda: setv("matrix", m.ravel().tolist(), m), lambda: setv("matrix", m[0], np.diag(m[0])), lambda: setv("matrix", [m[0, 0], m[0, 1], m[0, 2], m[1, 0], m[1, 1], m[2, 2]], full)])()
        return badv("matrix", q.one([np.ones(2), np.ones(4), np.ones(5), np.ones(7), np.ones(8), np.ones(10), np.ones((2, 3)), np.ones((3, 2)), np.ones((4, 4)), 1.0, np.zeros(0), np.ones((3, 3, 3))]))
    return lambda: HStrain(M, origin=v, mode="standard"), op


def f_a(x, a=0.1, **kw):
    return x * (1 + a)


def f_b(x, a=0.1, **kw):
    return x + a


def k_istrain(q):
    from czone.transform.strain import IStrain
    v = q.vec().astype(float)

    def op(q):
        if q.i(3) == 0:
            return strain_common(q)
        if q.i(2):
            return q.one([lambda: call("strain_fun", True, lambda o: setattr(o, "strain_fun", q.one([f_a, f_b]))), lambda: call("fun_kwargs", True, lambda o: setattr(o, "fun_kwargs", dict(a=q.one([.2, .3]))))])()
        bad = q.one([lambda x, **k: x[:, :2], lambda x, **k: x.T, lambda x, **k: x[:-1], lambda x, **k: x[0], lambda x, **k: np.linalg.norm(x, axis=1), lambda x, **k: x[None], lambda x, **k: None, "f", None, lambda x, **k: np.hstack([x, x])])
        return q.one([lambda: badv("strain_fun", bad), lambda: badv("strain_fun", bad), lambda: badv("fun_kwargs", q.one([None, [1], "a", 3, (("a", 1),)]))])()
    return lambda: IStrain(fun=f_a, origin=v, mode="standard", a=.15), op


def k_postseq(q):
    from czone.transform.post import PostSequence, ChemicalSubstitution, BasePostTransform

    def op(q):
        t = ChemicalSubstitution([29], [q.i(20) + 30], 1.0)
        if q.i(2):
            return call("add_transform", True, lambda o: o.add_transform(q.one([t, [t], [t, t]])))
        w = wrong_kind(q, BasePostTransform)
        return call("add_transform", False, lambda o: o.add_transform(q.one([3.0 if hasattr(w, "__iter__") else w, [t, w], [w, t], [[t]], [t, None]])))
    return lambda: PostSequence([ChemicalSubstitution([6], [14], 1.0)]), op


FCC = np.array([[0, 0, 0], [0, .5, .5], [.5, 0, .5], [.5, .5, 0]])


def fcc(a=3.6):
    from czone.generator import Generator
    return Generator.from_unit_cell([29] * 4, FCC, [a] * 3, [90] * 3)


def k_prefab(q):
    from czone.prefab import prefab as pf
    from czone.generator import Generator
    from czone.volume import Volume, BaseVolume, makeRectPrism
    C = q.one([pf.fccMixedTwinSF, pf.fccTwin, pf.fccStackingFault, pf.wurtziteStackingFault])
    mixed = C is pf.fccMixedTwinSF

    def op(q):
        G, V = fcc(q.num(3.5, 4)), Volume(points=makeRectPrism(9, 8, q.num(20, 22)))
        if q.i(2):
            ok = [lambda: setv("N", q.one([0, 1, 3])), lambda: setv("min_sep", q.one([1, 2, 5])), lambda: setv("generator", G, read=False), lambda: setv("volume", V, read=False)]
            return q.one(ok + ([lambda: setv("ratio", q.one([0, 1, 0.0, 1.0, .25]))] if mixed else []))()
        no = [lambda: badv("N", q.one(["a", None, [1], np.nan])), lambda: badv("min_sep", q.one([1.5, "3", None, 2.0, [2]])), lambda: badv("generator", wrong_kind(q, Generator)), lambda: badv("volume", wrong_kind(q, BaseVolume))]
        return q.one(no + ([lambda: badv("ratio", q.one([-1e-9, 1.0000001, -1, 2, np.nan, "a", None]))] * 2 if mixed else []))()
    return lambda: C(generator=fcc(), volume=Volume(points=makeRectPrism(9, 8, 20))), op


def k_grain(q):
    from czone.prefab.prefab import SimpleGrainBoundary
    from czone.volume import Volume, makeRectPrism, Plane

    def op(q):
        n = q.one(["z1", "z2"])
        return setv(n, q.one([[1, 1, 0], (0, 1, 2), np.array([1, -1, 1])])) if q.i(2) else badv(n, wrong3(q))
    return lambda: SimpleGrainBoundary([0, 0, 1], None, z2=[1, 1, 1], plane=Plane([1, 0, 0], [0, 0, 0]), volume=Volume(points=makeRectPrism(9, 8, 9)), generator=fcc()), op


def k_wulff(q):
    from czone.prefab import wulff as wu
    from czone.generator import Generator
    E0 = {(1, 1, 1): 1.0, (1, 0, 0): 1.1}
    k = q.i(3)

    def op(q):
        if q.i(2):
            E = {(1, 1, 1): 1.0, (1, 0, 0): q.num(.8, 1.3)}
            G = fcc(q.num(3.5, 4))
            return q.one([lambda: setv("natoms", q.one([100, 500.0, np.int64(60)])), lambda: call("surface_energies", True, lambda o: setattr(o, "surface_energies", E)), lambda: setv("generator", G, read=False)])()
        bad = q.one([{(1, 1, 1): 1.0, (1, 0, 0): 1}, {(1, 1, 1): 1.0, "100": 1.1}, {(1, 1, 1): "a"}, {(1, 1, 1): 1.0, (1, 0, 0): None}, [((1, 1, 1), 1.0)], None, {1: 1.0}])
        no = [lambda: badv("natoms", q.one(["a", None, [100], np.nan])), lambda: badv("surface_energies", bad), lambda: badv("surface_energies", bad), lambda: badv("generator", wrong_kind(q, Generator))]
        if k == 2:
            no = no + [lambda: badv("twin_energy", q.one([1, "a", None]))]
        return q.one(no)()
    if k == 2:
        return lambda: wu.WulffDecahedron(fcc(), dict(E0), 0.1, 300), op
    return lambda: wu.WulffSingle(fcc(), dict(E0), 300), op


KINDS = [k_sphere, k_plane, k_cylinder, k_volume, k_volume, k_volume, k_multi, k_scene, k_molecule, k_molecule, k_translation, k_matrix, k_rotation, k_inversion, k_reflection, k_multit, k_voxel, k_generator, k_generator, k_amorphous,
         k_hstrain, k_istrain, k_postseq, k_prefab, k_grain, k_wulff]


def look(o):
    """Picture of an object without identities."""
    from czone.transform.strain import BaseStrain
    from czone.transform.post import PostSequence
    from czone.prefab.prefab import BasePrefab
    from czone.prefab.wulff import WulffBase, WulffDecahedron
    from czone.scene import Scene
    if isinstance(o, BaseStrain):
        return dict(see(o), x=o.apply_strain(c20.Q) if o.mode == "standard" else None)
    if isinstance(o, PostSequence):
        return dict(k="seq", n=len(o._transforms), x=np.array(o.apply_function(c20.Q, np.arange(len(c20.Q)) % 40 + 5)[1]))
    if isinstance(o, BasePrefab):
        return {a: see(getattr(o, a)) for a in ("N", "min_sep", "plane", "ratio", "generator", "volume", "z1", "z2") if hasattr(o, a)}
    if isinstance(o, WulffBase):
        d = dict(n=o.natoms, e={str(k): v for k, v in sorted(o.surface_energies.items())}, g=see(o.generator), p=see(o.p_atoms), t=getattr(o, "twin_energy", None), i=see(getattr(o, "interface", None)))
        if not isinstance(o, WulffDecahedron):
            v = o.get_construction()
            d["planes"] = np.array([np.append(p.normal, p.point) for p in v.alg_objects])
        return d
    if isinstance(o, Scene):
        return dict(b=see(o.bounds), o=[see(x) for x in o.objects])
    d = see(o)
    return d if isinstance(d, dict) else dict(v=d)


case = st.fixed_dictionaries(dict(kind=st.integers(0, len(KINDS) - 1), seed=st.integers(0, 2**31), ops=st.lists(st.integers(0, 2**31), min_size=1, max_size=6)))


def run(c, ctx):
    mk, op = KINDS[c["kind"]](A(c["seed"]))
    a, b = mk(), mk()
    kind = KINDS[c["kind"]].__name__[2:]
    state = look(a)
    refused = accepted_after = 0
    for s in c["ops"]:
        name, ok, f = op(A(s))
        if ok:
            # the same arguments in both, whatever further choices f makes
            _, _, f2 = op(A(s))
            f(a)
            f2(b)
            state = look(a)
            accepted_after += refused > 0
            ctx.label("valid " + kind + "." + name)
            continue
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                f(a)
        except Exception:
            pass
        else:
            need(False, "%s: invalid value for %s was accepted", kind, name)
        now = look(a)
        d = c20.diff(state, now)
        need(d is None, "%s: refused %s left a change at %s", kind, name, d)
        refused += 1
        ctx.label("invalid " + kind + "." + name)
    d = c20.diff(look(b), look(a))
    need(d is None, "%s: after refused values the object differs from one that never saw them at %s", kind, d)
    ctx.hit(refused and (accepted_after or len(c["ops"]) == 1))


# ---------------------------------------------------------------- constructors and functions

def con(q):
    """(name, valid?, call)"""
    from czone.volume import Volume, MultiVolume, Sphere, Plane, Cylinder, BaseAlgebraic, BaseVolume, snap_plane_near_point
    from czone.volume.voxel import Voxel
    from czone.generator import Generator, AmorphousGenerator, BaseGenerator
    from czone.molecule.molecule import Molecule
    from czone.scene import Scene
    from czone import transform as tr
    from czone.transform import Translation, MatrixTransform, Rotation, Inversion, Reflection, MultiTransform, BaseTransform, rot_zxz
    from czone.transform.strain import HStrain, IStrain, BaseStrain
    from czone.transform.post import ChemicalSubstitution, PostSequence, BasePostTransform
    from czone.prefab import prefab as pf, wulff as wu
    from czone.util import misc
    from pymatgen.core import Structure, Lattice, Molecule as PM
    import ase
    ok = q.i(3) == 0
    d, v = q.dir(), q.vec()
    bad_r = q.one(BADNUM)
    P = lambda good, bad: good if ok else bad
    bn = q.one([np.zeros(3), q.dir() * EPS, wrong3(q)])
    R = P(good_rot(q), bad_rot(q))
    G = fcc()
    E = {(1, 1, 1): 1.0, (1, 0, 0): 1.1}
    small = q.one([1e-6, 1.0, 3])
    nn, m, l = q.i(4) + 1, q.i(4) + 1, 0
    least = 2 * m + (nn - 1) * m + 1
    pos, zs = q.r.normal(size=(4, 3)), [1, 6, 8, 7]
    T = [
        ("Sphere radius", lambda: Sphere(P(small, bad_r), v)),
        ("Sphere center", lambda: Sphere(1.0, P(v, wrong3(q)))),
        ("Sphere tol", lambda: Sphere(1.0, v, tol=P(1e-12, bad_r))),
        ("Plane normal", lambda: Plane(P(ndir(q), bn), v)),
        ("Plane point", lambda: Plane(d, P(v, wrong3(q)))),
        ("Plane tol", lambda: Plane(d, v, tol=P(1e-12, bad_r))),
        ("Cylinder axis", lambda: Cylinder(P(ndir(q), bn), v, 1.0, 2.0)),
        ("Cylinder point", lambda: Cylinder(d, P(v, wrong3(q)), 1.0, 2.0)),
        ("Cylinder radius", lambda: Cylinder(d, v, P(small, bad_r), 2.0)),
        ("Cylinder length", lambda: Cylinder(d, v, 1.0, P(small, bad_r))),
        ("Cylinder tol", lambda: Cylinder(d, v, 1.0, 2.0, tol=P(1e-12, bad_r))),
        ("Volume points", lambda: Volume(points=P(np.array(q.hull(), float), bad_hull(q)))),
        ("Volume alg_objects", lambda: Volume(alg_objects=[Sphere(1.0, v)] + P([], [wrong_kind(q, BaseAlgebraic)]))),
        ("Volume generator", lambda: Volume(generator=P(G, q.one([np.eye(3), "cu", Voxel(), Sphere(1.0, v), G.structure])))),
        ("Volume priority", lambda: Volume(priority=P(-4, nonint(q)))),
        ("MultiVolume", lambda: MultiVolume([Volume(alg_objects=[Sphere(1.0, v)])] + P([], [wrong_kind(q, BaseVolume)]))),
        ("MultiVolume priority", lambda: MultiVolume(priority=P(3, q.one([1.5, "1", [1]])))),
        ("Scene bounds", lambda: Scene(bounds=P(np.array([v, v + 3]), q.one([np.ones((3, 2)), np.ones(6), np.ones((1, 3)), np.ones((2, 2)), 10.0])))),
        ("Molecule sizes", lambda: Molecule(zs, P(pos, q.one([pos[:3], np.vstack([pos, pos]), pos[:, :2], pos.ravel()[:-1]])))),
        ("Molecule origin", lambda: Molecule(zs, pos, origin=P(q.one([0, 3, np.int64(2), v]), q.one([4, 17, -5, wrong3(q)])))),
        ("Molecule orientation", lambda: Molecule(zs, pos, orientation=R)),
        ("from_ase_atoms", lambda: Molecule.from_ase_atoms(P(ase.Atoms("CO", positions=pos[:2]), q.one([PM([6, 8], pos[:2]), wrong_kind(q)])))),
        ("from_pmg_molecule", lambda: Molecule.from_pmg_molecule(P(PM([6, 8], pos[:2]), q.one([ase.Atoms("CO", positions=pos[:2]), wrong_kind(q)])))),
        ("Translation", lambda: Translation(P(vec3(q), wrong3(q)))),
        ("Translation locked", lambda: Translation(v, locked=P(False, q.one([1, 0, None, "no"])))),
        ("Translation basis_only", lambda: Translation(v, basis_only=P(True, q.one([1, 0, None, "no"])))),
        ("MatrixTransform", lambda: MatrixTransform(P(q.r.normal(size=(3, 3)), q.one([np.eye(4), np.eye(3)[:2], np.ones(9), np.ones(3)])))),
        ("MatrixTransform origin", lambda: MatrixTransform(np.eye(3), origin=P(vec3(q), wrong3(q)))),
        ("Rotation", lambda: Rotation(R)),
        ("Rotation flags", lambda: Rotation(np.eye(3), locked=P(True, 1), basis_only=P(False, 0))),
        ("Inversion matrix", lambda: Inversion() if ok else Inversion(matrix=np.eye(3))),
        ("Reflection", lambda: Reflection(P(Plane(d, v), q.one([np.eye(3), "x", (d, v), Sphere(1.0, v), 3.0])))),
        ("MultiTransform", lambda: MultiTransform([Translation(v)] + P([], [wrong_kind(q, BaseTransform)]))),
        ("rot_zxz", lambda: rot_zxz(.1, .2, .3, P(q.one(["intrinsic", "extrinsic"]), q.one(["Intrinsic", "", None, 1, "zxz"])))),
        ("snap mode", lambda: snap_plane_near_point(v, G, (1, 1, 1), mode=P(q.one(["nearest", "floor", "ceil"]), q.one(["Nearest", "", None, "round"])))),
        ("snap strain", lambda: snap_plane_near_point(v, g_strain(G, P(HStrain([1.1, 1, 1]), IStrain(f_a))), (1, 1, 1))),
        ("Voxel bases", lambda: Voxel(P(good_bases(q), bad_bases(q)))),
        ("Voxel scale", lambda: Voxel(np.eye(3), P(q.one([2.0, [1.0, 2, 3]]), q.one([[1.0, 2], np.ones(4), np.ones((3, 3))])))),
        ("Voxel origin", lambda: Voxel(np.eye(3), 1.0, P(v.astype(float), q.one([np.ones(2), np.ones(4), np.ones((3, 1))])))),
        ("Generator structure", lambda: Generator(structure=P(G.structure, q.one([np.eye(3), "Cu", Lattice.cubic(3), Voxel()])))),
        ("Generator strain", lambda: Generator(structure=G.structure, strain_field=P(HStrain(), q.one([np.eye(3), f_a, Voxel()])))),
        ("Generator origin", lambda: Generator(structure=G.structure, origin=P(v.astype(float), q.one([np.ones(2), np.ones(4), np.ones((2, 3))])))),
        ("from_unit_cell sizes", lambda: Generator.from_unit_cell([29] * P(4, q.one([3, 5, 1])), FCC, [3.6] * 3, [90] * 3)),
        ("from_spacegroup sizes", lambda: Generator.from_spacegroup([29] * P(1, 2), np.zeros((1, 3)), [3.6] * 3, [90] * 3, sgn=225)),
        ("from_spacegroup group", lambda: Generator.from_spacegroup([29], np.zeros((1, 3)), [3.6] * 3, [90] * 3, **P(dict(sgn=225), q.one([dict(sgn=231), dict(sgn=0), dict(sgn=-1), dict(sym="Fm-4m"), dict()])))),
        ("from_spacegroup lattice", lambda: Generator.from_spacegroup([29], np.zeros((1, 3)), P([3.6] * 3, [3.6, 3.6, 4.1]), P([90] * 3, [90, 90, q.one([90, 100])]), sgn=225)),
        ("AmorphousGenerator origin", lambda: AmorphousGenerator(origin=P(vec3(q), wrong3(q)))),
        ("AmorphousGenerator density", lambda: AmorphousGenerator(density=P(1e-3, bad_r))),
        ("AmorphousGenerator min_dist", lambda: AmorphousGenerator(min_dist=P(1e-3, bad_r))),
        ("HStrain matrix", lambda: HStrain(P(q.one([np.ones(3), np.ones(6), np.eye(3)]), q.one([np.ones(2), np.ones(4), np.ones(5), np.ones(7), np.ones((2, 3)), np.ones(10)])))),
        ("HStrain mode", lambda: HStrain(mode=P("standard", q.one(["Standard", "", None, 1])))),
        ("HStrain origin", lambda: HStrain(origin=P(v.astype(float), q.one([np.ones(2), np.ones(4), np.ones((1, 3)), "global"])))),
        ("IStrain fun", lambda: IStrain(P(f_a, q.one([lambda x, **k: x[:, :2], lambda x, **k: x.T, lambda x, **k: x[:-1], "f", lambda x, **k: None])))),
        ("IStrain mode", lambda: IStrain(f_a, mode=P("standard", q.one(["Standard", "", None, 1])))),
        ("IStrain origin", lambda: IStrain(f_a, origin=P(v.astype(float), q.one([np.ones(2), np.ones(4), np.ones((1, 3)), "global"])))),
        ("ChemicalSubstitution", lambda: ChemicalSubstitution([1, 2, 3], P([4, 5, 6], q.one([[4, 5], [], [4, 5, 6, 7]])), .5)),
        ("PostSequence", lambda: PostSequence([ChemicalSubstitution([1], [2], 1.0)] + P([], [wrong_kind(q, BasePostTransform)]))),
        ("fccMixedTwinSF ratio", lambda: pf.fccMixedTwinSF(ratio=P(q.one([0, 1, .5]), q.one([-1e-9, 1.0000001, np.nan, "a"])))),
        ("fccMixedTwinSF min_sep", lambda: pf.fccMixedTwinSF(min_sep=P(1, q.one([1.5, "2", None])))),
        ("fccTwin generator", lambda: pf.fccTwin(generator=P(G, q.one([AmorphousGenerator(), G.structure, "Cu"])))),
        ("fccStackingFault volume", lambda: pf.fccStackingFault(volume=P(Volume(alg_objects=[Sphere(1.0, v)]), q.one([Sphere(1.0, v), np.eye(3), G])))),
        ("wurtziteStackingFault min_sep", lambda: pf.wurtziteStackingFault(min_sep=P(1, q.one([1.5, "2", None])))),
        ("SimpleGrainBoundary", lambda: pf.SimpleGrainBoundary(P([0, 0, 1], wrong3(q)), None)),
        ("WulffSingle natoms", lambda: wu.WulffSingle(G, dict(E), P(100.0, q.one(["a", None, [1]])))),
        ("WulffSingle energies", lambda: wu.WulffSingle(G, P(dict(E), q.one([{(1, 1, 1): 1}, {"111": 1.0}, [1.0], None])), 100)),
        ("WulffSingle generator", lambda: wu.WulffSingle(P(G, wrong_kind(q, Generator)), dict(E), 100)),
        ("WulffDecahedron twin_energy", lambda: wu.WulffDecahedron(G, dict(E), P(.1, q.one([1, "a", None])), 100)),
        ("get_N_splits", lambda: misc.get_N_splits(nn, m, P(least, least - 1 - q.i(3)))),
    ]
    name, f = q.one(T)
    return name, ok, f


def g_strain(G, s):
    G.strain_field = s
    return G


def run_con(c, ctx):
    name, ok, f = con(A(c["seed"]))
    if ok:
        f()
    else:
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                f()
        except Exception:
            pass
        else:
            need(False, "%s: invalid value was accepted", name)
    ctx.label(("valid " if ok else "invalid ") + name)
    ctx.hit(not ok)


PARTS = [Part("setters", case, run, quick=5000, shards=6), Part("construct", st.fixed_dictionaries(dict(seed=st.integers(0, 2**31))), run_con, quick=4500, shards=4)]
