import contextlib, io, itertools, os, tempfile, types
import numpy as np
from hypothesis import strategies as st
from pbt import Part, need
import c20, objs
import geom as g

ID = "C29"
RULE = ("calls: a world of objects (three surfaces, a filled volume, a nested multi-volume, a scene, crystal and amorphous generators, a molecule, one transformation of each kind, strain fields, post-transformations) and plain "
        "arguments (arrays in several memory layouts and number types, lists, dictionaries); a history of up to eight public operations. After each, every argument and every object of the world except those the "
        "operation is a method of (or that contain it) must look exactly as before. poison: an object is built from, or given, caller arrays and lists; these are then overwritten in place and the object must look as "
        "before. Non-trivial: the operations received at least one array or object other than the receiver.")
ASSUMPTIONS = ["Surfaces handed directly to applyTransformation_alg are transformed in place, as the volumes rely on.", "Strain fields store origin and bases of the generator they serve; members of scenes and multi-volumes are shared by design.",
               "Amorphous generators remember their last result."]

# ---------------------------------------------------------------- snapshots


def see(o):
    """Deep picture of an argument or object."""
    from czone.transform import BaseTransform, MultiTransform, Reflection, Translation
    from czone.transform.strain import BaseStrain
    from czone.transform.post import BasePostTransform
    from czone.scene import Scene
    from czone.volume.voxel import Voxel
    from czone.volume import BaseVolume, BaseAlgebraic
    from czone.generator import BaseGenerator
    from czone.molecule.molecule import BaseMolecule
    import ase
    if o is None or isinstance(o, (int, float, str, bool, complex, types.FunctionType, type)):
        return o
    if isinstance(o, np.ndarray):
        return np.array(o, copy=True)
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, (list, tuple)):
        return dict(k=type(o).__name__, v=[see(x) for x in o])
    if isinstance(o, dict):
        return {"." + str(k): see(v) for k, v in o.items()}
    if isinstance(o, MultiTransform):
        return dict(k="multi", v=[see(t) for t in o.transforms])
    if isinstance(o, Translation):
        return dict(k="translation", v=see(o.shift), l=o.locked, b=o.basis_only)
    if isinstance(o, BaseTransform):
        return dict(k=type(o).__name__, v=see(o.matrix), o=see(o.origin), l=o.locked, b=o.basis_only, p=c20.snap(o.plane) if isinstance(o, Reflection) else None)
    if isinstance(o, BaseStrain):
        d = dict(k=type(o).__name__, mode=o.mode, m=see(getattr(o, "matrix", None)), f=see(getattr(o, "fun_kwargs", None)), t=o.origin_type)
        return dict(d, o=see(o.origin)) if o.origin_type != "generator" else d
    if isinstance(o, BasePostTransform):
        d = {k: see(v) for k, v in vars(o).items() if not callable(v)}
        return dict(d, k=type(o).__name__)
    if isinstance(o, Voxel):
        return dict(k="voxel", b=see(o.bases), s=see(o.scale), o=see(o.origin), sb=see(o.sbases))
    if isinstance(o, Scene):
        # a member populated again by itself leaves the scene's earlier result without meaning
        ready = o._checks is not None and len(o._checks) == len(o.objects) and all(len(c) == len(x.atoms) for c, x in zip(o._checks, o.objects))
        return dict(k="scene", b=see(o.bounds), n=len(o.objects or []), obj=sorted([id(x) for x in (o.objects or [])]), x=see(o.all_atoms) if ready else None, z=see(o.all_species) if ready else None)
    if isinstance(o, ase.Atoms):
        return dict(k="ase", x=see(o.get_positions()), z=see(o.get_atomic_numbers()), c=see(np.array(o.get_cell())))
    if isinstance(o, (BaseVolume, BaseAlgebraic, BaseGenerator, BaseMolecule)):
        d = c20.snap(o)
        if hasattr(o, "strain_field") and o.strain_field is not None and o.strain_field.origin_type == "generator":
            pass
        return d
    if hasattr(o, "frac_coords") or hasattr(o, "cart_coords"):
        return dict(k="pmg", x=see(np.asarray(o.cart_coords)), z=[str(s) for s in o.species], l=see(np.array(o.lattice.matrix)) if hasattr(o, "lattice") else None)
    return repr(type(o))


def same(a, b, what):
    d = c20.diff(a, b) if isinstance(a, dict) or isinstance(a, np.ndarray) else (None if type(a) is type(b) and (a == b or a != a) else "")
    need(d is None, "%s changed%s", what, "" if not d else " at " + d)

# ---------------------------------------------------------------- arguments


class A:
    """Deterministic plain arguments in varied layouts."""

    def __init__(self, seed):
        self.r = np.random.default_rng(seed)

    def lay(self, a):
        k = self.r.integers(0, 5)
        if k == 1:
            return np.asfortranarray(a)
        if k == 2:   # a view into a larger array
            big = np.full((2 * a.shape[0],) + a.shape[1:], 7.5 if a.dtype.kind == "f" else 7, a.dtype)
            big[::2] = a
            return big[::2]
        if k == 3:
            return np.round(a).astype(int) if a.ndim == 2 and len(a) > 8 else a
        return a

    def pts(self, n=None, lo=-6, hi=6):
        return self.lay(self.r.uniform(lo, hi, (int(n or self.r.integers(9, 20)), 3)).round(3))

    def hull(self, c=0.0, s=3.0):
        p = np.array(list(itertools.product((-s, s), repeat=3))) + self.r.uniform(-.5, .5, (8, 3)).round(3) + c
        return self.lay(p)

    def vec(self, lo=-5, hi=5):
        v = self.r.uniform(lo, hi, 3).round(3)
        return self.lay(v) if self.r.random() < .8 else np.round(v + 5.5).astype(int)

    def dir(self):
        v = self.r.normal(size=3)
        return (v / np.linalg.norm(v) * self.r.uniform(.5, 3)).round(4)

    def num(self, lo, hi):
        return float(round(self.r.uniform(lo, hi), 3))

    def rot(self):
        return self.lay(g.rodrigues(self.dir(), self.num(-3, 3)))

    def i(self, n):
        return int(self.r.integers(0, n))

    def one(self, x):
        return x[self.i(len(x))]


def f_wave(x, a=0.1, **kw):
    return x + a * np.sin(x[:, [1, 2, 0]])


def f_inplace(x, a=0.1, **kw):
    x[:, 2] *= 1 + a
    return x


class World:
    def __init__(self, c, q):
        from czone.volume import Volume, MultiVolume, Sphere, Plane, Cylinder
        from czone.generator import Generator, AmorphousGenerator, NullGenerator
        from czone.molecule.molecule import Molecule
        from czone.scene import Scene
        from czone.transform import Translation, MatrixTransform, Rotation, Inversion, Reflection, MultiTransform
        from czone.transform.strain import HStrain, IStrain
        from czone.transform.post import ChemicalSubstitution, ArbitraryPostTransform, PostSequence
        self.sphere = Sphere(q.num(2, 4), q.vec(-1, 1))
        self.plane = Plane(q.dir(), q.vec(-2, 2))
        self.cyl = Cylinder(q.dir(), q.vec(-1, 1), q.num(2, 4), q.num(3, 8))
        self.gen = g.build_gen(c["g"])
        self.gen2 = g.build_gen(c["g2"])
        self.am = AmorphousGenerator(origin=q.vec(), min_dist=1.2, density=0.05)
        self.null = NullGenerator()
        self.hs = HStrain(matrix=(np.eye(3) + q.r.uniform(-.1, .1, (3, 3))).round(3), origin="generator" if q.i(2) else q.vec().astype(float), mode=q.one(["crystal", "standard"]))
        self.is_ = IStrain(fun=q.one([f_wave, f_inplace]), origin="generator", mode=q.one(["crystal", "standard"]), a=0.05)
        self.chem = ChemicalSubstitution([1, 6, 8, 14], [79, 78, 77, 76], 1.0)
        self.seq = PostSequence([self.chem, ArbitraryPostTransform(lambda p, s: (p * 1.0, s + 1))])
        self.trans = Translation(q.vec())
        self.mat = MatrixTransform((np.eye(3) + q.r.uniform(-.3, .3, (3, 3))).round(3), origin=q.vec() if q.i(2) else None)
        self.rot = Rotation(q.rot(), origin=q.vec() if q.i(2) else None)
        self.inv = Inversion(origin=q.vec())
        self.ref = Reflection(Plane(q.dir(), q.vec()))
        self.multi = MultiTransform([self.rot, self.trans, Translation(q.vec(), locked=True)])
        self.vol = Volume(points=np.array(q.hull(), float), alg_objects=[self.sphere] if q.i(2) else None, generator=self.gen, priority=q.i(3))
        self.ball = Volume(alg_objects=[Sphere(q.num(2, 3.5), q.vec(-2, 2))], generator=self.gen2, priority=q.i(3))
        self.other = Volume(points=np.array(q.hull(2.0, 2.0), float), generator=self.gen2, priority=q.i(3))
        self.mv = MultiVolume([self.other, MultiVolume([self.ball], priority=1)], priority=q.i(3))
        self.mol = Molecule([6, 1, 1, 8], q.r.uniform(-2, 2, (4, 3)).round(3), origin=q.one([None, 1]), orientation=np.array(q.rot()))
        self.mol.print_warnings = False
        self.loose = Molecule([7, 7], q.r.uniform(-2, 2, (2, 3)).round(3))
        self.loose.print_warnings = False
        self.scene = Scene(bounds=np.array([[-9., -9, -9], [9, 9, 9]]), objects=[self.vol, self.mv, self.loose])
        self.holds = {"scene": ["vol", "mv", "loose", "other", "ball"], "mv": ["other", "ball"]}

    def names(self):
        return [k for k in vars(self) if k != "holds"]

    def affected(self, receivers):
        out = set(receivers)
        for k, v in self.holds.items():
            if set(v) & out:
                out.add(k)
        return out


T = ["trans", "mat", "rot", "inv", "ref", "multi"]
ISO = ["trans", "rot", "inv", "ref", "multi"]
SURF = ["sphere", "plane", "cyl"]
GEN = ["gen", "gen2"]
VOL = ["vol", "mv", "ball", "other"]


def below(w, n):
    """Objects a change of n reaches."""
    return [n] + w.holds.get(n, []) if n in ("mv", "scene") else [n]


def q_many(w, q):
    """One operation: (name, receivers allowed to change, arguments to watch, callable)."""
    import czone.volume.algebraic as alg
    from czone import transform as tr
    from czone.volume import makeRectPrism, Volume, MultiVolume, Sphere, Plane, Cylinder, snap_plane_near_point
    from czone.util import misc, measure
    from czone.surface import alpha_shape as al, adsorbate as ad
    from czone.generator import amorphous_algorithms as am, Generator
    from czone.molecule.molecule import Molecule
    from czone.scene import Scene
    W = lambda n: getattr(w, n)
    p, v = q.pts(), q.vec()
    k = q.i(NOPS)
    if k == 0:
        n = q.one(SURF + VOL + ["loose"])
        return n + ".checkIfInterior", [], [p], lambda: W(n).checkIfInterior(p)
    if k == 1:
        m, a = q.one(["sdist_from_plane", "dist_from_plane", "project_point"]), q.one([p, v])
        return m, [], [a], lambda: getattr(w.plane, m)(a)
    if k == 2:
        n = q.one(["vol", "ball", "other", "cyl"])
        return n + ".get_bounding_box", [], [], lambda: W(n).get_bounding_box()
    if k == 3:
        pl = [Plane(q.dir(), q.vec(-2, 2)) for _ in range(5)] + [w.plane] + [Plane(s * np.eye(3)[i], s * np.eye(3)[i] * 4.0) for i in range(3) for s in (1, -1)]
        return "get_bounding_box(planes)", [], [pl], lambda: alg.get_bounding_box(pl)
    if k == 4:
        h = q.hull()
        return "convex_hull_to_planes", [], [h], lambda: alg.convex_hull_to_planes(h)
    if k == 5:
        hkl, n = q.one([(1, 1, 0), np.array([1, -1, 2]), [0, 0, 1]]), q.one(GEN)
        mode = q.one(["nearest", "floor", "ceil"])
        if type(W(n).strain_field).__name__ == "IStrain" or (q.i(2) and W(n).strain_field is None):
            W(n).strain_field = w.hs   # inhomogeneous strain is documented as unsupported here
        return "snap_plane_near_point", [], [v, hkl], lambda: snap_plane_near_point(v, W(n), hkl, mode=mode)
    if k == 6:
        return "makeRectPrism", [], [v], lambda: makeRectPrism(q.num(1, 3), 2, 3.5, center=v)
    if k == 7:
        n = q.one(T)
        return n + ".applyTransformation", [], [p], lambda: W(n).applyTransformation(p)
    if k == 8:
        n, B = q.one(T), q.lay(np.eye(3) * 2 + .1)
        return n + ".applyTransformation_bases", [], [B], lambda: W(n).applyTransformation_bases(B)
    if k == 9:
        a, b = q.dir(), q.dir()
        ms = [(tr.rot_v, (a, 0.7)), (tr.rot_vtv, (a, b)), (tr.rot_align, (p[:4].astype(float), (p[:4] @ q.rot().T).astype(float))), (misc.vangle, (a, b)), (misc.round_away, (p,)), (misc.get_N_splits, (2, 2, 20))]
        f, args = q.one(ms)
        return f.__name__, [], list(args), lambda: f(*args)
    if k == 10:
        P2, a, b = Plane(q.dir(), q.vec()), q.vec(), q.vec()
        return "s2s_alignment", [], [P2, a, b], lambda: tr.s2s_alignment(w.plane, P2, a, b)
    if k == 11:
        n = q.one(GEN + ["am", "null"])
        bb = q.hull(s=2.0)
        if n in GEN and q.i(2):
            W(n).strain_field = q.one([w.hs, w.is_])
        if n in GEN and q.i(2):
            W(n).post_transform = q.one([w.chem, w.seq])
        return n + ".supply_atoms", ["am"] if n == "am" else [], [bb], lambda: W(n).supply_atoms(bb)
    if k == 12:
        n = q.one(["hs", "is_"])
        W(n).scrape_params(w.gen)
        return n + ".apply_strain", [], [p], lambda: W(n).apply_strain(p)
    if k == 13:
        n, s = q.one(["chem", "seq"]), q.lay(q.r.integers(1, 15, len(p)))
        return n + ".apply_function", [], [p, s], lambda: W(n).apply_function(p, s)
    if k == 14:
        d = q.one([[5.0, 6.0, 4.0], np.array([5.0, 4.5, 6.0])])
        f = q.one([lambda: am.gen_p_substrate(d, 1.3, density=.05), lambda: am.gen_p_substrate_batched(d, 1.3, density=.05), lambda: am.get_voxels(1.3, np.asarray(d))])
        return "amorphous block", [], [d], f
    if k == 15:
        dim = q.one([(3, 4, 3), [3, 3, 4], np.array([3, 3, 3])])
        return "get_voxel_grid", [], [dim], lambda: measure.get_voxel_grid(dim, px=True, py=bool(q.i(2)), pz=False)
    if k == 16:
        dims, a, b = q.one([np.array([8.0, 9, 7]), [8.0, 9.0, 7.0]]), q.pts(6, 0, 7).astype(float)[:, :, None], q.pts(5, 0, 7).astype(float).T[None]
        return "get_sdist_fun", [], [dims, a, b], lambda: measure.get_sdist_fun(np.asarray(dims), px=True, py=True)(a, b)
    if k == 17:
        co = q.pts(20, 0, 30).astype(float)
        return "calc_rdf", [], [co], lambda: measure.calc_rdf(co, cutoff=4.0)
    if k == 18:
        co = np.array(list(itertools.product(range(3), repeat=3)), float) * 2 + q.r.uniform(-.2, .2, (27, 3))
        co = q.one([co, np.asfortranarray(co)])
        return q.one([("alpha_shape_alg_3D", [], [co], lambda: al.alpha_shape_alg_3D(co, 2.0, return_alpha_shape=True)),
                      ("alpha_shape_alg_3D_with_sampling", [], [co], lambda: al.alpha_shape_alg_3D_with_sampling(co, 2.0, 3, seed=1)),
                      ("tetrahedron_circumradii", [], [co], lambda: al.tetrahedron_circumradii(co[:24].reshape(6, 4, 3))),
                      ("find_approximate_normal", [], [co], lambda: ad.find_approximate_normal(co - 5.0, seed=3))])
    if k == 19:
        h = Volume(points=makeRectPrism(6, 6, 6), generator=Generator.from_unit_cell([29], np.array([[0, 0, 0]]), [2.6] * 3, [90] * 3))
        h.populate_atoms()
        mask = np.ones(len(h.atoms), bool)
        fl = q.one([{}, {"element": ["Cu", 29]}, {"mask": mask, "indices": list(range(len(mask)))}, {"spatial": lambda x: x[:, 2] > -9}])
        mv_ = q.dir()
        return "add_adsorbate", [], [h, fl, mv_], lambda: ad.add_adsorbate(w.mol, q.i(4), 2.0, h, mol_vector=mv_, filters=fl, seed=5, use_sampling=bool(q.i(2)), probe_radius=2.0)
    if k == 20:
        n, ts = q.one(["vol", "ball", "other", "mv"]), [W(q.one(ISO)) for _ in range(q.i(3))]
        kw = q.one([{}, dict(generator=W(q.one(GEN)))])
        return n + ".from_volume", [], [ts, kw], lambda: edited_v(W(n).from_volume(transformation=ts, **kw), q)
    if k == 21:
        n, ts = q.one(GEN + ["am"]), [W(q.one(ISO)) for _ in range(q.i(3))]
        return n + ".from_generator", [], [ts], lambda: W(n).from_generator(transformation=ts).transform(w.trans)
    if k == 22:
        n, ts = q.one(SURF), [W(q.one(ISO)) for _ in range(q.i(3))]
        return n + ".from_alg_object", [], [ts], lambda: W(n).from_alg_object(transformation=ts)
    if k == 23:
        ts = [W(q.one(ISO)) for _ in range(q.i(3))]
        return "from_molecule", [], [ts], lambda: w.mol.from_molecule(transformation=ts).transform(w.trans)
    if k == 24:
        n, t = q.one(["vol", "other", "mv"]), q.one(ISO)
        return n + ".transform", below(w, n), [], lambda: W(n).transform(W(t))
    if k == 25:
        n, t = q.one(GEN + ["am", "null", "mol", "loose"]), q.one(ISO)
        return n + ".transform", [n], [], lambda: W(n).transform(W(t))
    if k == 26:
        n = q.one(["vol", "ball", "other", "mv", "mv"])
        return n + ".populate_atoms", below(w, n), [], lambda: W(n).populate_atoms()
    if k == 27:
        def look():
            w.scene.populate()
            w.scene.ase_atoms, w.scene.all_atoms, w.scene.all_species, [w.scene.species_from_object(i) for i in range(3)]
        return "scene.populate", below(w, "scene"), [], look
    if k == 28:
        n, s = q.one(["vol", "ball"]), q.one(SURF)
        h = q.hull(s=2.5)
        x = q.one(["alg", "points", "set", "gen", "prio"])
        f = dict(alg=lambda: W(n).add_alg_object(W(s)), points=lambda: W(n).addPoints(h), set=lambda: setattr(W(n), "points", h), gen=lambda: W(n).add_generator(w.gen, v), prio=lambda: setattr(W(n), "priority", 4))[x]
        return n + "." + x, [n], [h, v], f
    if k == 29:
        z, x = q.lay(q.r.integers(1, 30, 4)), q.pts(4)
        idx = q.one([[0], [3, 1], np.array([2]), (1,)])
        o = q.one(["atoms", "pos", "spec", "remove", "origin"])
        f = dict(atoms=lambda: w.mol.set_atoms(z, x), pos=lambda: w.mol.update_positions(x), spec=lambda: w.mol.update_species(z), remove=lambda: w.mol.from_molecule().remove_atoms(idx, new_origin_idx=None) if not w.mol._origin_tracking or w.mol._origin_idx not in idx else None,
                 origin=lambda: w.mol.set_origin(point=v))[o]
        if len(w.mol.atoms) != 4:
            return "nothing", [], [], lambda: None
        return "mol." + o, ["mol"], [z, x, idx, v], f
    if k == 30:
        import ase
        from pymatgen.core import Molecule as PM
        a = ase.Atoms(numbers=[6, 8], positions=q.pts(2).astype(float))
        m = PM([6, 8], q.pts(2).astype(float))
        def conv():
            for x in (Molecule.from_ase_atoms(a), Molecule.from_pmg_molecule(m)):
                x.transform(w.rot)
                x.atoms[...] += 1
        return "molecule conversion", [], [a, m], conv
    if k == 31:
        from pymatgen.core import Structure, Lattice
        s = Structure(Lattice.cubic(3.3), [29, 8], [[0, 0, 0], [.5, .5, .5]])
        def use():
            x = Generator(structure=s, origin=v.astype(float))
            x.supply_atoms(q.hull())
            x.transform(w.rot)
            x.origin = np.zeros(3)
        return "Generator(structure)", [], [s, v], use
    if k == 32:
        n = q.one(["vol", "mv", "scene"])
        def out():
            if n == "scene":
                w.scene.populate()
            else:
                W(n).populate_atoms()
            if len(W(n).ase_atoms) == 0:
                return
            before = [see(W(x)) for x in w.names()]
            with tempfile.TemporaryDirectory() as d:
                W(n).to_file(os.path.join(d, "a.xyz"))
            for x, y in zip(w.names(), before):
                same(y, see(W(x)), "%s by to_file of %s" % (x, n))
        return n + ".to_file", below(w, n), [], out
    if k == 33:
        from czone.prefab import prefab as pf
        f = np.array([[0, 0, 0], [0, .5, .5], [.5, 0, .5], [.5, .5, 0]])
        G = Generator.from_unit_cell([29] * 4, f, [3.6] * 3, [90] * 3, origin=v.astype(float))
        b = Volume(points=makeRectPrism(9, 8, 20, center=q.vec(-2, 2)), generator=G, priority=3)
        plane = q.one([(1, 1, 1), (1, -1, 1), (-1, -1, 1)])
        C = q.one([pf.fccTwin, pf.fccStackingFault, pf.fccMixedTwinSF])
        return C.__name__, [], [G, b, plane], lambda: C(generator=G, volume=b, N=1, min_sep=2, plane=plane).build_object().populate_atoms()
    if k == 34:
        from czone.prefab import wulff as wu
        f = np.array([[0, 0, 0], [0, .5, .5], [.5, 0, .5], [.5, .5, 0]])
        G = Generator.from_unit_cell([29] * 4, f, [3.6] * 3, [90] * 3, origin=v.astype(float))
        G.transform(w.rot)
        E = {(1, 1, 1): 1.0, (1, 0, 0): 1.1}
        def make():
            x = wu.WulffSingle(G, E, 300)
            x.get_construction().populate_atoms()
            x.winterbottom((1, 0, 0), 0.5)
        return "WulffSingle", [], [G, E], make
    if k == 35:
        ob = [w.vol, w.loose]
        b = np.array([[-5., -5, -5], [5, 5, 5]])
        def sc():
            s = Scene(bounds=b, objects=ob)
            s.add_object(w.mol)
            s.bounds = b * 2
            s.bounds
        return "Scene(...)", [], [ob, b], sc
    from czone.transform import MultiTransform
    ts = [w.rot, w.trans]
    def mt():
        m = MultiTransform(ts)
        m.add_transform(w.inv)
        m.add_transform([w.ref])
        m.applyTransformation(p)
    return "MultiTransform(...)", [], [ts, p], mt


NOPS = 37


def edited_v(v, q):
    """Use a derived volume."""
    from czone.transform import Translation
    v.transform(Translation(q.vec()))
    v.populate_atoms()
    return v


small = g.crystal(2)
calls_case = st.fixed_dictionaries(dict(g=small, g2=small, seed=st.integers(0, 2**31), ops=st.lists(st.integers(0, 2**31), min_size=1, max_size=8)))


def run_calls(c, ctx):
    q = A(c["seed"])
    for s in (c["g"], c["g2"]):
        if g.cell_volume(s["lat"]) < 15 and len(s["b"]) > 1:
            s["b"] = s["b"][:1]
    w = World(c, q)
    names = w.names()
    state = {n: see(getattr(w, n)) for n in names}
    n_args = 0
    for s in c["ops"]:
        a = A(s)
        name, recv, args, f = q_many(w, a)
        # choosing an operation may attach a strain field or modification to a generator first
        for n in ("gen", "gen2", "hs", "is_"):
            state[n] = see(getattr(w, n))
        before = [see(x) for x in args]
        with contextlib.redirect_stdout(io.StringIO()):
            f()
        for i, (x, y) in enumerate(zip(args, before)):
            same(y, see(x), "%s: argument %d" % (name, i))
        may = w.affected(recv)
        for n in names:
            cur = see(getattr(w, n))
            if n not in may:
                same(state[n], cur, "%s: %s" % (name, n))
            state[n] = cur
        n_args += len(args)
        ctx.label(name)
    ctx.hit(n_args > 0)

# ---------------------------------------------------------------- poisoning


def junk(x):
    """Overwrite a caller's array or list in place."""
    if isinstance(x, np.ndarray):
        if x.dtype.kind in "fi":
            x[...] = x * 3 + 7
    elif isinstance(x, list):
        for y in x:
            junk(y)
        for i, y in enumerate(x):
            if isinstance(y, (int, float)) and not isinstance(y, bool):
                x[i] = y + 3
        x.append(x[0] if x else 1)
        del x[0]


def p_many(q):
    """(name, object, [caller's arrays and lists]) built or edited from plain arguments."""
    from czone.volume import Volume, MultiVolume, Sphere, Plane, Cylinder
    from czone.volume.voxel import Voxel
    from czone.generator import Generator, AmorphousGenerator
    from czone.molecule.molecule import Molecule
    from czone.scene import Scene
    from czone.transform import Translation, MatrixTransform, Rotation, Inversion, Reflection, MultiTransform
    from czone.transform.strain import HStrain, IStrain
    from pymatgen.core import Structure, Lattice
    L = lambda a: a.tolist() if q.i(4) == 0 else a
    v, d, h = q.vec(), q.dir(), np.array(q.hull(), float)
    k = q.i(NPOI)
    late = q.i(2)
    F = np.array(q.one([[[0, 0, 0]], [[0., 0, 0], [.5, .5, .4]]]))
    base = lambda: Generator.from_unit_cell([29] * len(F), F.copy(), [3.1, 3.3, 3.5], [90, 90, 90])
    if k == 0:
        c = L(v)
        s = Sphere(2.0, c if not late else [0, 0, 0])
        if late:
            s.center = c
        return "Sphere", s, [c]
    if k == 1:
        a, b = L(d), L(v)
        s = Plane(a, b) if not late else Plane([0, 0, 1], [0, 0, 0])
        if late:
            s.normal, s.point = a, b
        return "Plane", s, [a, b]
    if k == 2:
        a, b = L(d), L(v)
        s = Cylinder(a, b, 2.0, 3.0) if not late else Cylinder([0, 0, 1], [0, 0, 0], 2.0, 3.0)
        if late:
            s.axis, s.point = a, b
        return "Cylinder", s, [a, b]
    if k == 3:
        p = q.hull()
        how = q.i(4)
        o = Volume(points=p) if how == 0 else Volume(alg_objects=[Sphere(4.0, [0, 0, 0])]) if how == 1 else Volume(points=h.copy())
        if how in (1, 3):
            o.addPoints(p)
        if how == 2:
            o.points = p
        return "Volume points", o, [p]
    if k == 4:
        al, go = [Sphere(3.0, [0, 0, 0]), Plane(d, [0, 0, .5])], v.astype(float)
        return "Volume lists", Volume(alg_objects=al, generator=base(), gen_origin=go), [al, go]
    if k == 5:
        go = v.astype(float)
        o = Volume(points=h)
        o.add_generator(base(), go)
        return "add_generator", o, [go, h]
    if k == 6:
        m = [Volume(points=h), Volume(alg_objects=[Sphere(1.0, [9, 9, 9])])]
        o = MultiVolume(m) if not late else MultiVolume()
        if late:
            o.add_volume(m)
        return "MultiVolume", o, [m]
    if k == 7:
        b, ob = np.array([[-5., -5, -5], [5, 6, 7]]), [Volume(points=h)]
        o = Scene(bounds=b, objects=ob) if not late else Scene(objects=ob)
        if late:
            o.bounds = b
        return "Scene", o, [b, ob]
    if k == 8:
        z, p, R, o = q.one([[6, 1, 8], np.array([6, 1, 8]), np.array([6., 1, 8])]), L(q.pts(3)), np.array(q.rot()), L(v)
        m = Molecule(z, p, origin=o, orientation=R) if not late else Molecule([1, 1, 1], np.eye(3))
        if late:
            (m.set_atoms(z, p) if q.i(2) else (m.update_positions(p), m.update_species(z)))
            m.set_origin(point=o)
            m.orientation = R
        return "Molecule", m, [z, p, R, o]
    if k == 9:
        a = L(v)
        t = Translation(a) if not late else Translation()
        if late:
            t.shift = a
        return "Translation", t, [a]
    if k == 10:
        C = q.one([MatrixTransform, Rotation, Inversion])
        M, o = np.array(q.rot()), L(v)
        if C is Inversion:
            t = C(origin=o)
        else:
            t = C(M, origin=o) if not late else C()
            if late:
                t.matrix, t.origin = M, o
        return C.__name__, t, [M, o]
    if k == 11:
        a, b = L(d), L(v)
        return "Reflection", Reflection(Plane(a, b)), [a, b]
    if k == 12:
        ts = [Translation(v), Inversion()]
        t = MultiTransform(ts) if not late else MultiTransform()
        if late:
            t.add_transform(ts)
        return "MultiTransform", t, [ts, v]
    if k == 13:
        Z, f, dm, an, o = L(np.array([29] * len(F))), L(F.copy()), L(np.array([3.1, 3.3, 3.5])), L(np.array([90., 90, 80])), v.astype(float)
        return "from_unit_cell", Generator.from_unit_cell(Z, f, dm, an, origin=o), [Z, f, dm, an, o]
    if k == 14:
        Z, f, dm, an, o = [29], L(np.array([[0., 0, 0]])), L(np.array([3.3] * 3)), L(np.array([90.] * 3)), v.astype(float)
        return "from_spacegroup", Generator.from_spacegroup(Z, f, dm, an, sgn=225, origin=o), [Z, f, dm, an, o]
    if k == 15:
        M, f, Z, o = np.diag([3.1, 3.2, 3.4]) + .1, F.copy(), [29] * len(F), v.astype(float)
        G = Generator(structure=Structure(Lattice(M), Z, f), origin=o) if not late else Generator(structure=Structure(Lattice(M), Z, f))
        if late:
            G.origin = o
        return "Generator", G, [M, f, Z, o]
    if k == 16:
        B, s, o = np.diag([3.1, 3.2, 3.4]) + .1, q.one([np.array([1.2]), np.array([1.1, 1.2, .9]), [1.1, 1.2, .9]]), v.astype(float)
        x = Voxel(B, s, o) if not late else Voxel()
        if late:
            x.bases, x.scale, x.origin = B, s, o
        if q.i(2):
            G = base()
            G.voxel = x
            return "Generator.voxel", G, [B, s, o]
        return "Voxel", x, [B, s, o]
    if k == 17:
        o = L(v)
        x = AmorphousGenerator(origin=o) if not late else AmorphousGenerator()
        if late:
            x.origin = o
        return "AmorphousGenerator", x, [o]
    M = q.one([np.array([1.1, .9, 1.05]), np.array([1.1, .9, 1.05, .1, .05, .02]), (np.eye(3) + .05), (np.eye(3) + .05).ravel(), [1.1, .9, 1.05]])
    o = v.astype(float)
    G = base()
    s = HStrain(M, origin=o, mode="standard") if not late else HStrain(mode="standard")
    if late:
        s.matrix, s.origin, s.origin_type = M, o, "global"
    G.strain_field = s
    return "HStrain", G, [M, o]


NPOI = 19
poison_case = st.fixed_dictionaries(dict(seed=st.integers(0, 2**31)))


def run_poison(c, ctx):
    from czone.volume import BaseVolume
    from czone.scene import Scene
    name, ob, mine = p_many(A(c["seed"]))
    def look():
        d = see(ob)
        if isinstance(ob, Scene):
            return dict(d, o=[see(x) for x in ob.objects])
        return d
    fill = isinstance(ob, BaseVolume) and getattr(ob, "generator", None) is not None
    if fill:
        ob.populate_atoms()
    before = look()
    for x in mine:
        junk(x)
    same(before, look(), "%s by overwriting the caller's arrays" % name)
    if fill:
        ob.populate_atoms()
        same(before, look(), "%s (populated) by overwriting the caller's arrays" % name)
    ctx.label(name)
    ctx.hit()


PARTS = [Part("calls", calls_case, run_calls, quick=240, shards=8), Part("poison", poison_case, run_poison, quick=500, shards=2)]
