import warnings
import numpy as np
from hypothesis import strategies as st
from pbt import Part, need, fail
import geom as g

ID = "C19"
RULE = ("A case is a molecule built in one of several ways and a history of edits (transformations with and without the origin, position and species updates, replacement of all atoms, origin changes, "
        "atom removals in several index forms, copies, export/import round trips, refused operations); after each edit atoms, species, origin, priority and views are compared with a list model. "
        "Non-trivial: at least two edits changed the molecule while its origin was off zero or tracking an atom.")

N = st.integers(1, 8)
atom = st.tuples(st.integers(1, 94), g.vec(-9, 9))


def mol_s(lo=1, hi=8):
    few = st.lists(atom, min_size=lo, max_size=hi).map(lambda a: dict(z=[x[0] for x in a], p=[x[1] for x in a]))
    many = st.tuples(st.sampled_from([15, 40, 120, 400]), g.vec(0, 1)).map(lambda t: dict(z=[1 + i * i % 94 for i in range(t[0])], p=np.round(g.kron(*t) * 18 - 9, 4).tolist()))
    return g.pick(*[few] * 9 + [many])


anyt = g.pick(g.isometry(1), g.isometry(1), g.matrix_t())
nth = g.pick(*[st.integers(-9, 9)] * 6 + [st.integers(-400, 400)])
op = g.pick(
    st.tuples(anyt, st.sampled_from([True, True, None, False])).map(lambda t: ["transform", *t]),
    st.tuples(st.lists(g.vec(-9, 9), min_size=14, max_size=14), st.sampled_from(["rows", "flat", "list"])).map(lambda t: ["positions", *t]),
    st.tuples(g.pick(*[st.lists(st.integers(1, 94), min_size=14, max_size=14)] * 3 + [st.lists(g.pick(st.integers(0, 118), st.integers(0, 70000)), min_size=14, max_size=14)]), st.sampled_from(["flat", "column", "list"])).map(lambda t: ["species", *t]),
    mol_s(1, 6).map(lambda m: ["atoms", m]),
    g.vec(-9, 9).map(lambda v: ["origin", v]),
    nth.map(lambda i: ["track", i]), nth.map(lambda i: ["track", i]),
    st.tuples(g.pick(*[st.lists(nth, max_size=4)] * 5 + [st.lists(st.integers(-300, 300), min_size=5, max_size=60)]), st.sampled_from(["list", "array", "tuple", "range", "np ints"]), g.pick(st.none(), st.none(), nth)).map(lambda t: ["remove", *t]),
    st.tuples(g.pick(*[st.lists(nth, max_size=4)] * 5 + [st.lists(st.integers(-300, 300), min_size=5, max_size=60)]), st.sampled_from(["list", "array", "tuple", "range", "np ints"]), g.pick(st.none(), nth)).map(lambda t: ["remove", *t]),
    st.lists(anyt, max_size=2).map(lambda l: ["copy", l]),
    st.sampled_from(["ase", "pmg"]).map(lambda k: ["round trip", k]),
    st.sampled_from(["track far", "remove far", "positions shape", "species shape", "origin shape", "atoms mismatch", "origin float"]).map(lambda k: ["refused", k]),
    st.integers(-50, 50).map(lambda i: ["priority", i]))
case = st.fixed_dictionaries(dict(m=mol_s(), how=st.sampled_from(["plain", "column species", "lists", "ase", "pmg", "flat positions"]), o=g.pick(st.none(), nth, g.vec(-9, 9)), ops=st.lists(op, min_size=1, max_size=12)))


def make(c):
    from ase import Atoms
    from pymatgen.core import Molecule as PM
    from czone.molecule.molecule import Molecule
    z, p, n = c["m"]["z"], c["m"]["p"], len(c["m"]["z"])
    kw, o = {}, np.zeros(3)
    if isinstance(c["o"], int):
        i = c["o"] % n
        o = i
        kw = dict(origin=i if c["o"] >= 0 or i == 0 else i - n)
    elif c["o"] is not None:
        o = np.array(c["o"], float)
        kw = dict(origin=np.array(c["o"], float))
    if c["how"] == "ase":
        return Molecule.from_ase_atoms(Atoms(numbers=z, positions=p)), np.zeros(3)
    if c["how"] == "pmg":
        return Molecule.from_pmg_molecule(PM(z, p)), np.zeros(3)
    if c["how"] == "lists":
        return Molecule(list(z), [list(x) for x in p], **kw), o
    if c["how"] == "column species":
        return Molecule(np.array(z)[:, None], np.array(p), **kw), o
    if c["how"] == "flat positions":
        return Molecule(np.array(z), np.array(p).ravel(), **kw), o
    return Molecule(np.array(z), np.array(p), **kw), o


def run(c, ctx):
    from ase import Atoms
    from pymatgen.core import Molecule as PM
    from czone.molecule.molecule import Molecule
    mol, o = make(c)
    mol.print_warnings = False
    A = [(np.array(p, float), z) for p, z in zip(c["m"]["p"], c["m"]["z"])]
    pr = 0
    sc = 10.0

    def check(mol, what):
        p, z = np.array([x[0] for x in A], float).reshape(-1, 3), np.array([x[1] for x in A], int)
        at = g.as_pts(mol.atoms, what="atoms")
        need(at.shape == p.shape, "%s: %d atoms, expected %d", what, len(at), len(p))
        need(np.abs(at - p).max(initial=0) <= 1e-9 * sc, "%s: atoms %s, expected %s", what, at.tolist(), p.tolist())
        sp = np.asarray(mol.species)
        need(sp.shape == z.shape and np.array_equal(sp, z), "%s: species %s, expected %s", what, sp.tolist(), z.tolist())
        e = p[o] if isinstance(o, int) else o
        got = np.asarray(mol.origin, float)
        need(got.shape == (3,) and np.abs(got - e).max() <= 1e-9 * sc, "%s: origin %s, expected %s%s", what, got.tolist(), e.tolist(), " (atom %d)" % o if isinstance(o, int) else "")
        need(mol.priority == pr, "%s: priority %s, expected %s", what, mol.priority, pr)
        ase = mol.ase_atoms
        need(np.array_equal(ase.get_atomic_numbers(), z) and np.array_equal(ase.get_positions(), at), "%s: ase_atoms differ from atoms", what)
    check(mol, "initially")
    acted = 0
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for op in c["ops"]:
            k, n = op[0], len(A)
            ctx.label(k)
            offzero = isinstance(o, int) or np.any(o)
            if k == "transform":
                M, b = g.affine(op[1])
                t = g.build_t(op[1])
                if op[2] is None:
                    mol.transform(t)
                else:
                    mol.transform(t, transform_origin=op[2])
                A = [(M @ x + b, z) for x, z in A]
                if not isinstance(o, int) and op[2] is not False:
                    o = M @ o + b
                sc = max([sc] + [np.abs(x).max() for x, _ in A] + ([] if isinstance(o, int) else [np.abs(o).max()]))
                if sc > 1e5:
                    break
            elif k == "positions":
                P = np.array([op[1][i % 14] for i in range(n)], float).reshape(-1, 3) + np.arange(n)[:, None] // 14
                arg = P.ravel() if op[2] == "flat" else P.tolist() if op[2] == "list" else P.copy()
                mol.update_positions(arg)
                A = [(P[i], A[i][1]) for i in range(n)]
            elif k == "species":
                s = [op[1][(i + i // 14) % 14] for i in range(n)]
                mol.update_species(np.array(s, int) if op[2] == "flat" else np.array(s, int)[:, None] if op[2] == "column" else s)
                A = [(A[i][0], s[i]) for i in range(n)]
            elif k == "atoms":
                m = op[1]
                if isinstance(o, int) and len(m["z"]) != n:
                    continue
                mol.set_atoms(np.array(m["z"]), np.array(m["p"], float))
                A = [(np.array(p, float), z) for p, z in zip(m["p"], m["z"])]
            elif k == "origin":
                mol.set_origin(point=np.array(op[1]))
                o = np.array(op[1])
            elif k == "track":
                if not n:
                    continue
                i = op[1] % n
                mol.set_origin(idx=i - n if op[1] < 0 and i else i)
                # a negative index tracks the atom it names
                o = i
            elif k == "remove":
                if not n:
                    continue
                idx = [i % n if i >= 0 else i % n - n for i in op[1]]
                if op[2] == "range":
                    idx = list(range(min(idx, default=0), max(idx, default=-1) + 1))
                    arg = range(idx[0], idx[-1] + 1) if idx else range(0)
                else:
                    arg = {"array": np.array(idx, int), "tuple": tuple(idx), "np ints": [np.int64(i) for i in idx]}.get(op[2], idx)
                gone = {i % n for i in idx}
                new = None if op[3] is None else op[3] % n
                keep = [i for i in range(n) if i not in gone]
                track = o if new is None else new
                bad = isinstance(track, int) and track in gone
                try:
                    mol.remove_atoms(arg) if new is None else mol.remove_atoms(arg, new if op[3] >= 0 or new == 0 else new - n)
                except (IndexError, NotImplementedError):
                    need(bad, "removing atoms %s (origin %s, new origin %s) refused", idx, o, op[3])
                    ctx.label("removal of origin refused")
                else:
                    need(not bad, "removing atoms %s with the origin's atom %s accepted", idx, track)
                    A = [A[i] for i in keep]
                    if isinstance(track, int):
                        o = keep.index(track)
                    if gone and isinstance(o, int):
                        ctx.label("removal under tracking")
            elif k == "copy":
                old = mol
                mol = mol.from_molecule(transformation=[g.build_t(t) for t in op[1]]) if op[1] else mol.from_molecule()
                need(mol is not old, "the copy is the molecule itself")
                check(old, "source of a copy")
                for t in op[1]:
                    M, b = g.affine(t)
                    A = [(M @ x + b, z) for x, z in A]
                    o = o if isinstance(o, int) else M @ o + b
                sc = max([sc] + [np.abs(x).max() for x, _ in A] + ([] if isinstance(o, int) else [np.abs(o).max()]))
                if sc > 1e5:
                    break
            elif k == "round trip":
                if op[1] == "ase":
                    mol = Molecule.from_ase_atoms(mol.ase_atoms)
                else:
                    if not n or not all(1 <= x[1] <= 118 for x in A):
                        continue
                    mol = Molecule.from_pmg_molecule(PM(list(mol.species), np.asarray(mol.atoms)))
                mol.print_warnings = False
                o, pr = np.zeros(3), 0
            elif k == "priority":
                mol.priority = op[1]
                pr = op[1]
            elif k == "refused":
                z = np.array([x[1] for x in A])
                act = {"track far": lambda: mol.set_origin(idx=n + 2), "remove far": lambda: mol.remove_atoms([n + 2] if not n else [0, n + 2]),
                       "positions shape": lambda: mol.update_positions(np.zeros((n + 1, 3))), "species shape": lambda: mol.update_species(np.ones(n + 1, int)),
                       "origin shape": lambda: mol.set_origin(point=np.zeros(4)), "atoms mismatch": lambda: mol.set_atoms(np.ones(n + 1, int), np.zeros((n, 3))),
                       "origin float": lambda: mol.set_origin(idx=0.5)}[op[1]]
                try:
                    act()
                except (ValueError, IndexError, TypeError, AssertionError, NotImplementedError):
                    pass
                else:
                    fail("%s accepted", op[1])
            else:
                continue
            check(mol, "after " + k)
            acted += offzero and k in ("transform", "remove", "positions", "species", "atoms", "copy")
    ctx.hit(acted >= 2)


PARTS = [Part("history", case, run, quick=3000, thorough=50000, shards=8)]
