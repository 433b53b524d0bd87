import os, shutil, tempfile
import numpy as np
from hypothesis import strategies as st
from pbt import Part, need, HarnessError
import geom as g, objs
from objs import Ob, TooLarge
from c12 import ovl, few

ID = "C14"
RULE = ("A case is a populated scene, volume or multi-volume (with bounds for scenes), a sequence of exports to one or more file names in several formats (named, or inferred from the extension), with "
        "options. Each file is read back with ASE's reader and compared atom by atom, in order. Non-trivial: at least two atoms and one export.")
ASSUMPTIONS = ["ASE's file readers and writers are trusted."]

FMT = [("xyz", "a.xyz", True), ("extxyz", "b.xyz", True), (None, "c.xyz", True), ("cif", "d.cif", True), (None, "e.cif", True), ("vasp", "f.vasp", True), (None, "POSCAR", True),
       ("json", "g.json", True), (None, "h.json", True), ("traj", "i.traj", True), (None, "j.traj", True), ("prismatic", "k.xyz", True), ("gen", "l.gen", True), ("extxyz", "m.dat", True),
       ("prismatic", "n.XYZ", True), ("prismatic", "o", True),
       ("vasp", "p.xyz", True), ("cif", "q.xyz", True), ("json", "r.xyz", True), ("gen", "s.cif", True), ("xyz", "t.json", True), ("traj", "POSCAR.cif", True)]
NEEDS_CELL = {"vasp", "prismatic", "cif"}
NO_CELL = {"xyz", "gen"}   # formats that do not store the cell of a non-periodic structure
EXACT = {"json": 1e-12, "traj": 1e-12, "extxyz": 2e-8, "xyz": 2e-8, "gen": 1e-9, "vasp": 1e-8, "cif": 2e-4}

bounds = st.tuples(g.pick(g.vec(-20, 5), g.vec(-20, 5), g.vec(-20, 5), g.vec(-5000, 5000)), g.pick(g.vec(4, 40), g.vec(4, 40), g.vec(4, 40), g.vec(4, 4000))).map(lambda t: [t[0], [a + b for a, b in zip(*t)]])
export = st.fixed_dictionaries(dict(f=st.integers(0, len(FMT) - 1), same=st.booleans(), dw=st.sampled_from([None, None, "dict", "float"]), c=g.num(0.01, 3, 3)))
case = st.fixed_dictionaries(dict(kind=st.sampled_from(["scene", "scene", "scene", "volume", "multi"]), obs=st.lists(g.pick(*[objs.tree(few, 1, ovl), objs.tree(few, 1, ovl), objs.mol(few)] * 8, objs.big_mol(few)), min_size=1, max_size=3),
                                  b=g.pick(bounds, bounds, st.none()), ex=st.lists(export, min_size=1, max_size=4), move=g.pick(st.none(), g.isometry(0, 6))))


def snapshot(ob):
    at = ob.ase_atoms
    return at.get_positions().copy(), at.get_atomic_numbers().copy(), np.array(at.get_cell())


def folds(pos, ext):
    """Atoms coincide once wrapped into the cell: readers of this format merge them."""
    f = pos / ext
    f = (f - np.floor(f)) * ext
    f[f >= ext[None] * (1 - 1e-12)] = 0
    from scipy.spatial import cKDTree
    return len(f) > 1 and (len(cKDTree(f, boxsize=ext).query_pairs(0.05)) > 0 or len(cKDTree(f / ext % 1, boxsize=1.0).query_pairs(1.5e-3, p=np.inf)) > 0)


def run(c, ctx):
    from ase.io import read
    from ase.data import chemical_symbols
    from czone.scene import Scene
    d = tempfile.mkdtemp(prefix="verif_c14_")
    try:
        specs = c["obs"]
        if c["kind"] == "scene":
            kids = [Ob(s) for s in specs]
            ob = Scene(objects=[k.ob for k in kids], **({} if c["b"] is None else dict(bounds=np.array(c["b"]))))
            ob.populate()
            bnd = np.array([[0.0] * 3, [10.0] * 3] if c["b"] is None else c["b"])
        else:
            vols = [s for s in specs if "mol" not in s]
            if not vols:
                return
            o = Ob(dict(m=vols, pr=0) if c["kind"] == "multi" else next((s for s in vols if "v" in s), vols[0]))
            if c["move"] is not None:
                o.ob.transform(g.build_t(c["move"]))
            ob = o.ob
            ob.populate_atoms()
            bnd = None
        pos, num, cell = snapshot(ob)
        own = (np.array(ob.all_atoms), np.array(ob.all_species)) if c["kind"] == "scene" else (np.array(ob.atoms), np.array(ob.species))
        need(np.array_equal(own[0], pos) and np.array_equal(own[1].astype(int), num), "ase_atoms does not hold the object's atoms")
        if len(pos) == 0 or len(pos) > 3000:
            ctx.label("empty" if len(pos) == 0 else "large")
            return
        if bnd is not None:
            g.close(np.diag(cell), bnd[1] - bnd[0], 1e-12, "cell")
        for e in c["ex"]:
            fmt, name, _ = FMT[e["f"]]
            real = fmt or {"xyz": "extxyz", "cif": "cif", "json": "json", "traj": "traj", "POSCAR": "vasp"}[name.split(".")[-1]]
            if bnd is None and real in NEEDS_CELL:
                continue
            path = os.path.join(d, name)
            if e["same"] and os.path.exists(path):
                ctx.label("overwrite")
            kw = {} if fmt is None else dict(format=fmt)
            dw = None
            if real == "prismatic":
                if e["dw"] == "dict":
                    dw = {chemical_symbols[z]: e["c"] + 0.01 * i for i, z in enumerate(sorted(set(num.tolist())))}
                    kw["debye_waller_factors"] = dict(dw)
                elif e["dw"] == "float" and len(set(num.tolist())) == 1:
                    dw = e["c"]
                    kw["debye_waller_factors"] = dw
            ob.to_file(path, **kw)
            p2, n2, c2 = snapshot(ob)
            need(np.array_equal(p2, pos) and np.array_equal(n2, num) and np.array_equal(c2, cell), "exporting changed the object")
            if isinstance(dw, dict):
                need(kw["debye_waller_factors"] == dw, "exporting changed the Debye-Waller factors given")
            need(os.path.isfile(path), "no file written")
            ctx.label(real, "named" if fmt else "inferred")
            if real == "prismatic":
                lines = open(path).read().splitlines()
                need(lines[-1].strip() == "-1", "simulation file does not end in -1")
                g.close(np.array(lines[1].split(), float), np.diag(cell), 1e-5, "cell in file")
                t = np.array([l.split() for l in lines[2:-1]], float).reshape(-1, 6)
                need(len(t) == len(pos), "%d atoms in file instead of %d", len(t), len(pos))
                need(np.array_equal(t[:, 0].astype(int), num), "species in file differ")
                need(np.abs(t[:, 1:4] - pos).max() <= 2e-5 * (1 + np.abs(pos).max()), "positions in file differ by %g", np.abs(t[:, 1:4] - pos).max())
                B = np.full(len(num), 0.1 ** 2 * 8 * np.pi ** 2) if dw is None else np.full(len(num), dw) if not isinstance(dw, dict) else np.array([dw[chemical_symbols[z]] for z in num])
                need(np.abs(t[:, 5] - np.sqrt(B / (8 * np.pi ** 2))).max() < 1e-5, "Debye-Waller column %s, expected rms %s", t[:3, 5].tolist(), np.sqrt(B / (8 * np.pi ** 2))[:3].tolist())
            elif real == "cif" and bnd is not None and folds(pos, np.diag(cell)):
                ctx.label("cif with periodic images coinciding: not compared")
            else:
                b = read(path, format=real)
                need(len(b) == len(pos), "%s: %d atoms read instead of %d", real, len(b), len(pos))
                need(np.array_equal(b.get_atomic_numbers(), num), "%s: species differ", real)
                diff = b.get_positions() - pos
                lim = EXACT[real] * (1 + np.abs(pos).max())
                if real == "cif" and bnd is not None:
                    ext = np.diag(cell)
                    lim += 2e-5 * ext.max()  # fractional coordinates with five digits
                    diff = diff - np.round(diff / ext) * ext
                need(np.abs(diff).max() <= lim, "%s: positions differ by %g", real, np.abs(diff).max())
                if bnd is not None and real not in NO_CELL:
                    need(np.abs(np.array(b.get_cell()) - cell).max() < 1e-4 * (1 + np.abs(cell).max()), "%s: cell %s instead of %s", real, np.array(b.get_cell()).tolist(), cell.tolist())
        ctx.label(c["kind"])
        ctx.hit(len(pos) > 1)
    except TooLarge:
        ctx.label("too large")
    finally:
        shutil.rmtree(d, ignore_errors=True)


PARTS = [Part("export", case, run, quick=1500, thorough=10000, shards=8)]
