import numpy as np
from hypothesis import strategies as st
from pbt import Part, need
import geom as g, objs
from objs import Ob, TooLarge
from c12 import ovl, few

ID = "C13"
RULE = ("A case is a history of scene operations: add objects, change priorities and bounds, transform, extend members, edit regions, populate. After each population the scene is compared with the "
        "reference model of the current objects, with a scene freshly built from copies of them, with itself populated again, and its views (all_atoms, all_species, per-object atoms, ase_atoms, cell) "
        "with each other. Non-trivial: at least two populations with different non-empty atoms.")

ob_s = g.pick(objs.tree(few, 1, ovl), objs.tree(few, 1, ovl), objs.mol(few))
bounds = st.tuples(g.pick(g.vec(-20, 20), g.vec(-20, 20), g.vec(-20, 20), g.vec(-5000, 5000)), g.pick(g.vec(0.5, 40), g.vec(0.5, 40), g.vec(0.5, 40), g.vec(0.5, 4000))).map(lambda t: [t[0], [a + b for a, b in zip(*t)]])
op = g.pick(
    ob_s.map(lambda o: ["add", o]), ob_s.map(lambda o: ["add", o]),
    st.tuples(st.integers(0, 9), few).map(lambda t: ["priority", *t]),
    st.tuples(st.integers(0, 9), few).map(lambda t: ["member priority", *t]),
    st.tuples(st.integers(0, 9), st.integers(1, 8)).map(lambda t: ["swap", *t]), st.tuples(st.integers(0, 9), st.integers(1, 8)).map(lambda t: ["swap", *t]),
    bounds.map(lambda b: ["bounds", b]),
    st.tuples(st.integers(0, 9), objs.flag(g.isometry(1, 5))).map(lambda t: ["transform", *t]),
    st.tuples(st.integers(0, 9), objs.leaf(few, ovl)).map(lambda t: ["member", *t]),
    st.tuples(st.integers(0, 9), g.plane(g.vec(-3, 3))).map(lambda t: ["alg", *t]),
    st.just(["populate"]), st.just(["populate"]))
case = st.fixed_dictionaries(dict(b=g.pick(st.none(), bounds), first=g.pick(*[st.lists(ob_s, min_size=1, max_size=3)] * 6 + [st.lists(ob_s, min_size=4, max_size=9)]), how=st.sampled_from(["list", "one by one", "single"]), ops=g.pick(*[st.lists(op, min_size=1, max_size=7)] * 6 + [st.lists(op, min_size=8, max_size=16)])))


def check(sc, kids, bnd, first=False):
    sc.populate()
    need(len(sc.objects) == len(kids) and {id(x) for x in sc.objects} == {id(k.ob) for k in kids}, "the scene's objects are not those added")
    parts = {id(k.ob): p for k, p in zip(kids, objs.resolve(kids))}
    al, sp = g.as_pts(sc.all_atoms, what="all_atoms"), np.asarray(sc.all_species)
    need(sp.shape == (len(al),), "species shape %s for %d atoms", sp.shape, len(al))
    pos = 0
    for i, ob in enumerate(sc.objects):
        at = g.as_pts(sc.species_from_object(i), what="atoms of object")
        need(np.array_equal(al[pos:pos + len(at)], at), "atoms of object %d are not their part of all_atoms", i)
        objs.compare(at, sp[pos:pos + len(at)], parts[id(ob)], "object %d" % i)
        pos += len(at)
    need(pos == len(al), "%d atoms by object, %d in total", pos, len(al))
    views(sc, al, sp, bnd)
    # populating again changes nothing
    sc.populate()
    need(np.array_equal(al, sc.all_atoms) and np.array_equal(sp, sc.all_species), "populating again changes the atoms")
    # a fresh scene of copies holds the same atoms
    from czone.scene import Scene
    fresh = Scene(bounds=bnd, objects=[k.ob.from_molecule() if k.mol is not None else k.ob.from_volume() for k in kids])
    fresh.populate()
    fa, fs = np.asarray(fresh.all_atoms), np.asarray(fresh.all_species)
    need(len(fa) == len(al), "fresh scene has %d atoms, this one %d", len(fa), len(al))
    g.contains(al, sp, fa, fs, 1e-7, "atom absent from a fresh scene")
    return al, sp


def views(sc, al, sp, bnd):
    ase = sc.ase_atoms
    need(np.array_equal(ase.get_positions(), al), "positions of ase_atoms differ from all_atoms")
    need(np.array_equal(ase.get_atomic_numbers(), sp.astype(int)), "species of ase_atoms differ from all_species")
    g.close(sc.bounds, bnd, 1e-12, "bounds")
    g.close(np.array(ase.get_cell()), np.diag(np.asarray(bnd, float)[1] - np.asarray(bnd, float)[0]), 1e-9, "cell")


def run(c, ctx):
    from czone.scene import Scene
    try:
        kids = [Ob(s) for s in c["first"]]
        if c["how"] == "single":
            kids = kids[:1]
        kw = {} if c["b"] is None else dict(bounds=np.array(c["b"]))
        if c["how"] == "one by one":
            sc = Scene(**kw)
            for k in kids:
                sc.add_object(k.ob)
        else:
            sc = Scene(objects=kids[0].ob if c["how"] == "single" else [k.ob for k in kids], **kw)
        bnd = [[0.0] * 3, [10.0] * 3] if c["b"] is None else c["b"]
        seen, stale = [], True
        last = None
        for op in c["ops"] + [["populate"]]:
            k = op[0]
            ctx.label(k)
            if k == "populate":
                al, sp = check(sc, kids, bnd)
                last = (al, sp)
                stale = False
                if len(al) and not any(len(x) == len(al) and np.allclose(x, al) for x in seen):
                    seen.append(al)
                continue
            o = kids[op[1] % len(kids)] if k not in ("add", "bounds") else None
            if k == "add":
                nk = Ob(op[1])
                kids.append(nk)
                sc.add_object(nk.ob)
                stale = True
            elif k == "bounds":
                arr = np.array(op[1])
                sc.bounds = arr
                arr += 100.0
                bnd = op[1]
            elif k == "priority":
                o.ob.priority = op[2]
                o.pr = op[2]
            elif k == "swap":
                o2 = kids[(op[1] + op[2]) % len(kids)]
                o.ob.priority, o2.ob.priority = o2.pr, o.pr
                o.pr, o2.pr = o2.pr, o.pr
            elif k == "member priority":
                if o.kids:
                    m = o.kids[op[1] % len(o.kids)]
                    m.ob.priority = op[2]
                    m.pr = op[2]
            elif k == "transform":
                o.ob.transform(g.build_t(op[2]))
                o.apply(op[2])
                stale = True
            elif k == "member":
                if o.kids is not None:
                    nk = Ob(op[2])
                    o.ob.add_volume(nk.ob)
                    o.kids.append(nk)
                    stale = True
            elif k == "alg":
                ls = [l for l in o.leaves() if l.mol is None]
                if ls:
                    l = ls[op[1] % len(ls)]
                    new = l.alg + [op[2]]
                    if l.pts is None and all(s["k"] == "plane" for s in new) and len(g.polytope_vertices(new)) < 4:
                        continue
                    l.ob.add_alg_object(g.build_surface(op[2]))
                    l.alg = new
            if not stale and last is not None:
                views(sc, last[0], last[1], bnd)  # edits show only at the next population; the cell follows the bounds
        ctx.hit(len(seen) >= 2)
    except TooLarge:
        ctx.label("too large")


PARTS = [Part("history", case, run, quick=1500, thorough=9000, shards=8)]
