import numpy as np
from hypothesis import strategies as st
from pbt import Part, need
import geom as g, objs
from objs import Ob, TooLarge

ID = "C12"
RULE = ("A case is a collection of overlapping volumes, nested multi-volumes and molecules with priorities (ties, negatives), put in a scene or multi-volume in two different orders. The surviving "
        "atoms of each object are compared with a naive per-atom precedence model; both orders must give the same atoms. Non-trivial: at least one atom excluded by another object and one surviving.")

ovl = g.pick(
    st.tuples(g.vec(3, 10), g.vec(-4, 4)).map(lambda t: dict(pts=[[t[1][0] + i * t[0][0], t[1][1] + j * t[0][1], t[1][2] + k * t[0][2]] for i in (-.5, .5) for j in (-.5, .5) for k in (-.5, .5)], alg=[])),
    g.sphere(g.vec(-4, 4), 7).map(lambda s: dict(pts=None, alg=[s])),
    g.cyl(g.vec(-4, 4), 5).map(lambda s: dict(pts=None, alg=[s])),
    g.hull_points().map(lambda p: dict(pts=p, alg=[])),
    g.vol())
few = g.few_priorities()
small = st.tuples(g.vec(2, 5), g.vec(-6, 6)).map(lambda t: dict(pts=[[t[1][0] + i * t[0][0], t[1][1] + j * t[0][1], t[1][2] + k * t[0][2]] for i in (-.5, .5) for j in (-.5, .5) for k in (-.5, .5)], alg=[]))
many = st.lists(objs.leaf(few, small), min_size=13, max_size=30)
obs = st.lists(g.pick(objs.tree(few, 1, ovl), objs.tree(few, 2, ovl), objs.mol(few)), min_size=2, max_size=5)
mobs = st.lists(g.pick(objs.tree(few, 1, ovl), objs.leaf(few, ovl)), min_size=2, max_size=5)
wide = st.tuples(st.lists(objs.leaf(few, ovl), min_size=5, max_size=8), few, st.lists(objs.leaf(few, ovl), min_size=1, max_size=2)).map(lambda t: [dict(m=t[0], pr=t[1])] + t[2])
crowd = g.pick(*[obs] * 8 + [many, wide, st.lists(g.pick(objs.tree(few, 1, ovl), objs.mol(few)), min_size=6, max_size=12), st.lists(objs.tree(few, 3, ovl), min_size=2, max_size=3)])
case = st.fixed_dictionaries(dict(obs=crowd, perm=st.integers(0, 10**6)))
mcrowd = g.pick(*[mobs] * 8 + [many, wide, st.lists(objs.leaf(few, ovl), min_size=6, max_size=12), st.lists(objs.tree(few, 2, ovl), min_size=2, max_size=3)])
mcase = st.fixed_dictionaries(dict(obs=mcrowd, perm=st.integers(0, 10**6)))


def order(n, k):
    left, out = list(range(n)), []
    while left:
        out.append(left.pop(k % len(left)))
        k //= max(1, len(left) + 1)
    return out


def stats(parts, kids, ctx):
    total, kept = sum(len(k.expected()[0]) for k in kids), sum(p[2].sum() for p in parts)
    ctx.hit(kept > 0 and kept < total)


def run_scene(c, ctx):
    from czone.scene import Scene
    try:
        ords = [list(range(len(c["obs"]))), order(len(c["obs"]), c["perm"])]
        for od in ords:
            kids = [Ob(c["obs"][i]) for i in od]
            sc = Scene(objects=[k.ob for k in kids])
            sc.populate()
            parts = objs.resolve(kids)
            byid = {id(k.ob): (k, p) for k, p in zip(kids, parts)}
            need(len(sc.objects) == len(kids) and {id(x) for x in sc.objects} == set(byid), "scene holds other objects than those added")
            tot, spec = [], []
            for i, ob in enumerate(sc.objects):
                k, p = byid[id(ob)]
                at = g.as_pts(sc.species_from_object(i), what="atoms of object")
                tot.append(at)
                # species of the surviving atoms of this object come from the total
                objs.verify(k, "object %d by itself" % i)
            al, sp = g.as_pts(sc.all_atoms, what="all_atoms"), np.asarray(sc.all_species)
            need(sp.shape == (len(al),), "%s species for %d atoms", sp.shape, len(al))
            need(len(al) == sum(map(len, tot)), "%d atoms in total but %d by object", len(al), sum(map(len, tot)))
            pos = 0
            for i, ob in enumerate(sc.objects):
                n = len(tot[i])
                need(np.array_equal(al[pos:pos + n], tot[i]), "atoms of object %d differ from their part of all_atoms", i)
                objs.compare(tot[i], sp[pos:pos + n], byid[id(ob)][1], "object %d (priority %d)" % (i, ob.priority))
                pos += n
            stats(parts, kids, ctx)
        ctx.label("objects:%d" % len(c["obs"]), *["mol" if "mol" in s else "multi" if "m" in s else "vol" for s in c["obs"]])
        if len({s["pr"] for s in c["obs"]}) < len(c["obs"]):
            ctx.label("ties")
    except TooLarge:
        ctx.label("too large")


def run_multi(c, ctx):
    from czone.volume import MultiVolume
    try:
        for od in [list(range(len(c["obs"]))), order(len(c["obs"]), c["perm"])]:
            o = Ob(dict(m=[c["obs"][i] for i in od], pr=0))
            o.ob.populate_atoms()
            objs.verify(o, "multi-volume")
            stats(objs.resolve(o.kids), o.kids, ctx)
        ctx.label("members:%d" % len(c["obs"]))
    except TooLarge:
        ctx.label("too large")


PARTS = [Part("scene", case, run_scene, quick=800, thorough=12000, shards=8), Part("multivolume", mcase, run_multi, quick=700, thorough=8000, shards=8)]
