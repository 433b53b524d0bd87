import itertools
import numpy as np
from hypothesis import strategies as st
from pbt import Part, need
import geom as g, objs
from c12 import ovl, few
from c21 import build_fcc

ID = "C36"
RULE = ("A case is a scene mixing crystals (also with all atoms of a species substituted), amorphous blocks, Wulff particles, fcc particles with twins and stacking faults, grain boundaries, empty volumes, molecules and multi-volumes of "
        "these, and a history of population, movement, change of priority, addition of moved copies and of new objects. After every population each object's own atoms are judged against its own region, its atoms as first populated "
        "(moved along) and, for amorphous parts, spacing and number; multi-volumes and the scene against a per-atom precedence model over independently computed regions. "
        "Non-trivial: at least two kinds of content, an atom excluded by another object and one surviving.")
ASSUMPTIONS = ["Atoms within 3e-6 (relative to position) of the boundary of a region may go either way.", "Moves are isometries."]

fccs = st.fixed_dictionaries(dict(a=g.num(3.2, 4.6, 3), z=g.pick(st.just([29]), st.just([29, 79, 79, 79])), o=g.pick(st.none(), g.vec(-3, 3)), tr=st.lists(g.isometry(0, 6), max_size=1), sc=st.none(), by=st.just("cell")))
cry = st.tuples(objs.leaf(few, ovl), st.booleans()).map(lambda t: dict(kind="crystal", leaf=t[0], sub=t[1]))
amo = st.fixed_dictionaries(dict(kind=st.just("amorphous"), v=ovl, md=g.num(1.2, 2.2), rho=g.num(0.05, 0.22), z=st.integers(1, 90), pr=few, reuse=st.booleans()))
wulff = st.fixed_dictionaries(dict(kind=st.just("wulff"), f=fccs, shape=st.sampled_from(["cube", "cuboctohedron", "octohedron", "truncated_octohedron"]), n=st.integers(20, 250), pr=few))
twin = st.fixed_dictionaries(dict(kind=st.just("twin"), f=fccs, r=g.num(7, 9.5), c=g.vec(-4, 4), N=st.integers(1, 2), plane=st.sampled_from([p for p in itertools.product((1, -1), repeat=3)]),
                                  ty=st.sampled_from(["mixed", "twin", "fault"]), seed=st.integers(0, 2**31), pr=few))
gb = st.fixed_dictionaries(dict(kind=st.just("boundary"), f=fccs, s=g.vec(5, 10), c=g.vec(-4, 4), n=g.direction(), z1=st.sampled_from([(1, 0, 0), (1, 1, 0), (1, 1, 1), (2, 1, 0)]), z2=st.sampled_from([(0, 0, 1), (1, 1, 0), (1, 1, 2), (3, 1, 0)]), pr=few))
mol = g.pick(*[objs.mol(few)] * 5, objs.big_mol(few)).map(lambda m: dict(kind="molecule", leaf=m))
single = g.pick(cry, cry, amo, amo, wulff, twin, gb, mol)
inner = g.pick(cry, amo, wulff, twin, gb)
ob_s = g.pick(*[single] * 5, st.tuples(st.lists(g.pick(inner, st.tuples(st.lists(inner, min_size=1, max_size=2), few).map(lambda t: dict(kind="multi", m=t[0], pr=t[1]))), min_size=1, max_size=3), few).map(lambda t: dict(kind="multi", m=t[0], pr=t[1])))
move = g.isometry(1)
op = g.pick(st.tuples(st.just("move"), st.integers(0, 9), move), st.tuples(st.just("move"), st.integers(0, 9), move), st.tuples(st.just("priority"), st.integers(0, 9), few), st.tuples(st.just("copy"), st.integers(0, 9), move, few),
            st.tuples(st.just("add"), single), st.just(("populate",)))
case = st.fixed_dictionaries(dict(obs=st.lists(ob_s, min_size=1, max_size=4), ops=st.lists(op, max_size=4)))


def surf(s):
    n = type(s).__name__
    if n == "Sphere":
        return dict(k="sphere", r=float(s.radius), c=np.array(s.center, float).ravel().tolist(), tol=None)
    if n == "Cylinder":
        return dict(k="cyl", a=np.array(s.axis, float).ravel().tolist(), p=np.array(s.point, float).ravel().tolist(), r=float(s.radius), l=float(s.length), tol=None)
    return dict(k="plane", n=np.array(s.normal, float).ravel().tolist(), p=np.array(s.point, float).ravel().tolist(), tol=None)


class Item:
    """A real object with an independent record of its region and of what fills it."""

    def __init__(self, ob, pr, kind):
        self.ob, self.pr, self.kind, self.kids, self.vspec, self.fresh, self.amo, self.far = ob, pr, kind, None, None, None, None, 0.0

    def leaves(self):
        return [self] if self.kids is None else [x for k in self.kids for x in k.leaves()]

    def multis(self):
        return [] if self.kids is None else [self] + [x for k in self.kids for x in k.multis()]

    def apply(self, t):
        A, b = g.affine(t)
        for l in self.leaves():
            if l.vspec is not None:
                l.vspec = g.vol_transform(l.vspec, A, b)
            if l.fresh is not None:
                l.fresh = (l.fresh[0] @ A.T + b, l.fresh[1])

    def margin(self, q):
        if self.kids is not None:
            m, b = np.full(len(q), -np.inf), np.full(len(q), np.inf)
            for k in self.kids:
                mk, bk = k.margin(q)
                m, b = np.maximum(m, mk), np.minimum(b, bk)
            return m, b
        if self.vspec is None:
            return np.full(len(q), -np.inf), np.full(len(q), np.inf)
        m, b = np.full(len(q), np.inf), np.full(len(q), np.inf)
        if self.vspec["pts"] is not None:
            h = g.hull_margin(self.vspec["pts"], q)
            m, b = np.minimum(m, h), np.minimum(b, np.abs(h))
        for s in self.vspec["alg"]:
            h = g.surf_margin(s, q)
            m, b = np.minimum(m, h), np.minimum(b, np.abs(h))
        return m, b


def read(ob, kind):
    """Item for an object made by a prefab: the region is read off once, from points and surfaces."""
    it = Item(ob, ob.priority, kind)
    if hasattr(ob, "volumes"):
        it.kids = [read(v, kind) for v in ob.volumes]
    else:
        it.vspec = dict(pts=None if ob.points is None else np.array(ob.points, float).tolist(), alg=[surf(s) for s in ob.alg_objects])
    return it


def model(it, top):
    """Item of a copy, with the region of the original."""
    c = Item(top, it.pr, it.kind)
    c.amo, c.far = it.amo, it.far
    if it.kids is not None:
        need(len(top.volumes) == len(it.kids), "copy of a multi-volume holds %d volumes instead of %d", len(top.volumes), len(it.kids))
        by = {id(k.ob): k for k in it.kids}   # population sorts the members by priority
        c.kids = [model(by[id(u)], v) for u, v in zip(it.ob.volumes, top.volumes)]
    c.vspec = it.vspec
    c.fresh = it.fresh
    return c


def prefab(s):
    from czone.generator import NullGenerator
    import czone.prefab.prefab as P
    from czone.prefab.wulff import WulffSingle
    gen = build_fcc(s["f"])
    if s["kind"] == "wulff":
        return getattr(WulffSingle, s["shape"])(gen, natoms=s["n"])
    if s["kind"] == "twin":
        vol = g.build_vol(dict(pts=None, alg=[dict(k="sphere", r=s["r"], c=s["c"], tol=None)]), generator=gen)
        cl = dict(mixed=P.fccMixedTwinSF, twin=P.fccTwin, fault=P.fccStackingFault)[s["ty"]]
        np.random.seed(s["seed"] % 2**32)
        return cl(generator=gen, volume=vol, N=s["N"], min_sep=1, plane=s["plane"]).build_object()
    pts = [[c + k * h / 2 for c, h, k in zip(s["c"], s["s"], sg)] for sg in itertools.product((-1, 1), repeat=3)]
    vol = g.build_vol(dict(pts=pts, alg=[]), generator=NullGenerator())
    return P.SimpleGrainBoundary(z1=s["z1"], r1=0.0, plane=g.build_surface(dict(k="plane", n=s["n"], p=s["c"], tol=None)), volume=vol, generator=gen, z2=s["z2"]).build_object()


def make(s):
    from czone.generator import AmorphousGenerator
    from czone.transform.post import ChemicalSubstitution
    from czone.volume import MultiVolume
    k = s["kind"]
    if k == "multi":
        kids = [make(x) for x in s["m"]]
        it = Item(MultiVolume([x.ob for x in kids], priority=s["pr"]), s["pr"], "multi")
        it.kids = kids
        return it
    if k in ("crystal", "molecule"):
        o = objs.Ob(s["leaf"])
        it = Item(o.ob, o.pr, k)
        if o.mol is not None:
            it.fresh = (o.mol[0], o.mol[1].astype(float))
            return it
        it.vspec = o.spec_v()
        c, sp, sure = o.expected()
        if o.gm is not None:   # rounding grows with the distance of the origin of the crystal
            it.far = np.abs(o.gm.o).max()
        if s["sub"] and o.gm is not None:
            z = int(o.gm.Z[0])
            o.ob.generator.post_transform = ChemicalSubstitution([z], [33], 1.0)
            sp = np.where(sp == z, 33.0, sp)
        it.fresh = (c, sp)
        return it
    if k == "amorphous":
        gen = AmorphousGenerator(min_dist=s["md"], density=s["rho"] / s["md"] ** 3, species=s["z"])
        it = Item(g.build_vol(s["v"], generator=gen, priority=s["pr"]), s["pr"], k)
        it.ob.generator.use_old_result = s["reuse"]
        it.vspec = s["v"]
        it.amo = dict(s, last=None)
        return it
    ob = prefab(s)
    ob.priority = s["pr"]
    it = read(ob, k)
    it.pr = s["pr"]
    for l in it.leaves():   # as populated on its own, before it is used in a scene
        l.ob.populate_atoms()
        l.fresh = (np.array(l.ob.atoms), np.array(l.ob.species, float))
        for m in l.ob.atoms, l.ob.species:
            need(len(m) == len(l.fresh[0]), "%s: atoms and species out of step", k)
    return it


def band(q, far=0.0):
    return 3e-6 * (1 + np.abs(q).max(initial=0) / 10 + far / 10)


def judge(l, what):
    """The own atoms of a single volume or molecule."""
    at, sp = g.as_pts(l.ob.atoms, what=what), np.asarray(l.ob.species, float)
    need(sp.shape == (len(at),), "%s: %s species for %d atoms", what, sp.shape, len(at))
    if l.vspec is not None and len(at):
        m, b = l.margin(at)
        need((m > -band(at, l.far)).all(), "%s: atom %s at %.4g outside its own region", what, at[np.argmin(m)].tolist(), -m.min())
    if l.amo is not None:
        a = l.amo
        need(np.all(sp == a["z"]), "%s: species %s in an amorphous block of %d", what, np.unique(sp).tolist(), a["z"])
        if len(at) > 1:
            from scipy.spatial import cKDTree
            d = cKDTree(at).query(at, k=2)[0][:, 1].min()
            need(d > a["md"] * (1 - 1e-7), "%s: amorphous atoms at distance %.6g, minimum %.6g", what, d, a["md"])
        if not a["reuse"]:
            c, h = g.vol_center_size(l.vspec)
            rng = np.random.default_rng(1)
            q = c + rng.uniform(-1, 1, (4000, 3)) * h
            V = np.prod(2 * h) * np.mean(l.margin(q)[0] > 0)
            ex = V * a["rho"] / a["md"] ** 3
            need(abs(len(at) - ex) < 8 * np.sqrt(ex + 1) + 0.25 * ex + 3, "%s: %d amorphous atoms where %.0f are expected", what, len(at), ex)
        else:
            if a["last"] is not None:
                need(len(at) == len(a["last"]) and np.array_equal(at, a["last"]), "%s: a block whose last result is to be used again has other atoms", what)
    if l.fresh is not None:
        c, s = l.fresh
        sure = l.margin(c)[1] > band(c, l.far) if l.vspec is not None else np.ones(len(c), bool)
        tol = 1e-5 + 1e-7 * np.abs(c).max(initial=0)
        g.contains(c[sure], s[sure], at, sp, tol, what + ": atom missing")
        ok = l.margin(at)[1] > band(at, l.far) if l.vspec is not None else np.ones(len(at), bool)
        g.contains(at[ok], sp[ok], c, s, tol, what + ": unexpected atom")
        need(len(at) - (~ok).sum() <= len(c), "%s: %d atoms instead of %d", what, len(at), len(c))


def keep(i, items, q):
    """(certainly kept, possibly kept) of the points q, atoms of items[i]."""
    yes, may = np.ones(len(q), bool), np.ones(len(q), bool)
    for j, o in enumerate(items):
        if j != i and o.pr <= items[i].pr and len(q):
            m, b = o.margin(q)
            clear = b > band(q)
            may &= ~(clear & (m > 0))
            yes &= clear & (m <= 0)
    return yes, may


def joined(items, atoms, species, what, ctx):
    """The atoms of a scene or multi-volume against the own atoms of its members."""
    P, S, Y, M = [np.zeros((0, 3))], [np.zeros(0)], [np.zeros(0, bool)], [np.zeros(0, bool)]
    for i, it in enumerate(items):
        q = g.as_pts(it.ob.atoms, what=what)
        y, m = keep(i, items, q)
        P.append(q), S.append(np.asarray(it.ob.species, float)), Y.append(y), M.append(m)
    P, S, Y, M = np.vstack(P), np.hstack(S), np.hstack(Y), np.hstack(M)
    at, sp = g.as_pts(atoms, what=what), np.asarray(species, float)
    need(sp.shape == (len(at),), "%s: %s species for %d atoms", what, sp.shape, len(at))
    g.contains(P[Y], S[Y], at, sp, 1e-9, what + ": missing atom")
    g.contains(at, sp, P[M], S[M], 1e-9, what + ": atom that should be excluded or that no object has")
    need(Y.sum() <= len(at) <= M.sum(), "%s: %d atoms, between %d and %d expected", what, len(at), Y.sum(), M.sum())
    return Y.sum() > 0 and (~M).sum() > 0


def run(c, ctx):
    from czone.scene import Scene
    sc = Scene()
    items = []
    ops = [("add", s) for s in c["obs"]] + [("populate",)] + [tuple(o) for o in c["ops"]] + [("populate",)]
    for n, o in enumerate(ops):
        k = o[0]
        if k == "add":
            try:
                it = make(o[1])
            except objs.TooLarge:
                ctx.label("too large")
                continue
            items.append(it)
            sc.add_object(it.ob)
        if not items:
            return
        if k == "move":
            it = items[o[1] % len(items)]
            it.ob.transform(g.build_t(o[2]))
            it.apply(o[2])
            for l in it.leaves():
                if l.amo is not None and l.amo["last"] is not None:
                    l.amo["last"] = None   # the block is moved with the volume; what of it lies within is judged at the next population
        elif k == "priority":
            it = items[o[1] % len(items)]
            it.ob.priority = it.pr = o[2]
        elif k == "copy":
            it = items[o[1] % len(items)]
            t = g.build_t(o[2])
            new = it.ob.from_molecule(transformation=[t]) if it.kind == "molecule" else it.ob.from_volume(transformation=[t])
            m = model(it, new)
            m.apply(o[2])
            for l in m.leaves():
                if l.amo is not None:
                    l.amo = dict(l.amo, last=None)
            m.pr = new.priority = o[3]
            items.append(m)
            sc.add_object(new)
        elif k == "populate":
            sc.populate()
            what = "step %d" % n
            for it in items:
                for l in it.leaves():
                    judge(l, what + ", " + l.kind)
                    if l.amo is not None:
                        l.amo["last"] = np.array(l.ob.atoms)
                for m in it.multis():
                    joined(m.kids, m.ob.atoms, m.ob.species, what + ", " + m.kind, ctx)
            hit = joined(items, sc.all_atoms, sc.all_species, what + ", scene", ctx)
            ctx.hit(hit and len({l.kind for it in items for l in it.leaves()}) > 1)
            ctx.label(*{l.kind for it in items for l in it.leaves()})


PARTS = [Part("mixed", case, run, quick=800, thorough=10000, shards=8)]
