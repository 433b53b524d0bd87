"""Filled objects (volumes with generators, multi-volumes, molecules): JSON-able specs, real
objects built from them, and a reference model of the atoms they must hold."""
import copy
import numpy as np
from hypothesis import strategies as st
from pbt import need
import geom as g

BAND = 2e-6      # sites this close (relative to position) to a decision boundary may go either way
MAXN = 12000     # sites enumerated per volume


class TooLarge(Exception):
    pass


class GM:
    """Model of a crystal generator: columns basis, origin, sites."""

    def __init__(self, spec):
        self.B = g.lat_matrix(spec["lat"])
        self.o = np.zeros(3) if spec["o"] is None else np.array(spec["o"], float)
        self.f = np.array([x[1] for x in spec["b"]], float)
        self.Z = np.array([x[0] for x in spec["b"]], float)
        self.sc = np.array(1.0) if spec.get("sc") is None else np.asarray(spec["sc"], float)
        for t in spec["tr"]:
            self.apply(t)

    def apply(self, t):
        if t["t"] == "S":
            for u in t["seq"]:
                self.apply(u)
            return
        A, b = g.affine(t)
        self.B = A @ self.B
        if not t.get("basis_only"):
            self.o = A @ self.o + b

    def model(self):
        return self.B * self.sc, self.o, self.f, self.Z


def locked(t):
    if t["t"] == "S":
        return any(locked(u) for u in t["seq"])
    return t.get("locked", True)


class Ob:
    """A real object (self.ob) with its reference model."""

    def __init__(self, spec, build=True):
        self.pr = spec.get("pr", 0)
        self.kids, self.mol, self.gm, self.ob = None, None, None, None
        if "m" in spec:
            self.kids = [Ob(s, build) for s in spec["m"]]
            if build:
                from czone.volume import MultiVolume
                self.ob = MultiVolume([k.ob for k in self.kids], priority=self.pr)
        elif "mol" in spec:
            self.mol = (np.array(spec["mol"]["p"], float).reshape(-1, 3), np.array(spec["mol"]["z"], int))
            if build:
                from czone.molecule.molecule import Molecule
                self.ob = Molecule(self.mol[1].copy(), self.mol[0].copy())
                self.ob.priority = self.pr
                self.ob.print_warnings = False
        else:
            v = spec["v"]
            self.pts = None if v["pts"] is None else np.array(v["pts"], float)
            self.alg = [dict(s) for s in v["alg"]]
            if spec["g"] != "null":
                self.gm = GM(spec["g"])
                if spec.get("go") is not None:
                    self.gm.o = np.array(spec["go"], float)
            if build:
                from czone.generator import NullGenerator
                kw = dict(generator=NullGenerator() if spec["g"] == "null" else g.build_gen(spec["g"]), priority=self.pr)
                if spec.get("go") is not None:
                    kw["gen_origin"] = np.array(spec["go"], float)
                self.ob = g.build_vol(v, **kw)

    def clone_model(self):
        c = copy.copy(self)
        c.ob = None
        c.kids = None if self.kids is None else [k.clone_model() for k in self.kids]
        c.gm = copy.deepcopy(self.gm)
        if self.kids is None and self.mol is None:
            c.pts = None if self.pts is None else self.pts.copy()
            c.alg = [dict(s) for s in self.alg]
        return c

    def leaves(self):
        return [self] if self.kids is None else [x for k in self.kids for x in k.leaves()]

    def multis(self):
        return [] if self.kids is None else [self] + [x for k in self.kids for x in k.multis()]

    def spec_v(self):
        return dict(pts=None if self.pts is None else self.pts.tolist(), alg=self.alg)

    def apply(self, t):
        """Effect of obj.transform(t) on the model."""
        if self.kids is not None:
            for k in self.kids:
                k.apply(t)
            return
        A, b = g.affine(t)
        if self.mol is not None:
            self.mol = (self.mol[0] @ A.T + b, self.mol[1])
            return
        v = g.vol_transform(self.spec_v(), A, b)
        self.pts = None if v["pts"] is None else np.array(v["pts"])
        self.alg = v["alg"]
        if locked(t) and self.gm is not None:
            self.gm.apply(t)

    def margin(self, q):
        """(inside margin, distance to the nearest decision boundary) of points."""
        if self.mol is not None:
            return np.full(len(q), -np.inf), np.full(len(q), np.inf)
        if self.kids is not None:
            m, b = np.full(len(q), -np.inf), np.full(len(q), np.inf)
            for k in self.kids:
                mk, bk = k.margin(q)
                m, b = np.maximum(m, mk), np.minimum(b, bk)
            return m, b
        m, b = np.full(len(q), np.inf), np.full(len(q), np.inf)
        if self.pts is not None:
            h = g.hull_margin(self.pts, q)
            m, b = np.minimum(m, h), np.minimum(b, np.abs(h))
        for s in self.alg:
            h = g.surf_margin(s, q)
            m, b = np.minimum(m, h), np.minimum(b, np.abs(h))
        return m, b

    def expected(self):
        """(coords, species, sure): all atoms that may be present after population, and whether they must be."""
        if self.mol is not None:
            return self.mol[0], self.mol[1].astype(float), np.ones(len(self.mol[0]), bool)
        if self.kids is not None:
            parts = resolve(self.kids)
            return (np.vstack([p[0] for p in parts] + [np.zeros((0, 3))]), np.hstack([p[1] for p in parts] + [np.zeros(0)]),
                    np.hstack([p[2] for p in parts] + [np.zeros(0, bool)]))
        if self.gm is None:
            return np.zeros((0, 3)), np.zeros(0), np.zeros(0, bool)
        c, h = g.vol_center_size(self.spec_v())
        reg = np.array([c - h, c + h])
        m = self.gm.model()
        Bi = np.linalg.inv(m[0])
        if np.prod(np.abs(Bi) @ (2 * h) + 3) * len(m[3]) > 4 * MAXN:
            raise TooLarge
        cs, ss = g.sites(m, reg, pad=1e-3)
        if len(cs) == 0:
            return cs, ss, np.zeros(0, bool)
        mg, bd = self.margin(cs)
        band = BAND * (1 + np.abs(cs).max() / 10 + np.abs(m[1]).max() / 10)
        keep = mg > -band
        return cs[keep], ss[keep], mg[keep] > band


def resolve(obs):
    """Precedence: an atom survives unless inside another object of equal or smaller priority number."""
    out = []
    for i, a in enumerate(obs):
        c, s, sure = a.expected()
        keep = np.ones(len(c), bool)
        for j, b in enumerate(obs):
            if i != j and b.pr <= a.pr and len(c):
                m, d = b.margin(c)
                band = BAND * (1 + np.abs(c).max() / 10)
                inside, clear = (m > 0), (d > band)
                keep &= ~(inside & clear)
                sure = sure & (clear & ~inside)
        out.append((c[keep], s[keep], sure[keep]))
    return out


def compare(c, s, exp, what, tol=None):
    """Atoms held (c, s) against the expected (coords, species, sure)."""
    ec, es, sure = exp
    c = g.as_pts(c, what=what)
    s = np.asarray(s)
    need(s.shape == (len(c),), "%s: species shape %s for %d atoms", what, s.shape, len(c))
    if tol is None:
        tol = 1e-5 + 1e-7 * (np.abs(ec).max() if len(ec) else 0)
    g.contains(ec[sure], es[sure], c, s, tol, what + ": missing atom")
    g.contains(c, s, ec, es, tol, what + ": unexpected atom")
    need(len(c) <= len(ec), "%s: %d atoms where at most %d are expected (duplicates)", what, len(c), len(ec))
    four = lambda x, y: np.column_stack([x, np.asarray(y, float) * 1e6])
    need(g.unique_pts(four(c, s), 1e-4) or not g.unique_pts(four(ec, es), 2e-4), "%s: an atom is present twice", what)


def verify(o, what):
    """The populated real object against its model."""
    exp = o.expected()
    compare(o.ob.atoms, o.ob.species, exp, what)
    return exp

# ---------------------------------------------------------------- strategies


def crystal_s():
    return g.crystal(3)


def flag(t, unlocked=True):
    """Attach lock / basis-only flags. Sequences are uniformly locked (mixed ones are documented as 'any')."""
    def put(t, l, bo):
        if t["t"] == "S":
            return dict(t, seq=[put(u, l, bo) for u in t["seq"]])
        return dict(t, locked=l, basis_only=bo)
    return st.tuples(t, st.sampled_from([True, True, True] + ([False] if unlocked else [])), st.sampled_from([False, False, False, True])).map(
        lambda p: put(p[0], p[1], p[2] and p[1]))


def scaled(v, k):
    v = dict(v, pts=None if v["pts"] is None else (np.array(v["pts"]) * k).round(5).tolist())
    out = []
    for s in v["alg"]:
        s = dict(s)
        for n in ("c", "p"):
            if n in s:
                s[n] = [float(round(x * k, 6)) for x in s[n]]
        for n in ("r", "l"):
            if n in s:
                s[n] = float(s[n] * k)
        out.append(s)
    return dict(v, alg=out)


def vols():
    """Bounded volumes, mostly large enough to hold several unit cells."""
    return st.tuples(g.vol(), st.sampled_from([1.0, 1.6, 2.2])).map(lambda t: scaled(*t) if t[1] != 1.0 else t[0])


def leaf(pr=st.integers(-2, 3), vs=None):
    return st.fixed_dictionaries(dict(v=vs if vs is not None else vols(), g=g.pick(crystal_s(), crystal_s(), crystal_s(), st.just("null")),
                                      go=g.pick(st.none(), st.none(), g.vec(-6, 6)), pr=pr))


def mol(pr=st.integers(-2, 3)):
    at = st.tuples(st.integers(1, 118), g.vec(-7, 7))
    ats = g.pick(*[st.lists(at, min_size=1, max_size=5, unique_by=lambda x: tuple(x[1]))] * 7 + [st.lists(at, min_size=6, max_size=40, unique_by=lambda x: tuple(x[1]))])
    return st.tuples(ats, pr).map(
        lambda t: dict(mol=dict(z=[x[0] for x in t[0]], p=[x[1] for x in t[0]]), pr=t[1]))


def big_mol(pr=st.integers(-2, 3)):
    """A molecule of hundreds or thousands of atoms."""
    return st.tuples(st.sampled_from([70, 300, 1300, 4200]), g.vec(0, 1), st.lists(st.integers(1, 118), min_size=1, max_size=3), g.num(8, 40), pr).map(
        lambda t: dict(mol=dict(z=[t[2][i * i % len(t[2])] for i in range(t[0])], p=((g.kron(t[0], t[1]) * 2 - 1) * t[3]).round(6).tolist()), pr=t[4]))


def tree(pr=st.integers(-2, 3), depth=2, vs=None):
    lf = leaf(pr, vs)
    if depth <= 0:
        return lf
    inner = g.pick(*[st.lists(tree(pr, depth - 1, vs), min_size=1, max_size=3)] * 7 + [st.lists(lf, min_size=4, max_size=8)])
    return g.pick(lf, lf, st.tuples(inner, pr).map(lambda t: dict(m=t[0], pr=t[1])))

# ---------------------------------------------------------------- homogeneous strain


def hstrain():
    """3, 6 (Voigt) or 9 values, or a 3x3 array, of a well-conditioned strain matrix."""
    d = g.num(0.8, 1.25)
    o = g.num(-0.15, 0.15)
    three = st.lists(d, min_size=3, max_size=3).map(lambda v: dict(n=3, v=v))
    six = st.tuples(st.lists(d, min_size=3, max_size=3), st.lists(o, min_size=3, max_size=3)).map(lambda t: dict(n=6, v=t[0] + t[1]))
    nine = st.tuples(st.lists(d, min_size=3, max_size=3), st.lists(o, min_size=6, max_size=6), st.sampled_from([9, 33])).map(
        lambda t: dict(n=t[2], v=[t[0][0], t[1][0], t[1][1], t[1][2], t[0][1], t[1][3], t[1][4], t[1][5], t[0][2]]))
    return st.tuples(g.pick(three, six, nine, nine), st.sampled_from(["crystal", "standard"]), g.pick(st.just("generator"), st.just("generator"), g.vec(-6, 6))).map(
        lambda t: dict(t[0], mode=t[1], origin=t[2]))


def strain_matrix(s):
    v = np.array(s["v"], float)
    if s["n"] == 3:
        return np.diag(v)
    if s["n"] == 6:  # xx yy zz yz xz xy
        return np.array([[v[0], v[5], v[4]], [v[5], v[1], v[3]], [v[4], v[3], v[2]]])
    return v.reshape(3, 3)


def build_strain(s):
    from czone.transform.strain import HStrain
    v = np.array(s["v"], float)
    if s["n"] == 33:
        v = v.reshape(3, 3)
    o = s["origin"] if s["origin"] == "generator" else np.array(s["origin"], float)
    return HStrain(matrix=v if s["n"] != 9 else v.tolist(), origin=o, mode=s["mode"])


def strain_affine(s, model):
    """(A, b) of the strain acting on a crystal given by (basis, origin, ...): coordinates are row vectors times the matrix."""
    B, o = model[0], model[1]
    M = strain_matrix(s)
    A = M.T if s["mode"] == "standard" else B @ M.T @ np.linalg.inv(B)
    c = o if s["origin"] == "generator" else np.array(s["origin"], float)
    return A, c - A @ c
