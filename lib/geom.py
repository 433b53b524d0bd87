"""Generators of cases (plain JSON-able data), builders of czone objects from them, and
independent reference models (nothing here calls czone except the build_* functions)."""
import itertools
import numpy as np
from hypothesis import strategies as st
from scipy.spatial import ConvexHull, cKDTree
from scipy.spatial import QhullError
from pbt import Violation, need

# ---------------------------------------------------------------- scalars and vectors


@st.composite
def _pick(draw, alts):
    return draw(alts[draw(st.integers(0, len(alts) - 1))])


def pick(*alts):
    """One of the alternatives with equal probability (st.one_of flattens nested alternatives, which skews it)."""
    return _pick(tuple(alts))


def num(lo, hi, digits=4):
    """Mostly round numbers, sometimes arbitrary ones: both kinds matter for boundary logic."""
    ilo, ihi = int(np.ceil(lo)), int(np.floor(hi))
    f = st.floats(lo, hi, allow_nan=False, allow_infinity=False).map(lambda x: min(max(round(x, digits), lo), hi))
    if ilo > ihi:
        return f
    return pick(st.integers(ilo, ihi).map(float), f, f)


def vec(lo=-10, hi=10, digits=4):
    return st.lists(num(lo, hi, digits), min_size=3, max_size=3)


def few_priorities():
    """Priorities: mostly close together, now and then far apart."""
    return pick(*[st.sampled_from([0, 0, 1, 1, 2, -1, 7])] * 4 + [st.sampled_from([0, 1, 127, 128, 255, 256, 257, 1000, -129, -300, 65536, 10 ** 6, -10 ** 6])])


def flagged(t):
    """Transformations with any lock and basis-only flags (which do not matter to points and regions)."""
    def put(t, fl):
        if t["t"] == "S":
            return dict(t, seq=[put(u, fl) for u in t["seq"]])
        return dict(t, locked=fl[0], basis_only=fl[1])
    return st.tuples(t, pick(st.none(), st.none(), st.tuples(st.booleans(), st.booleans()))).map(lambda p: p[0] if p[1] is None else put(*p))


def shift_vec(big=200):
    """Positions: at the origin, nearby, or far away in any octant."""
    return pick(st.just([0.0, 0.0, 0.0]), vec(-8, 8), vec(-8, 8), vec(-big, big))


def _nz(v):
    return float(np.linalg.norm(v)) > 0.05


INT_DIRS = [list(map(float, d)) for d in itertools.product((-2, -1, 0, 1, 2), repeat=3) if any(d)]


def direction(scaled=True):
    base = pick(st.sampled_from(INT_DIRS), vec(-1, 1).filter(_nz))
    if not scaled:
        return base
    return st.tuples(base, st.sampled_from([1.0, 1.0, 0.01, 3.7, 250.0])).map(lambda t: [float(x * t[1]) for x in t[0]])


def unit(v):
    v = np.asarray(v, float)
    return v / np.sqrt(np.sum(v * v))


def rodrigues(axis, ang):
    k = unit(axis)
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) * np.cos(ang) + np.sin(ang) * K + (1 - np.cos(ang)) * np.outer(k, k)


ANGLES = [0.0, np.pi / 6, np.pi / 4, np.pi / 3, np.pi / 2, 2 * np.pi / 3, np.pi, -np.pi / 2, 2 * np.pi, 5.0]


def angle():
    return pick(st.sampled_from(ANGLES), num(-7, 7), st.sampled_from(ANGLES), num(-7, 7), st.sampled_from(ANGLES), num(-7, 7), num(-100, 100))


def kron(n, off, dim=3):
    """Deterministic low-discrepancy points in the unit cube, shifted by off."""
    g = 1.22074408460575947536
    a = np.array([1 / g, 1 / g ** 2, 1 / g ** 3])[:dim]
    return (np.asarray(off, float)[None, :dim] + (np.arange(1, n + 1)[:, None] * a)) % 1.0


def cloud():
    """Parameters of a bulk point set in [-1,1]^3."""
    return st.fixed_dictionaries(dict(n=st.sampled_from([0, 1, 2, 5, 40, 150, 40, 150, 40, 3000]), off=vec(0, 1)))


def bulk(c, center=(0, 0, 0), half=1.0):
    return (kron(c["n"], c["off"]) * 2 - 1) * np.asarray(half) + np.asarray(center, float)

# ---------------------------------------------------------------- output normalisation


def more():
    """Parameters of further points, now and then a great many."""
    return pick(*[st.just(dict(n=0))] * 8 + [st.fixed_dictionaries(dict(n=st.sampled_from([20, 300, 5000]), off=vec(0, 1)))])


def extend(P, m, half=20.0):
    return np.vstack([P, bulk(m, half=half)]) if m["n"] else P


def as_bool(x, n, what="interiority"):
    x = np.asarray(x)
    need(x.dtype == np.bool_, "%s answer has type %s, not bool", what, x.dtype)
    need(x.shape == (n,), "%s answer has shape %s for %d points", what, x.shape, n)
    return x


def as_pts(x, n=None, what="positions"):
    need(x is not None, "%s missing", what)
    x = np.asarray(x, dtype=float)
    need(x.ndim == 2 and x.shape[1] == 3, "%s have shape %s", what, x.shape)
    if n is not None:
        need(x.shape[0] == n, "%s: %d rows instead of %d", what, x.shape[0], n)
    return x


def atoms_of(ob, what="object"):
    a = as_pts(ob.atoms, what="%s atoms" % what)
    s = np.asarray(ob.species)
    need(s.shape == (a.shape[0],), "%s: species shape %s for %d atoms", what, s.shape, a.shape[0])
    return a, s.astype(float)


def close(a, b, tol=1e-7, what="values"):
    a, b = np.asarray(a, float), np.asarray(b, float)
    need(a.shape == b.shape, "%s: shape %s instead of %s", what, a.shape, b.shape)
    if a.size:
        scale = 1.0 + max(np.max(np.abs(b)), 0)
        d = np.abs(a - b)
        need(bool(np.all(d <= tol * scale)), "%s differ: got %s expected %s", what, np.round(a, 9).tolist() if a.size < 30 else "(large) max %g" % np.nanmax(d),
             np.round(b, 9).tolist() if b.size < 30 else "")

# ---------------------------------------------------------------- surfaces

TOLS = [None, None, None, 1e-5, 1e-3, 0.1, 1e-8]


def sphere(pos=None, rmax=8):
    return st.fixed_dictionaries(dict(k=st.just("sphere"), r=num(0.3, rmax), c=pos or vec(-8, 8), tol=st.sampled_from(TOLS)))


def plane(pos=None):
    return st.fixed_dictionaries(dict(k=st.just("plane"), n=direction(), p=pos or vec(-8, 8), tol=st.sampled_from(TOLS)))


def cyl(pos=None, rmax=8):
    return st.fixed_dictionaries(dict(k=st.just("cyl"), a=direction(), p=pos or vec(-8, 8), r=num(0.3, rmax), l=num(0.4, 2 * rmax), tol=st.sampled_from(TOLS)))


def surface(pos=None, rmax=8):
    return pick(sphere(pos, rmax), plane(pos), cyl(pos, rmax))


def build_surface(s):
    from czone.volume import Sphere, Plane, Cylinder
    kw = {} if s.get("tol") is None else dict(tol=s["tol"])
    if s["k"] == "sphere":
        return Sphere(s["r"], np.array(s["c"]), **kw)
    if s["k"] == "plane":
        return Plane(np.array(s["n"]), np.array(s["p"]), **kw)
    return Cylinder(np.array(s["a"]), np.array(s["p"]), s["r"], s["l"], **kw)


def tol_of(s):
    return 1e-5 if s.get("tol") is None else s["tol"]


def surf_margin(s, pts):
    """Positive inside, negative outside, magnitude about the distance to the decision boundary."""
    pts = np.asarray(pts, float)
    if s["k"] == "sphere":
        d = pts - np.asarray(s["c"], float)
        return s["r"] + tol_of(s) - np.sqrt(np.sum(d * d, axis=1))
    if s["k"] == "plane":
        return tol_of(s) - (pts - np.asarray(s["p"], float)) @ unit(s["n"])
    a = unit(s["a"])
    d = pts - np.asarray(s["p"], float)
    ax = d @ a
    rad = np.sqrt(np.sum((d - ax[:, None] * a) ** 2, axis=1))
    return np.minimum(s["r"] + tol_of(s) - rad, s["l"] / 2 + tol_of(s) - np.abs(ax))


def crafted(s, ts, eps):
    """Points at distance eps (signed, positive outside) from the decision boundary of a surface; ts in [0,1]^3."""
    ts = np.asarray(ts, float)
    if len(ts) == 0:
        return np.zeros((0, 3))
    th, z = 2 * np.pi * ts[:, 0], 2 * ts[:, 1] - 1
    if s["k"] == "sphere":
        u = np.stack([np.sqrt(1 - z ** 2) * np.cos(th), np.sqrt(1 - z ** 2) * np.sin(th), z], 1)
        return np.asarray(s["c"]) + u * (s["r"] + tol_of(s) + eps)
    a = unit(s["n"] if s["k"] == "plane" else s["a"])
    e1 = unit(np.cross(a, np.eye(3)[np.argmin(np.abs(a))]))
    e2 = np.cross(a, e1)
    if s["k"] == "plane":
        return np.asarray(s["p"]) + 10 * z[:, None] * e1 + 10 * (2 * ts[:, [2]] - 1) * e2 + a * (tol_of(s) + eps)
    ring = np.cos(th)[:, None] * e1 + np.sin(th)[:, None] * e2
    side = np.asarray(s["p"]) + ring * (s["r"] + tol_of(s) + eps) + a * (s["l"] / 2 * z * 0.99)[:, None]
    cap = np.asarray(s["p"]) + ring * (s["r"] * ts[:, [2]] * 0.99) + a * (np.sign(z) * (s["l"] / 2 + tol_of(s) + eps))[:, None]
    return np.where((ts[:, [2]] < 0.5), side, cap)


def surf_transform(s, A, b):
    """Image of a surface spec under x -> A x + b (A orthogonal unless a plane)."""
    A, b = np.asarray(A), np.asarray(b)
    t = dict(s)
    if s["k"] == "sphere":
        t["c"] = (A @ np.asarray(s["c"]) + b).tolist()
    elif s["k"] == "plane":
        t["p"] = (A @ np.asarray(s["p"]) + b).tolist()
        t["n"] = (np.linalg.inv(A).T @ unit(s["n"])).tolist()
    else:
        t["p"] = (A @ np.asarray(s["p"]) + b).tolist()
        t["a"] = (A @ unit(s["a"])).tolist()
    return t

# ---------------------------------------------------------------- hulls


def hull_points(nmin=4, nmax=12):
    """Point sets with a well-conditioned convex hull: boxes, simplices, random clouds; with interior points."""
    box = st.tuples(vec(1, 9), pick(st.none(), vec(-6, 6))).map(
        lambda t: [[t[0][0] * i + (t[1] or [0] * 3)[0], t[0][1] * j + (t[1] or [0] * 3)[1], t[0][2] * k + (t[1] or [0] * 3)[2]]
                   for i in (0, 1) for j in (0, 1) for k in (0, 1)])
    rnd = st.tuples(st.integers(nmin, nmax), vec(0, 1), vec(2, 8), vec(-6, 6)).map(
        lambda t: (np.round((kron(t[0], t[1]) * 2 - 1) * np.array(t[2]) + np.array(t[3]), 4)).tolist())
    free = st.lists(vec(-8, 8, 2), min_size=nmin, max_size=nmax)
    # many vertices: on an ellipsoid, or scattered
    def many_(t):
        x = kron(t[0], t[1]) * 2 - 1
        if t[2]:
            x = x / np.maximum(np.linalg.norm(x, axis=1), 1e-3)[:, None]
        return np.round(x * np.array(t[3]) + np.array(t[4]), 4).tolist()
    many = st.tuples(st.sampled_from([30, 60, 150]), vec(0, 1), st.booleans(), vec(2, 8), vec(-6, 6)).map(many_)
    alts = [box, rnd, free] * 4 + ([many] if nmax == 12 else [])
    return pick(*alts).filter(good_hull)


def good_hull(p):
    p = np.asarray(p, float)
    if len(p) < 4:
        return False
    try:
        h = ConvexHull(p)
    except (QhullError, ValueError):
        return False
    # thickness: smallest extent over facet normals
    w = min(np.ptp(p @ e[:3]) for e in h.equations)
    return w > 0.3


def hull_margin(points, pts):
    eq = ConvexHull(np.asarray(points, float)).equations
    pts = np.asarray(pts, float)
    out = np.empty(len(pts))
    for i in range(0, len(pts), 4096):
        out[i:i + 4096] = -np.max(pts[i:i + 4096] @ eq[:, :3].T + eq[:, 3], axis=1) if len(pts[i:i + 4096]) else []
    return out

# ---------------------------------------------------------------- volumes

def vol(pos=None, need_bounded=True):
    """Volume spec: points and/or surfaces. With need_bounded the volume can be populated."""
    one = pick(plane(vec(-3, 3)), plane(vec(-3, 3)), sphere(vec(-3, 3)), cyl(vec(-3, 3)))
    extra = pick(*[st.lists(one, max_size=2)] * 9 + [st.lists(one, min_size=3, max_size=9)])
    hull = st.fixed_dictionaries(dict(pts=hull_points(), alg=extra))
    sph = st.tuples(sphere(vec(-4, 4), 6), extra).map(lambda t: dict(pts=None, alg=[t[0]] + t[1]))
    cy = st.tuples(cyl(vec(-4, 4), 5), st.lists(plane(vec(-3, 3)), max_size=2)).map(lambda t: dict(pts=None, alg=[t[0]] + t[1]))
    pl = polytope_planes().map(lambda p: dict(pts=None, alg=p))
    kinds = [hull, sph, cy, pl]
    if not need_bounded:
        kinds.append(st.lists(surface(), min_size=1, max_size=4).map(lambda a: dict(pts=None, alg=a)))
    return pick(*kinds)


def polytope_planes():
    """Bounded set of planes around a center: a rotated box plus extra cuts that keep the center."""
    def mk(t):
        c, half, ax, ang, cuts, order = t
        R = rodrigues(ax, ang)
        out = []
        for i in range(3):
            for sg in (1.0, -1.0):
                out.append(dict(k="plane", n=(sg * R[:, i]).tolist(), p=(np.array(c) + sg * half[i] * R[:, i]).tolist(), tol=None))
        for d, h in cuts:
            n = unit(d)
            out.append(dict(k="plane", n=np.asarray(d, float).tolist(), p=(np.array(c) + h * n).tolist(), tol=None))
        return [out[i] for i in np.argsort([((j * 7919 + order) * 104729) % 1009 for j in range(len(out))])]
    return st.tuples(shift_vec(60), vec(1, 6), direction(False), angle(),
                     st.lists(st.tuples(direction(False), num(0.7, 6)), max_size=5), st.integers(0, 999)).map(mk)


def build_vol(v, **kw):
    from czone.volume import Volume
    args = {}
    if v["pts"] is not None:
        args["points"] = np.array(v["pts"], float)
    if v["alg"]:
        args["alg_objects"] = [build_surface(s) for s in v["alg"]]
    args.update(kw)
    return Volume(**args)


def vol_margin(v, pts):
    pts = np.asarray(pts, float)
    m = np.full(len(pts), np.inf)
    if v["pts"] is not None:
        m = np.minimum(m, hull_margin(v["pts"], pts))
    for s in v["alg"]:
        m = np.minimum(m, surf_margin(s, pts))
    return m


def vol_transform(v, A, b):
    p = v["pts"]
    return dict(v, pts=None if p is None else (np.asarray(p) @ np.asarray(A).T + b).tolist(),
                alg=[surf_transform(s, A, b) for s in v["alg"]])


def vol_center_size(v):
    """A center and half size of a box that comfortably contains a bounded volume spec."""
    if v["pts"] is not None:
        p = np.asarray(v["pts"], float)
        return (p.max(0) + p.min(0)) / 2, np.ptp(p, axis=0) / 2 + 0.5
    best = None
    for s in v["alg"]:
        if s["k"] == "sphere":
            c, h = np.asarray(s["c"], float), np.full(3, s["r"] + 0.6)
        elif s["k"] == "cyl":
            a = unit(s["a"])
            c = np.asarray(s["p"], float)
            h = np.abs(a) * s["l"] / 2 + np.sqrt(np.maximum(1 - a * a, 0)) * s["r"] + 0.6
        else:
            continue
        if best is None or np.prod(h) < np.prod(best[1]):
            best = (c, h)
    if best is None:
        vs = polytope_vertices([s for s in v["alg"] if s["k"] == "plane"])
        if len(vs) == 0:
            return np.zeros(3), np.full(3, 5.0)
        return (vs.max(0) + vs.min(0)) / 2, np.ptp(vs, axis=0) / 2 + 0.5
    return best


def polytope_vertices(planes, tol=1e-7):
    """Brute force: all triple intersections that satisfy every plane."""
    N = np.array([unit(s["n"]) for s in planes])
    D = np.array([unit(s["n"]) @ np.asarray(s["p"], float) for s in planes])
    out = []
    for i, j, k in itertools.combinations(range(len(N)), 3):
        M = N[[i, j, k]]
        if abs(np.linalg.det(M)) < 1e-9:
            continue
        x = np.linalg.solve(M, D[[i, j, k]])
        if np.all(N @ x - D <= tol * (1 + np.abs(D).max())):
            out.append(x)
    return np.array(out).reshape(-1, 3)

# ---------------------------------------------------------------- transformations


def isometry(depth=1, big=20):
    o = pick(st.none(), vec(-8, 8), st.none(), vec(-8, 8), vec(-3 * big, 3 * big))
    T = st.fixed_dictionaries(dict(t=st.just("T"), s=pick(vec(-big, big), vec(-big, big), vec(-big, big), vec(-10 * big, 10 * big))))
    R = st.fixed_dictionaries(dict(t=st.just("R"), a=direction(), g=angle(), o=o))
    I = st.fixed_dictionaries(dict(t=st.just("I"), o=o))
    F = st.fixed_dictionaries(dict(t=st.just("F"), n=direction(), p=vec(-8, 8)))
    O = st.fixed_dictionaries(dict(t=st.just("M"), iso=st.just(True), a=direction(), g=angle(), sg=st.sampled_from([1.0, -1.0]), o=o)).map(
        lambda d: dict(t="M", m=(d["sg"] * rodrigues(d["a"], d["g"])).tolist(), o=d["o"]))
    base = pick(T, R, I, F, O)
    if depth <= 0:
        return base
    inner = isometry(depth - 1, big)
    S = pick(*[st.lists(inner, min_size=0, max_size=3)] * 5 + [st.lists(inner, min_size=4, max_size=9)]).map(lambda l: dict(t="S", seq=l))
    return pick(base, base, base, S)


def matrix_t():
    """General invertible, well-conditioned affine matrices."""
    def mk(t):
        a, g, d, sh, o = t
        R = rodrigues(a, g)
        M = R @ np.diag(d) @ (np.eye(3) + np.array([[0, sh[0], sh[1]], [0, 0, sh[2]], [0, 0, 0]]))
        return dict(t="M", m=M.tolist(), o=o)
    s = pick(num(0.4, 2.5), num(-2.5, -0.4))
    return st.tuples(direction(), angle(), st.lists(s, min_size=3, max_size=3), vec(-0.7, 0.7), pick(st.none(), vec(-8, 8))).map(mk)


def affine(t):
    """(A, b) of a transformation spec."""
    k = t["t"]
    if k == "T":
        return np.eye(3), np.asarray(t["s"], float)
    if k == "S":
        A, b = np.eye(3), np.zeros(3)
        for u in t["seq"]:
            A2, b2 = affine(u)
            A, b = A2 @ A, A2 @ b + b2
        return A, b
    if k == "F":
        n = unit(t["n"])
        A = np.eye(3) - 2 * np.outer(n, n)
        p = np.asarray(t["p"], float)
        return A, p - A @ p
    if k == "R":
        A = rodrigues(t["a"], t["g"])
    elif k == "I":
        A = -np.eye(3)
    else:
        A = np.asarray(t["m"], float)
    o = np.zeros(3) if t.get("o") is None else np.asarray(t["o"], float)
    return A, o - A @ o


def build_t(t, **kw):
    from czone.transform import Translation, Rotation, Inversion, Reflection, MatrixTransform, MultiTransform
    from czone.volume import Plane
    kw = dict(kw, **{k: t[k] for k in ("locked", "basis_only") if k in t})
    k = t["t"]
    o = {} if t.get("o") is None else dict(origin=np.array(t["o"], float))
    if k == "T":
        return Translation(shift=np.array(t["s"], float), **kw)
    if k == "R":
        return Rotation(matrix=rodrigues(t["a"], t["g"]), **o, **kw)
    if k == "I":
        return Inversion(**o, **kw)
    if k == "F":
        return Reflection(plane=Plane(np.array(t["n"], float), np.array(t["p"], float)), **kw)
    if k == "M":
        return MatrixTransform(matrix=np.array(t["m"], float), **o, **kw)
    return MultiTransform([build_t(u, **kw) for u in t["seq"]])

# ---------------------------------------------------------------- crystals


def lattice(small=False):
    lo, hi = (2.2, 5.0) if not small else (2.8, 4.5)
    cub = num(lo, hi, 3).map(lambda a: [a, a, a, 90.0, 90.0, 90.0])
    tet = st.tuples(num(lo, hi, 3), num(lo, hi, 3)).map(lambda t: [t[0], t[0], t[1], 90.0, 90.0, 90.0])
    ort = vec(lo, hi, 3).map(lambda t: t + [90.0, 90.0, 90.0])
    hexa = st.tuples(num(lo, hi, 3), num(lo, hi, 3)).map(lambda t: [t[0], t[0], t[1], 90.0, 90.0, 120.0])
    mono = st.tuples(vec(lo, hi, 3), num(60, 120, 2)).map(lambda t: t[0] + [90.0, t[1], 90.0])
    tri = st.tuples(vec(lo, hi, 3), vec(62, 115, 2)).map(lambda t: t[0] + t[1])
    return pick(cub, tet, ort, hexa, mono, tri).filter(lambda l: cell_volume(l) > 6.0 and thin(l) > 1.2)


def lat_matrix(l):
    """Columns are lattice vectors; standard crystallographic construction (pymatgen's orientation)."""
    from pymatgen.core import Lattice
    return np.array(Lattice.from_parameters(*l).matrix).T


def cell_volume(l):
    al, be, ga = np.radians(l[3:])
    q = 1 - np.cos(al) ** 2 - np.cos(be) ** 2 - np.cos(ga) ** 2 + 2 * np.cos(al) * np.cos(be) * np.cos(ga)
    return 0.0 if q <= 0.02 else l[0] * l[1] * l[2] * np.sqrt(q)


def thin(l):
    """smallest interplanar spacing of the cell"""
    return 1 / np.max(np.linalg.norm(np.linalg.inv(lat_matrix(l)), axis=1))


def frac():
    return pick(st.sampled_from([0.0, 0.5, 0.25, 1 / 3, 2 / 3, 0.75]), num(0, 0.999, 3), num(-1.2, 2.2, 3))


def basis(lat, nmax=4):
    return st.lists(st.tuples(st.sampled_from([1, 6, 8, 14, 31, 7, 79, 92]), st.lists(frac(), min_size=3, max_size=3)), min_size=1, max_size=nmax).map(
        lambda b: [[z, f] for z, f in b]).filter(lambda b: sep_ok(lat, b))


def sep_ok(lat, b):
    """no two sites of the crystal closer than 0.3"""
    B = lat_matrix(lat)
    f = np.array([x[1] for x in b])
    for i in range(len(f)):
        for j in range(i):
            d = f[i] - f[j]
            d = d - np.round(d)
            for s in itertools.product((-1, 0, 1), repeat=3):
                if np.linalg.norm(B @ (d + np.array(s))) < 0.3:
                    return False
    return True


def crystal(nmax=4, origin=True):
    def fin(l):
        return st.fixed_dictionaries(dict(
            lat=st.just(l), b=basis(l, nmax),
            o=(pick(st.none(), vec(-8, 8), st.none(), vec(-8, 8), vec(-300, 300)) if origin else st.none()),
            tr=st.lists(isometry(0), max_size=2),
            sc=st.sampled_from([None, None, None, None, 1.25, [1.1, 0.9, 1.3]])))
    return lattice().flatmap(fin)


def build_gen(g):
    from czone.generator import Generator
    kw = {} if g["o"] is None else dict(origin=np.array(g["o"], float))
    f = np.array([x[1] for x in g["b"]])
    if np.array_equal(f, np.round(f)):
        f = f.astype(int)  # as users write them: [[0, 0, 0]]
    gen = Generator.from_unit_cell([x[0] for x in g["b"]], f, g["lat"][:3], g["lat"][3:], **kw)
    if g.get("sc") is not None:
        gen.voxel.scale = np.array(g["sc"]) if isinstance(g["sc"], list) else np.array([g["sc"]])
    for t in g["tr"]:
        gen.transform(build_t(t))
    return gen


def gen_model(g):
    """(columns basis, origin, fractional coordinates, species) of a crystal spec."""
    B = lat_matrix(g["lat"])
    o = np.zeros(3) if g["o"] is None else np.asarray(g["o"], float)
    for t in g["tr"]:
        A, b = affine(t)
        B, o = A @ B, A @ o + b
    if g.get("sc") is not None:
        B = B * np.asarray(g["sc"], float)
    return B, o, np.array([x[1] for x in g["b"]], float), np.array([x[0] for x in g["b"]], float)


def sites(model, region, pad=0.0):
    """All sites of the infinite crystal in (a parallelepiped containing) the bounding box of region."""
    B, o, f, Z = model
    region = np.asarray(region, float)
    lo, hi = region.min(0) - pad, region.max(0) + pad
    corners = np.array(list(itertools.product(*zip(lo, hi))))
    fc = np.linalg.solve(B, (corners - o).T).T
    n0, n1 = np.floor(fc.min(0)).astype(int) - 1, np.ceil(fc.max(0)).astype(int) + 1
    cells = np.stack(np.meshgrid(*[np.arange(a, b + 1) for a, b in zip(n0, n1)], indexing="ij"), -1).reshape(-1, 3)
    fw = f - np.floor(f)
    coords = (cells[:, None, :] + fw[None]).reshape(-1, 3) @ B.T + o
    spec = np.tile(Z, len(cells))
    keep = np.all((coords >= lo - 1e-9) & (coords <= hi + 1e-9), axis=1)
    return coords[keep], spec[keep]


def n_cells(model, size):
    """rough number of atoms of the crystal in a region of the given extents"""
    return np.prod(np.asarray(size, float) + 2.0) / abs(np.linalg.det(model[0])) * len(model[3])


def on_lattice(model, coords, species, tol=1e-5):
    """For each atom: index of the basis site it sits on (with matching species) or -1."""
    B, o, f, Z = model
    if len(coords) == 0:
        return np.zeros(0, int)
    fc = np.linalg.solve(B, (np.asarray(coords) - o).T).T
    out = np.full(len(coords), -1)
    for i in range(len(f)):
        d = fc - f[i]
        d = d - np.round(d)
        ok = (np.linalg.norm(d @ B.T, axis=1) < tol) & (np.asarray(species) == Z[i])
        out[ok] = i
    return out

# ---------------------------------------------------------------- atom sets


def unique_pts(a, tol=1e-4):
    return len(a) < 2 or len(cKDTree(a).query_pairs(tol)) == 0


def match(a, sa, b, sb, tol=1e-5, what="atoms"):
    """a (got) and b (expected) are the same set of atoms with the same species, each once."""
    contains(a, sa, b, sb, tol, what + ": unexpected atom")
    contains(b, sb, a, sa, tol, what + ": missing atom")
    need(len(a) == len(b), "%s: %d atoms instead of %d (duplicates)", what, len(a), len(b))


def contains(a, sa, b, sb, tol=1e-5, what="atom not in set"):
    """Every atom of a is an atom of b (same position and species)."""
    if len(a) == 0:
        return
    a, b, sa, sb = np.asarray(a, float), np.asarray(b, float), np.asarray(sa, float), np.asarray(sb, float)
    need(len(b) > 0, "%s %s (expected none)", what, np.round(a[0], 5).tolist())
    d, _ = cKDTree(np.column_stack([b, sb * 1e6])).query(np.column_stack([a, sa * 1e6]))
    bad = np.nonzero(~(d <= tol))[0]
    if len(bad):
        dd, i = cKDTree(b).query(a[bad[0]])
        need(False, "%s %s species %s (nearest at %.3g, species %s); %d such", what, np.round(a[bad[0]], 5).tolist(), sa[bad[0]], dd, sb[i], len(bad))


def between(a, sa, must, smust, may, smay, tol=1e-5, what="atoms"):
    """must <= a <= may as sets of atoms, and a has no duplicates."""
    contains(must, smust, a, sa, tol, what + ": missing atom")
    contains(a, sa, may, smay, tol, what + ": unexpected atom")
    need(unique_pts(a), "%s: some atom is present twice", what)


class seeded:
    """Make unseeded random numbers of the code under test a function of n."""

    def __init__(self, n):
        self.n = n

    def __enter__(self):
        self.st, self.rng, self.k = np.random.get_state(), np.random.default_rng, 0
        np.random.seed(self.n % 2**32)

        def default_rng(seed=None):
            if seed is None:
                self.k += 1
                seed = [self.n, self.k]
            return self.rng(seed)
        np.random.default_rng = default_rng

    def __exit__(self, *a):
        np.random.default_rng = self.rng
        np.random.set_state(self.st)
