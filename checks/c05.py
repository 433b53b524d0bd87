import numpy as np
from hypothesis import strategies as st
from pbt import Part, need
import geom as g

ID = "C05"
RULE = ("A case is a transformation (translation, rotation, inversion, reflection, matrix, nested sequences), points in some array form and bases. "
        "Results are compared with an independently computed affine map. Non-trivial: the map is not the identity and there are at least two points.")

t_s = g.flagged(g.pick(*[g.pick(g.isometry(2), g.isometry(2), g.matrix_t(), st.lists(g.pick(g.isometry(1), g.matrix_t()), min_size=1, max_size=4).map(lambda l: dict(t="S", seq=l)))] * 7
                       + [st.lists(g.isometry(0), min_size=5, max_size=20).map(lambda l: dict(t="S", seq=l))]))
case = st.fixed_dictionaries(dict(t=t_s, pts=st.lists(g.pick(g.vec(-20, 20), g.vec(-500, 500)), max_size=8), more=g.more(),
                                  form=st.sampled_from(["array", "array", "array", "int", "single", "fortran"]), B=st.lists(g.vec(-5, 5), min_size=3, max_size=3)))


def iso(t):
    return t["t"] != "M" and (t["t"] != "S" or all(iso(u) for u in t["seq"])) or (t["t"] == "M" and np.allclose(np.array(t["m"]) @ np.array(t["m"]).T, np.eye(3)))


def lin(t):
    """linear part only, translations ignored"""
    return g.affine(t)[0]


def run(c, ctx):
    t = c["t"]
    ob = g.build_t(t)
    A, b = g.affine(t)
    P = g.extend(np.array(c["pts"], float).reshape(-1, 3), c["more"])
    q = P.copy()
    if c["form"] == "int":
        P = np.round(P)
        q = P.astype(int)
    elif c["form"] == "fortran":
        q = np.asfortranarray(P)
    elif c["form"] == "single":
        P = P[:1] if len(P) else np.ones((1, 3))
        q = P[0].copy()
    ctx.label("kind:" + t["t"], "form:" + c["form"])
    q0 = q.copy()
    got = np.asarray(ob.applyTransformation(q), float)
    need(np.array_equal(q, q0), "points modified by applyTransformation")
    exp = P @ A.T + b
    if c["form"] == "single":
        got = got.reshape(1, 3)
    need(got.shape == exp.shape, "shape %s instead of %s", got.shape, exp.shape)
    scale = (1 + np.abs(P).max(initial=0) + np.abs(b).max()) * (1 + np.abs(A).max())
    need(np.all(np.abs(got - exp) < 1e-9 * scale), "%s maps %s to %s, expected %s", t, P[:20].tolist(), got[:20].tolist(), exp[:20].tolist())
    if iso(t) and len(P) > 1:
        d0 = np.linalg.norm(P[:40, None] - P[None], axis=2)
        d1 = np.linalg.norm(got[:40, None] - got[None], axis=2)
        need(np.allclose(d0, d1, atol=1e-8 * scale), "distances not preserved")
    if t["t"] in "IF" and c["form"] != "int":
        back = np.asarray(ob.applyTransformation(ob.applyTransformation(q)), float).reshape(-1, 3)
        need(np.all(np.abs(back - P) < 1e-9 * scale), "not an involution")
    # applying again gives the same (no state)
    again = np.asarray(ob.applyTransformation(q), float).reshape(exp.shape)
    need(np.array_equal(again, got), "second application differs")
    B = np.array(c["B"], float)
    B0 = B.copy()
    gb = np.asarray(ob.applyTransformation_bases(B), float)
    need(np.array_equal(B, B0), "bases modified")
    need(gb.shape == (3, 3) and np.all(np.abs(gb - A @ B) < 1e-9 * (1 + np.abs(A).max() * np.abs(B).max() * 10)), "bases become %s, expected %s", gb.tolist(), (A @ B).tolist())
    ctx.hit(len(P) > 1 and (not np.allclose(A, np.eye(3)) or not np.allclose(b, 0)))


# ------------------------------------------------------------ incremental sequences and setters
hist = st.fixed_dictionaries(dict(parts=g.pick(*[st.lists(g.flagged(g.pick(g.isometry(1), g.matrix_t())), min_size=1, max_size=6)] * 5 + [st.lists(g.flagged(g.isometry(1)), min_size=7, max_size=20)]), bulk=st.lists(st.booleans(), min_size=20, max_size=20),
                                  p=st.lists(g.vec(-9, 9), min_size=2, max_size=4), o2=g.vec(-9, 9), s2=g.vec(-9, 9), pl=g.plane()))


def run_hist(c, ctx):
    from czone.transform import MultiTransform, Translation, Inversion, Reflection, MatrixTransform
    P = np.array(c["p"])
    M = MultiTransform()
    spec = dict(t="S", seq=[])
    g.close(M.applyTransformation(P.copy()), P, 1e-12, "empty sequence")
    for i, t in enumerate(c["parts"]):
        if c["bulk"][i]:
            M.add_transform([g.build_t(t)])
        else:
            M.add_transform(g.build_t(t))
        spec["seq"].append(t)
        A, b = g.affine(spec)
        got = M.applyTransformation(P.copy())
        sc = 1 + np.abs(b).max() + np.abs(A).max() * 10
        need(np.all(np.abs(got - (P @ A.T + b)) < 1e-9 * sc), "after adding %d members", i + 1)
        need(len(M.transforms) == i + 1, "sequence has %d members", len(M.transforms))
    # changing parameters takes effect
    T = Translation(shift=np.array(c["o2"]))
    T.shift = c["s2"]
    g.close(T.applyTransformation(P), P + np.array(c["s2"]), 1e-10, "changed shift")
    I = Inversion(origin=np.array(c["o2"]))
    g.close(I.applyTransformation(P), 2 * np.array(c["o2"]) - P, 1e-10, "inversion")
    I.origin = c["s2"]
    g.close(I.applyTransformation(P), 2 * np.array(c["s2"]) - P, 1e-10, "inversion about changed origin")
    F = Reflection(g.build_surface(dict(c["pl"], p=c["o2"])))
    pl = g.build_surface(c["pl"])
    F.plane = pl
    A, b = g.affine(dict(t="F", n=c["pl"]["n"], p=c["pl"]["p"]))
    g.close(F.applyTransformation(P), P @ A.T + b, 1e-9, "reflection about changed plane")
    ctx.hit(len(c["parts"]) > 1)


# ------------------------------------------------------------ default flags
def run_flags(c, ctx):
    for t in c["parts"]:
        ob = g.build_t(t)
        if t["t"] != "S":
            need(ob.locked is True and ob.basis_only is False, "defaults of %s: locked %r basis_only %r", t["t"], ob.locked, ob.basis_only)
    from czone.transform import MultiTransform
    fl = c["fl"]
    obs = []
    for t, (l, bo) in zip(c["parts"], fl):
        if t["t"] == "S":
            continue
        o = g.build_t(dict(t, locked=l, basis_only=bo))
        need(o.locked is l and o.basis_only is bo, "flags read back as %r %r", o.locked, o.basis_only)
        obs.append((o, l, bo))
    M = MultiTransform([o for o, _, _ in obs])
    need(bool(M.locked) == any(l for _, l, _ in obs), "sequence locked=%r for %s", M.locked, fl)
    need(bool(M.basis_only) == any(b for _, _, b in obs), "sequence basis_only=%r for %s", M.basis_only, fl)
    ctx.hit(len(obs) > 1)


flag = st.fixed_dictionaries(dict(parts=st.lists(g.isometry(0), min_size=0, max_size=4), fl=st.lists(st.tuples(st.booleans(), st.booleans()), min_size=4, max_size=4)))
PARTS = [Part("apply", case, run, quick=3000, thorough=60000), Part("sequences", hist, run_hist, quick=800, thorough=12000), Part("flags", flag, run_flags, quick=300, thorough=3000, shards=1)]
