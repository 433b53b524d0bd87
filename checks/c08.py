import numpy as np
from hypothesis import strategies as st
from pbt import Part, need
import geom as g

ID = "C08"
RULE = ("A case is a moving plane and point and a target plane and point (free, parallel, antiparallel, identical planes; points on or off the planes). "
        "Postconditions are checked on the returned motion. Non-trivial: the planes are not already in contact with opposite normals.")

case = st.fixed_dictionaries(dict(mn=g.direction(), mp=g.shift_vec(60), tn=g.direction(), tp=g.shift_vec(60), rel=st.sampled_from(["free", "free", "free", "same", "opposite", "identical"]),
                                  mq=g.vec(-12, 12), tq=g.vec(-12, 12), onm=st.booleans(), ont=st.booleans(), test=st.lists(g.vec(-9, 9), min_size=2, max_size=4)))


def run(c, ctx):
    from czone.volume import Plane
    from czone.transform import s2s_alignment
    mn, mp, tn, tp = map(np.array, (c["mn"], c["mp"], c["tn"], c["tp"]))
    if c["rel"] == "same":
        mn = 2.0 * tn
    elif c["rel"] == "opposite":
        mn = -0.5 * tn
    elif c["rel"] == "identical":
        mn, mp = tn, tp
    um, ut = g.unit(mn), g.unit(tn)
    mq, tq = mp + np.array(c["mq"]), tp + np.array(c["tq"])
    if c["onm"]:
        mq = mq - ((mq - mp) @ um) * um
    if c["ont"]:
        tq = tq - ((tq - tp) @ ut) * ut
    M, T = Plane(mn.copy(), mp.copy()), Plane(tn.copy(), tp.copy())
    a1, a2 = mq.copy(), tq.copy()
    tr = s2s_alignment(M, T, a1, a2)
    need(np.array_equal(a1, mq) and np.array_equal(a2, tq), "points modified")
    for pl, n, p in ((M, um, mp), (T, ut, tp)):
        need(np.allclose(pl.normal, n, atol=1e-12) and np.allclose(pl.point, p, atol=1e-12), "a plane was modified")
    X = np.array(c["test"])
    sc = 1 + max(np.abs(x).max() for x in (mp, tp, mq, tq))
    tol = 3e-6 * sc
    f = lambda x: np.asarray(tr.applyTransformation(np.atleast_2d(np.array(x, float))), float)
    L = np.asarray(tr.applyTransformation_bases(np.eye(3)), float)
    need(np.abs(L @ L.T - np.eye(3)).max() < 1e-6 and abs(np.linalg.det(L) - 1) < 1e-6, "linear part is not a proper rotation")
    need(np.abs((f(X) - f(np.zeros(3))) - X @ L.T).max() < tol, "motion is not rigid with its linear part")
    # normals opposite, planes coincide
    need(np.abs(L @ um + ut).max() < 1e-6, "moved normal %s is not opposite to %s", (L @ um).tolist(), ut.tolist())
    need(abs((f(mp)[0] - tp) @ ut) < tol, "moved plane is %.4g away from the target plane", (f(mp)[0] - tp) @ ut)
    img = f(mq)[0]
    lateral = (img - tq) - ((img - tq) @ ut) * ut
    need(np.abs(lateral).max() < tol, "moved point misses the target point by %s within the plane", lateral.tolist())
    if c["onm"] and c["ont"]:
        need(np.abs(img - tq).max() < tol, "points on the planes do not meet: %s vs %s", img.tolist(), tq.tolist())
    # it is a rotation followed by a translation
    seq = tr.transforms
    need(len(seq) == 2, "sequence of %d members", len(seq))
    need(np.abs(np.asarray(seq[0].applyTransformation_bases(np.eye(3))) - L).max() < 1e-9 and np.abs(np.asarray(seq[1].applyTransformation_bases(np.eye(3))) - np.eye(3)).max() < 1e-12,
         "not a rotation followed by a translation")
    # acting on the moving plane itself
    moved = M.from_alg_object(transformation=[tr])
    need(np.abs(moved.normal + ut).max() < 1e-6 and abs((moved.point - tp) @ ut) < tol, "transformed plane object is not on the target plane")
    ctx.label(c["rel"])
    ctx.hit(c["rel"] != "opposite" or abs((mp - tp) @ ut) > 0.1)


PARTS = [Part("alignment", case, run, quick=3000, thorough=50000)]
