import numpy as np
from hypothesis import strategies as st
from pbt import Part, need
import geom as g, objs
from objs import Ob, TooLarge

ID = "C11"
RULE = ("A case is a volume or nested multi-volume with crystal generators and a history of transformations (locked, unlocked, basis-only; single or nested sequences), applied in place or through "
        "copies, to the whole or to a member. After each step the object is populated and compared with the reference model (region moved, crystal moved / fixed / basis moved), and for locked "
        "isometries directly with the image of its previous atoms. Non-trivial: atoms present before and after a transformation that is not the identity.")

step = st.tuples(st.sampled_from(["in place", "in place", "in place", "copy", "copy keep", "member"]), st.lists(objs.flag(g.isometry(1)), min_size=1, max_size=3), st.integers(0, 5))
case = st.fixed_dictionaries(dict(o=objs.tree(depth=1), steps=g.pick(*[st.lists(step, min_size=1, max_size=3)] * 5 + [st.lists(step, min_size=4, max_size=8)])))


def plain(t):
    if t["t"] == "S":
        return all(plain(u) for u in t["seq"])
    return t.get("locked", True) and not t.get("basis_only")


def run(c, ctx):
    try:
        o = Ob(c["o"])
        ctx.label("multi" if o.kids is not None else "single")
        copied = False
        o.ob.populate_atoms()
        exp = objs.verify(o, "before")
        for i, (how, ts, who) in enumerate(c["steps"]):
            what = "step %d (%s)" % (i, how)
            n0 = exp[2].sum()
            target = o
            real = [g.build_t(t) for t in ts]
            if how.startswith("copy"):
                new = o.clone_model()
                new.ob = o.ob.from_volume(transformation=real)
                for t in ts:
                    new.apply(t)
                new.ob.populate_atoms()
                new_exp = objs.verify(new, what + ": copy")
                o.ob.populate_atoms()
                objs.verify(o, what + ": original")
                if how == "copy keep":
                    continue
                copied = True  # members of the copy are not tracked individually
                o2 = new
            else:
                o2 = o
                if how == "member" and o.kids and not copied:
                    target = o.kids[who % len(o.kids)]
                for t, r in zip(ts, real):
                    target.ob.transform(r)
                    target.apply(t)
                o.ob.populate_atoms()
                new_exp = objs.verify(o, what)
            A, b = g.affine(dict(t="S", seq=ts))
            if all(plain(t) for t in ts) and target is o:
                # image of the atoms that must be there
                at, sp = exp[0][exp[2]] @ A.T + b, exp[1][exp[2]]
                tol = 1e-5 + 1e-6 * (1 + np.abs(at).max(initial=0))
                g.contains(at, sp, o2.ob.atoms, np.asarray(o2.ob.species, float), tol, what + ": image of an atom missing")
                alll = exp[0] @ A.T + b
                g.contains(np.asarray(o2.ob.atoms), np.asarray(o2.ob.species, float), alll, exp[1], tol, what + ": atom without original")
                ctx.label("locked")
            else:
                ctx.label("mixed")
            moved = np.abs(A - np.eye(3)).max() + np.abs(b).max() > 1e-3
            ctx.hit(moved and n0 > 0 and (new_exp[2].sum() > 0 or not all(plain(t) for t in ts)))
            o, exp = o2, new_exp
    except TooLarge:
        ctx.label("too large")


PARTS = [Part("moving", case, run, quick=1600, thorough=24000, shards=8)]
