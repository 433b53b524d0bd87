import numpy as np
from hypothesis import strategies as st
from pbt import Part, need
import geom as g, objs
from objs import GM
from c17 import strain, build as build_strain_any, model as strain_model, region

ID = "C18"
RULE = ("direct: a modification (substitution, custom function, nested sequence) on generated atoms; every member's input and output is recorded and judged by its own rule, and the whole must be the chain of members. "
        "statistics: substitution of many atoms; counts overall, in parts of the array and in adjacent pairs within 7 sigma. generator: modifications attached to a crystal with optional strain, through "
        "copies and transformations. Non-trivial: some atom is changed by the modification and some is not, or at least two members act.")
ASSUMPTIONS = ["Statistical bounds are 7 sigma (plus 3 counts), under seeds fixed by the case."]

Z = [1, 6, 6, 8, 14, 31, 79]
zs = st.sampled_from(sorted(set(Z)))
frac = g.pick(st.just(0.0), st.just(1.0), g.num(0.02, 0.98))
sub = st.tuples(st.lists(zs, min_size=0, max_size=4, unique=True), st.lists(st.sampled_from(Z + [2, 47]), min_size=4, max_size=4), frac).map(
    lambda t: dict(k="sub", t=t[0], s=t[1][:len(t[0])], f=t[2]))
FUN = {
    "shift": lambda p, s: (p + np.array([0.5, -1.0, 2.0]), s),
    "species+1": lambda p, s: (p, s + 1),
    "drop": lambda p, s: (p[p[:, 0] >= 0], s[p[:, 0] >= 0]),
    "twice": lambda p, s: (np.vstack([p, p + 0.25]), np.hstack([s, s])),
    "reverse": lambda p, s: (p[::-1], s[::-1]),
    "by species": lambda p, s: (p * np.where(s > 7, 1.5, 1.0)[:, None], s),
    "none": lambda p, s: (p, s),
}
fun = st.sampled_from(sorted(FUN)).map(lambda n: dict(k="fun", n=n))


def mods(depth=2):
    if depth == 0:
        return g.pick(sub, sub, fun)
    return g.pick(sub, fun, *[st.tuples(st.lists(mods(depth - 1), max_size=4), st.sampled_from(["ctor", "ctor", "one by one", "extend", "tuple", "single"])).map(lambda t: dict(k="seq", of=t[0], how=t[1]))] * 2)


def build(m, log):
    """Real modification whose members are surrounded by recorders."""
    from czone.transform.post import ArbitraryPostTransform, ChemicalSubstitution, PostSequence

    if m["k"] == "sub":
        return ChemicalSubstitution(list(m["t"]), list(m["s"]), m["f"])
    if m["k"] == "fun":
        f = FUN[m["n"]]

        def rec(p, s):
            log.append((m["n"], np.array(p), np.array(s)))
            return f(p, s)
        return ArbitraryPostTransform(rec)
    kids = [build(x, log) for x in m["of"]]
    if m["how"] == "single" and len(kids) == 1:
        return PostSequence([kids[0]])
    if m["how"] == "one by one":
        q = PostSequence(None)
        for k in kids:
            q.add_transform(k)
        return q
    if m["how"] == "extend":
        q = PostSequence(kids[:1])
        q.add_transform(kids[1:])
        return q
    return PostSequence(tuple(kids) if m["how"] == "tuple" else kids)


def flat(m):
    return [x for k in m["of"] for x in flat(k)] if m["k"] == "seq" else [m]


def valid_sub(m, s0, s1):
    s0, s1 = np.asarray(s0), np.asarray(s1)
    need(s1.shape == s0.shape, "substitution turned species of shape %s into %s", s0.shape, s1.shape)
    mp = dict(zip(m["t"], m["s"]))
    for t in np.unique(s0):
        now = s1[s0 == t]
        if t not in mp or m["f"] == 0:
            need((now == t).all(), "species %s became %s; targets %s, fraction %s", t, np.unique(now).tolist(), m["t"], m["f"])
        elif m["f"] == 1:
            need((now == mp[t]).all(), "species %s should all become %s, got %s", t, mp[t], np.unique(now).tolist())
        else:
            need(np.isin(now, [t, mp[t]]).all(), "species %s became %s, substitute is %s", t, np.unique(now).tolist(), mp[t])


atoms = st.lists(st.tuples(st.sampled_from(Z), g.vec(-5, 5)), min_size=0, max_size=25)
dcase = st.fixed_dictionaries(dict(m=mods(), a=atoms, more=g.more(), seed=g.pick(st.none(), st.integers(0, 2**32 - 1)), f=st.booleans()))


def run_direct(c, ctx):
    n = min(c["more"]["n"], 1500)
    p = g.extend(np.array([x[1] for x in c["a"]], float).reshape(-1, 3), dict(c["more"], n=n), 5)
    s = np.array([x[0] for x in c["a"]] + [Z[i * i % 7] for i in range(n)], float if c["f"] else int).reshape(-1)
    p0, s0 = p.copy(), s.copy()
    log, log2 = [], []
    m = build(c["m"], log)
    kw = {} if c["seed"] is None else dict(seed=c["seed"])
    members = flat(c["m"])
    q, r = m.apply_function(p, s, **kw)
    need(np.array_equal(p, p0) and np.array_equal(s, s0), "input arrays modified")
    q, r = np.asarray(q), np.asarray(r)
    need(q.ndim == 2 and q.shape[1] == 3 and r.shape == (len(q),), "result shapes %s %s", q.shape, r.shape)
    # the chain of members, one at a time, each judged on its own
    cp, cs = p0, s0
    sure = True
    acted = 0
    for x in members:
        one = build(x, log2)
        np_, ns = one.apply_function(cp.copy(), cs.copy(), **kw)
        if x["k"] == "sub":
            need(np.array_equal(np_, cp), "substitution changes positions")
            valid_sub(x, cs, ns)
            sure &= x["f"] in (0, 1) or c["seed"] is not None or not np.isin(cs, x["t"]).any()
        else:
            ep, es = FUN[x["n"]](cp, cs)
            need(np.array_equal(ep, np_) and np.array_equal(es, ns), "custom function %s is not applied as given", x["n"])
        acted += not (np.array_equal(np_, cp) and np.array_equal(ns, cs))
        cp, cs = np.asarray(np_), np.asarray(ns)
    need([x[0] for x in log] == [x["n"] for x in members if x["k"] == "fun"], "functions applied %s, sequence has %s", [x[0] for x in log], [x["n"] for x in members if x["k"] == "fun"])
    if sure:
        need(np.array_equal(q, cp) and np.array_equal(r, cs), "result %s %s; members applied in order give %s %s", q.tolist()[:3], r.tolist()[:5], cp.tolist()[:3], cs.tolist()[:5])
        q2, r2 = m.apply_function(p, s, **kw)
        need(np.array_equal(q, q2) and np.array_equal(r, r2), "the same seed gives another result")
    elif not any(x["k"] == "fun" for x in members):
        need(np.array_equal(q, p0), "positions changed")
        # each atom can only walk along the pairs
        for i in range(len(s0)):
            can = {s0[i]}
            for x in members:
                mp = dict(zip(x["t"], x["s"]))
                can = set().union(*[({mp[z]} if x["f"] == 1 else {z} if x["f"] == 0 else {z, mp[z]}) if z in mp else {z} for z in can])
            need(r[i] in can, "atom of species %s became %s", s0[i], r[i])
    ctx.label("%d members" % len(members), "seeded" if kw else "unseeded", *{x["k"] for x in members})
    ctx.hit((acted == 1 and 0 < (cs != s0).sum() < len(s0) if len(cs) == len(s0) else acted) or acted > 1)


scase = st.fixed_dictionaries(dict(t=st.lists(st.sampled_from([6, 8, 14, 31]), min_size=1, max_size=4, unique=True), s=st.lists(st.sampled_from([6, 8, 14, 31, 79]), min_size=4, max_size=4),
                                   f=g.num(0.01, 0.99), n=st.sampled_from([500, 4000, 20000]), seed=g.pick(st.integers(0, 2**31), st.integers(0, 2**31), st.none()), order=st.sampled_from(["random", "sorted"]), data=st.integers(0, 2**31)))


def run_stat(c, ctx):
    from czone.transform.post import ChemicalSubstitution
    rng = np.random.default_rng(c["data"])
    s = rng.choice([6, 8, 14, 31, 47], c["n"])
    if c["order"] == "sorted":
        s = np.sort(s)
    p = rng.normal(size=(c["n"], 3))
    m = dict(k="sub", t=c["t"], s=c["s"][:len(c["t"])], f=c["f"])
    cs = ChemicalSubstitution(m["t"], m["s"], m["f"])
    kw = {} if c["seed"] is None else dict(seed=c["seed"])
    _, r = cs.apply_function(p, s, **kw)
    valid_sub(m, s, r)
    f = c["f"]
    can = np.zeros(len(s), bool)
    for t, u in zip(m["t"], m["s"]):
        can |= (s == t) & (t != u)
    did = (r != s)

    def bound(k, n, q, what):
        need(abs(k - n * q) <= 7 * np.sqrt(n * q * (1 - q)) + 3, "%s: %d of %d substituted, fraction %s", what, k, n, q)
    for t in m["t"]:
        w = can & (s == t)
        bound(did[w].sum(), w.sum(), f, "species %d" % t)
    i = np.flatnonzero(can)
    for name, part in (("all", i), ("first half", i[:len(i) // 2]), ("second half", i[len(i) // 2:]), ("every second", i[::2]), ("first tenth", i[:len(i) // 10])):
        bound(did[part].sum(), len(part), f, name)
    # neighbours in the list are decided independently
    d = did[i]
    for lag in (1, 2):
        a, b = d[:-lag:2 * lag], d[lag::2 * lag]
        k = min(len(a), len(b))
        bound((a[:k] & b[:k]).sum(), k, f * f, "both of a pair")
    # decided anew for another seed
    if len(i) >= 400 and 0.1 < f < 0.9:
        kw2 = {} if c["seed"] is None else dict(seed=c["seed"] + 1)
        d2 = (cs.apply_function(p, s, **kw2)[1] != s)[i]
        bound((d & d2).sum(), len(i), f * f, "substituted under both of two seeds")
    ctx.label("n%d" % c["n"])
    ctx.hit(0 < did.sum() < can.sum())


gop = g.pick(objs.flag(g.isometry(1)).map(lambda t: ["transform", t]), st.just(["copy"]), st.just(["supply"]), mods(1).map(lambda m: ["set", m]), g.vec(-5, 5).map(lambda v: ["origin", v]))
gcase = st.fixed_dictionaries(dict(g=g.crystal(3), m=mods(1), s=g.pick(st.none(), strain), ops=st.lists(gop, max_size=4), r=region, v=g.pick(st.none(), g.vol())))


def run_gen(c, ctx):
    from czone.transform.post import ArbitraryPostTransform, PostSequence
    gm = GM(c["g"])
    plain, gen = g.build_gen(c["g"]), g.build_gen(c["g"])
    log = []
    R = np.array(c["r"], float)

    def rec(name):
        def f(p, s):
            log.append((name, np.array(p), np.array(s)))
            return p, s
        return ArbitraryPostTransform(f)

    def attach(m):
        fl = flat(m)
        seq = [rec("in")]
        for i, x in enumerate(fl):
            seq += [build(x, []), rec(i)]
        gen.post_transform = PostSequence(seq)
        return fl
    members = attach(c["m"])
    if c["s"] is not None:
        gen.strain_field = build_strain_any(c["s"])
    cell = (list(gen.species), np.array(gen.coords), np.array(gen.structure.lattice.matrix))

    def judge(a, sa, out, so, what):
        """One application: recorded stages from (a, sa) to the atoms supplied."""
        need([x[0] for x in log] == ["in"] + list(range(len(members))), "%s: stages run %s of %d members", what, [x[0] for x in log], len(members))
        st_ = [(x[1], x[2]) for x in log]
        need(np.array_equal(st_[0][0], a) and np.array_equal(st_[0][1], sa), "%s: the modification is not given the crystal's atoms", what)
        acted = 0
        for x, (p0, s0), (p1, s1) in zip(members, st_[:-1], st_[1:]):
            if x["k"] == "sub":
                need(np.array_equal(p0, p1), "substitution changes positions")
                valid_sub(x, s0, s1)
            else:
                ep, es = FUN[x["n"]](p0, s0)
                need(np.array_equal(ep, p1) and np.array_equal(es, s1), "%s: function %s not applied as given", what, x["n"])
            acted += not (np.array_equal(p0, p1) and np.array_equal(s0, s1))
        p, s = st_[-1]
        w = p if c["s"] is None else strain_model(c["s"], p, gm.model())
        if out is not None:
            need(np.array_equal(np.asarray(so), s), "%s: species supplied are not those of the modification", what)
            out = g.as_pts(out)
            need(out.shape == w.shape and np.abs(out - w).max(initial=0) <= 1e-6 * (1 + np.abs(w).max(initial=0)), "%s: positions supplied are not those of the modification%s", what, "" if c["s"] is None else ", strained")
        return acted, w, s

    def check(what):
        m = gm.model()
        fr = np.linalg.solve(m[0], (R - m[1]).T).T
        if np.prod(np.ptp(fr, axis=0) + 3) * len(m[3]) > 6000:
            ctx.label("too large")
            return
        a, sa = plain.supply_atoms(R)
        log.clear()
        b, sb = gen.supply_atoms(R)
        acted, _, _ = judge(a, sa, b, sb, what)
        need(list(gen.species) == cell[0] and np.array_equal(gen.coords, cell[1]) and np.array_equal(gen.structure.lattice.matrix, cell[2]), "%s: the crystal itself changed", what)
        g.close(gen.voxel.sbases, m[0], 1e-8, "basis")
        g.close(gen.origin, m[1], 1e-8, "origin")
        ctx.hit(acted and len(a))
    check("initially")
    for o in c["ops"]:
        ctx.label(o[0])
        if o[0] == "transform":
            for x in (plain, gen):
                x.transform(g.build_t(o[1]))
            gm.apply(o[1])
        elif o[0] == "origin":
            for x in (plain, gen):
                x.origin = np.array(o[1])
            gm.o = np.array(o[1])
        elif o[0] == "copy":
            old = gen
            gen = gen.from_generator()
            need(type(gen.post_transform) is type(old.post_transform), "the copy has another modification")
        elif o[0] == "set":
            members[:] = attach(o[1])
        check("after " + o[0])
    if c["v"] is not None:
        v = c["v"]
        ctr, half = g.vol_center_size(v)
        m = gm.model()
        if np.prod(np.abs(np.linalg.inv(m[0])) @ (2 * half) + 3) * len(m[3]) > 20000:
            return
        ob = g.build_vol(v, generator=gen)
        for _ in range(2):
            log.clear()
            ob.populate_atoms()
            a, sa = plain.supply_atoms(ob.get_bounding_box())
            acted, w, s = judge(a, sa, None, None, "volume")
            mg = g.vol_margin(v, w) if len(w) else np.zeros(0)
            band = 2e-6 * (1 + np.abs(w).max(initial=0) / 10)
            at, sp = g.atoms_of(ob)
            must, may = mg > band, mg > -band
            g.contains(w[must], s[must], at, sp, 10 * band, "modified atom inside the volume missing:")
            g.contains(at, sp, w[may], s[may], 10 * band, "atom not among the modified atoms:")
            need(must.sum() <= len(at) <= may.sum(), "%d atoms in the volume, %d modified atoms inside", len(at), must.sum())
        ctx.label("volume")


PARTS = [Part("direct", dcase, run_direct, quick=1500, thorough=25000), Part("statistics", scase, run_stat, quick=150, thorough=2500), Part("generator", gcase, run_gen, quick=700, thorough=10000, shards=8)]
