import numpy as np
from hypothesis import strategies as st
from scipy.spatial import cKDTree
from pbt import Part, need
import geom as g

ID = "C15"
RULE = ("A case is a block (dimensions from thinner than the minimum distance to many times it, also just above multiples of it), a density up to 0.25/min_dist^3, a seed and a routine with its "
        "batch parameters; or a generator with a history of supplies, reuse switches, parameter changes and transformations; or a volume filled with it. Counts, extents and all pair distances "
        "(periodic in x and y) are compared with a direct calculation. Non-trivial: at least two atoms.")


def periodic_min(c, dims):
    """Smallest distance between two atoms, minimum image in x and y."""
    n = len(c)
    best = np.inf
    for i in range(0, n, 400):
        d = np.abs(c[i:i + 400, None, :] - c[None, :, :])
        for ax in (0, 1):
            d[:, :, ax] = np.minimum(d[:, :, ax], np.abs(dims[ax] - d[:, :, ax]))
        d2 = np.sum(d * d, axis=2)
        d2[np.arange(len(d2)), np.arange(i, i + len(d2))] = np.inf
        best = min(best, d2.min())
    return np.sqrt(best)


def check_block(c, dims, md, dens, what, ctx):
    dims = np.asarray(dims, float)
    c = g.as_pts(c, what=what)
    exact = np.prod(dims) * dens
    n = int(np.round(exact))
    need(len(c) == n or abs(abs(exact - np.floor(exact)) - 0.5) < 1e-9 and abs(len(c) - exact) < 0.6, "%s: %d atoms instead of %d", what, len(c), n)
    if n == 0:
        return
    need(np.all(c >= -1e-9) and np.all(c <= dims + 1e-9), "%s: atom outside the block: from %s to %s in %s", what, c.min(0).tolist(), c.max(0).tolist(), dims.tolist())
    if n > 1:
        m = periodic_min(c, dims)
        need(m >= md * (1 - 1e-9), "%s: two atoms at distance %.6g, minimum is %.6g", what, m, md)
        ctx.hit()
    if n >= 30:
        dev = np.abs(np.mean(c / dims, axis=0) - 0.5)
        need(np.all(dev < 7 * 0.29 / np.sqrt(n)), "%s: atoms are not spread over the block (mean offset %s of %d)", what, dev.tolist(), n)


# dimensions in units of the minimum distance
dim = g.pick(st.sampled_from([0.4, 0.9, 1.0, 1.01, 1.5, 1.99, 2.0, 2.01, 2.5, 2.99, 3.0, 3.2, 3.99, 4.01]), g.num(0.3, 4), g.num(2, 9), g.num(0.3, 16))
block = st.fixed_dictionaries(dict(d=st.lists(dim, min_size=3, max_size=3), md=g.pick(st.just(1.4), g.num(0.5, 4)), rho=g.pick(st.just(0.25), g.num(0.02, 0.25)), seed=st.integers(0, 2 ** 20)))
acase = st.fixed_dictionaries(dict(b=block, alg=st.sampled_from(["single", "batched"]), bs=st.sampled_from([None, 1, 2, 3, 16, 40, 100]), vs=st.sampled_from([None, 1.0, 1.3, 2.0, 3.0]), form=st.sampled_from(["array", "list", "int"])))
MAXN = 900


def run_block(c, ctx):
    from czone.generator.amorphous_algorithms import gen_p_substrate, gen_p_substrate_batched
    b = c["b"]
    dims = np.array(b["d"]) * b["md"]
    if c["form"] == "int":
        dims = np.maximum(np.round(dims), 1)
    dens = b["rho"] / b["md"] ** 3
    if np.prod(dims) * dens > MAXN:
        dims = dims * (MAXN / (np.prod(dims) * dens)) ** (1 / 3)
        if c["form"] == "int":
            dims = np.maximum(np.floor(dims), 1)
    arg = dims.astype(int) if c["form"] == "int" else dims.copy() if c["form"] == "array" else dims.tolist()
    kw = dict(min_dist=b["md"], density=dens, seed=b["seed"])
    f = gen_p_substrate
    if c["alg"] == "batched":
        f = gen_p_substrate_batched
        if c["bs"] is not None:
            kw["batch_size"] = c["bs"]
        if c["vs"] is not None:
            kw["voxel_scale"] = c["vs"]
    a = np.array(f(arg, **kw))
    need(np.array_equal(np.asarray(arg, float), dims), "dimensions modified")
    check_block(a, dims, b["md"], dens, c["alg"], ctx)
    np.random.seed(99)
    need(np.array_equal(a, f(arg, **kw)), "%s: the same seed gives another block", c["alg"])
    if len(a):
        need(not np.array_equal(a, f(arg, **dict(kw, seed=b["seed"] + 1))), "%s: another seed gives the same block", c["alg"])
    ctx.label(c["alg"], "thin" if min(b["d"]) < 2 else "wide")


region = g.pick(g.hull_points(), st.lists(g.vec(-9, 9), min_size=4, max_size=6))
op = g.pick(st.tuples(st.just("supply"), region), st.tuples(st.just("supply"), region), st.tuples(st.just("reuse"), st.booleans()), st.tuples(st.just("min_dist"), g.num(0.7, 2.5)),
            st.tuples(st.just("rho"), g.num(0.05, 0.25)), st.tuples(st.just("species"), st.integers(1, 90)), st.tuples(st.just("transform"), g.isometry(1)))
gcase = st.fixed_dictionaries(dict(md=g.pick(st.just(1.4), g.num(1.0, 2.5)), rho=g.num(0.05, 0.25), z=st.integers(1, 90), o=g.pick(st.none(), g.vec(-5, 5)), ops=st.lists(op, min_size=1, max_size=5), last=region, dflt=st.booleans()))


def run_gen(c, ctx):
    from czone.generator import AmorphousGenerator
    kw = {} if c["o"] is None else dict(origin=np.array(c["o"]))
    if c["dflt"]:
        gen, md, dens, z = AmorphousGenerator(**kw), 1.4, .1103075, 6
    else:
        md, dens, z = c["md"], c["rho"] / c["md"] ** 3, c["z"]
        gen = AmorphousGenerator(min_dist=md, density=dens, species=z, **kw)
    old, reuse = None, False
    for k, v in c["ops"] + [["supply", c["last"]]]:
        ctx.label(k)
        if k == "supply":
            reg = np.array(v, float)
            ext = np.ptp(reg, axis=0)
            r0 = reg.copy()
            if np.prod(ext) * dens > MAXN:
                ctx.label("too large")
                continue
            a, s = gen.supply_atoms(reg)
            need(np.array_equal(reg, r0), "region modified")
            a, s = np.array(g.as_pts(a, what="amorphous atoms")), np.array(s)
            need(s.shape == (len(a),), "species shape %s for %d atoms", s.shape, len(a))
            if reuse and old is not None:
                need(np.allclose(a, old[0], atol=1e-8, rtol=1e-9) and np.array_equal(s, old[1]), "reuse was requested but the atoms are not those of the previous result (moved with the generator)")
                ctx.label("reused")
                ctx.hit(len(a) > 1)
            else:
                check_block(a - reg.min(0), ext, md, dens, "generator", ctx)
                need(np.all(s == z), "species %s instead of %s", np.unique(s).tolist(), z)
            old = (a, s)
            o = gen.old_result
            need(o is not None and np.array_equal(o[0], a) and np.array_equal(o[1], s), "old_result is not the result just supplied")
        elif k == "reuse":
            gen.use_old_result = v
            reuse = v
        elif k == "min_dist":
            if dens * v ** 3 <= 0.25:
                gen.min_dist = md = v
        elif k == "rho":
            gen.density = dens = v / md ** 3
        elif k == "species":
            gen.species = z = v
        elif k == "transform":
            gen.transform(g.build_t(v))
            if old is not None:
                A, b = g.affine(v)
                old = (old[0] @ A.T + b, old[1])


vcase = st.fixed_dictionaries(dict(v=g.vol(), md=g.num(1.0, 2.0), rho=g.num(0.1, 0.25), z=st.integers(1, 90), t=g.pick(st.none(), g.isometry(0))))


def run_vol(c, ctx):
    from czone.generator import AmorphousGenerator
    dens = c["rho"] / c["md"] ** 3
    ctr, half = g.vol_center_size(c["v"])
    if np.prod(2 * half) * dens > 3 * MAXN or (c["v"]["pts"] is not None and np.prod(np.ptp(np.array(c["v"]["pts"]), axis=0)) * dens > MAXN):
        ctx.label("too large")
        return
    v = c["v"]
    ob = g.build_vol(v, generator=AmorphousGenerator(min_dist=c["md"], density=dens, species=c["z"]))
    if c["t"] is not None:
        ob.transform(g.build_t(c["t"]))
        v = g.vol_transform(v, *g.affine(c["t"]))
    box = np.asarray(ob.get_bounding_box())
    if np.prod(np.ptp(box, axis=0)) * dens > 1.5 * MAXN:
        ctx.label("too large")
        return
    ob.populate_atoms()
    a, s = g.atoms_of(ob)
    need(np.all(s == c["z"]), "species")
    # the atoms kept are those of the supplied block inside the volume
    full, _ = ob.generator.old_result
    m = g.vol_margin(v, full)
    sc = 1e-6 * (1 + np.abs(full).max(initial=0))
    g.contains(full[m > sc], np.full(int((m > sc).sum()), c["z"]), a, s, 1e-9, "supplied atom inside the volume missing:")
    g.contains(a, s, full[m > -sc], np.full(int((m > -sc).sum()), c["z"]), 1e-9, "atom outside the volume or not supplied:")
    check_block(full - box.min(0), np.ptp(box, axis=0), c["md"], dens, "block of the volume", ctx)
    cs, hs = g.vol_center_size(v)
    grid = g.kron(60, [0, 0, 0]) * 2 * hs + cs - hs
    inner = grid[g.vol_margin(v, grid) > 1e-5 * (1 + np.abs(grid).max()) + 3 * max([g.tol_of(x) for x in v["alg"]] + [0])]
    need(np.all(inner >= box.min(0) - 1e-6 * (1 + np.abs(box).max())) and np.all(inner <= box.max(0) + 1e-6 * (1 + np.abs(box).max())), "supplied block does not cover the volume")
    ctx.hit(len(a) > 1)


PARTS = [Part("blocks", acase, run_block, quick=900, thorough=12000, shards=8, case_s=200), Part("generator", gcase, run_gen, quick=400, thorough=6000, shards=8, case_s=200),
         Part("volumes", vcase, run_vol, quick=200, thorough=3000, shards=8, case_s=200)]
