"""C18: enumeration of lattice clusters and their multiplicities."""
import numpy as np
from vmon import gen, oracle, poly

nlce = gen.M["ed_nlce"]
RULE = ("complete enumerations of square lattice clusters up to a random order, with and without symmetry reduction, growth of random "
        "collections of clusters by one site and symmetry orbits of random clusters, compared with an independent enumeration of "
        "polyominoes. Distinct by order, symmetry and cluster shapes.")
ASSUMPTIONS = ["square lattice (unit vectors in any order or sign), or a chain (both vectors along one direction, no point symmetry)", "clusters put in sorted order first, as the library itself does"]
REQUIRED = ["oracle:each cluster shape", "oracle:multiplicity", "oracle:total multiplicity", "oracle:order boundaries", "oracle:growth",
            "oracle:symmetry orbit", "oracle:clusters of a chain", "symmetry:on", "symmetry:off", "call:ed_nlce.get_all_clusters"]
FIXED = {1: 1, 2: 2, 3: 6, 4: 19, 5: 63, 6: 216, 7: 760, 8: 2725}
FREE = {1: 1, 2: 1, 3: 2, 4: 5, 5: 12, 6: 35, 7: 108, 8: 369}


def taps():
    return [(nlce, n, None) for n in ("get_all_clusters", "get_clusters_next_order", "get_clusters_rel_by_symmetry")]


def vectors(rng):
    a, b = np.array([1, 0]), np.array([0, 1])
    if rng.random() < 0.5:
        return {}
    if rng.random() < 0.5:
        a, b = b, a
    return dict(lv1=int(rng.choice([1, -1])) * a, lv2=int(rng.choice([1, -1])) * b)


def chain(ctx):
    """the allowed moves are those of the lattice vectors: with a single direction the clusters are segments"""
    rng = ctx.rng
    order = int(rng.integers(1, 8))
    v = gen.pick(rng, [np.array([1, 0]), np.array([0, 1]), np.array([-1, 0]), np.array([0., -1.])])
    u = int(rng.choice([1, -1])) * v
    clusters, mult, inds = nlce.get_all_clusters(order, lv1=v, lv2=u, use_symmetry=False)
    shapes = [oracle.norm_shape(poly.check_cluster(ctx, c, "cluster")) for c in clusters]
    want = [oracle.norm_shape([(i * int(abs(v[0])), i * int(abs(v[1]))) for i in range(k + 1)]) for k in range(order)]
    ctx.check(shapes == want, f"clusters of a chain are segments: {v}: {[len(s) for s in shapes]}")
    ctx.check(list(mult) == [1] * order and list(inds) == list(range(order + 1)), "one segment for each order")
    # growth of a segment, and of any cluster along one direction only
    c = gen.polyomino(rng, int(rng.integers(1, 6)), int(rng.integers(-3, 4)), int(rng.integers(-3, 4)))
    got, mult = nlce.get_clusters_next_order([poly.make(c)], lv1=v, lv2=u, use_symmetry=False)
    keys = [oracle.norm_shape(poly.check_cluster(ctx, g, "cluster")) for g in got]
    d = (int(abs(v[0])), int(abs(v[1])))
    want = {oracle.norm_shape(c + [(x + s * d[0], y + s * d[1])]) for x, y in c for s in (1, -1) if (x + s * d[0], y + s * d[1]) not in c}
    ctx.check(len(keys) == len(set(keys)) and set(keys) == want, f"growth by one site along the lattice vectors: {c}")
    ctx.seen(order, v, oracle.norm_shape(c))
    ctx.describe(order=order, vector=v, cluster=c)


def enumerate_all(ctx):
    rng = ctx.rng
    symm = bool(ctx.index % 2)
    top = (7 if symm else 6) if ctx.tier == "quick" else (8 if symm else 7)
    order = 1 + (ctx.index // 2) % top
    ctx.event("symmetry:" + ("on" if symm else "off"))
    kw = vectors(rng)
    clusters, mult, inds = nlce.get_all_clusters(order, use_symmetry=symm, **kw)
    mult = np.asarray(mult)
    ctx.check(len(clusters) == mult.size, "each cluster has a multiplicity")
    ctx.check(len(inds) == order + 1 and inds[0] == 0 and inds[-1] == len(clusters), f"order boundaries span the list: {inds}")
    for k in range(1, order + 1):
        block = range(inds[k - 1], inds[k])
        shapes = [poly.check_cluster(ctx, clusters[i], "cluster") for i in block]
        ctx.check(all(len(s) == k for s in shapes), "order boundaries separate numbers of sites")
        want = {poly.canon(s, symm) for s in oracle.fixed_polyominoes(k)}
        got = [poly.canon(s, symm) for s in shapes]
        ctx.check(len(want) == (FREE if symm else FIXED)[k], "reference enumeration")
        ctx.check(len(got) == len(set(got)), "each cluster shape appears once")
        ctx.check(set(got) == want, f"each cluster shape appears: {k} sites: {len(got)} instead of {len(want)}")
        for i, s in zip(block, shapes):
            ctx.check(mult[i] == poly.multiplicity(s, symm), f"multiplicity is the number of orientations: {s}: {mult[i]}")
        ctx.check(int(np.sum(mult[inds[k - 1]:inds[k]])) == FIXED[k], f"total multiplicity counts all embeddings per site: {k}")
    ctx.seen(order, symm, sorted((k, v.tolist()) for k, v in kw.items()))
    ctx.describe(order=order, symmetry=symm, clusters=len(clusters))


def growth(ctx):
    rng = ctx.rng
    symm = bool(rng.integers(2))
    ctx.event("symmetry:" + ("on" if symm else "off"))
    n = int(rng.integers(1, 7))
    count = int(rng.integers(1, 5))
    parents = [gen.polyomino(rng, n, int(rng.integers(-3, 4)), int(rng.integers(-3, 4))) for _ in range(count)]
    got, mult = nlce.get_clusters_next_order([poly.make(c, dtype=gen.pick(rng, [int, float])) for c in parents], use_symmetry=symm,
                                             **vectors(rng))
    shapes = [poly.check_cluster(ctx, g, "cluster") for g in got]
    want = set()
    for c in parents:
        for x, y in c:
            for dx, dy in oracle.NBR:
                if (x + dx, y + dy) not in c:
                    want.add(poly.canon(c + [(x + dx, y + dy)], symm))
    keys = [poly.canon(s, symm) for s in shapes]
    ctx.check(len(keys) == len(set(keys)), f"growth gives each shape once: {parents}")
    ctx.check(set(keys) == want, f"growth by one site gives every shape: {parents}: {len(keys)} instead of {len(want)}")
    for s, m in zip(shapes, mult):
        ctx.check(m == poly.multiplicity(s, symm), f"multiplicity is the number of orientations: {s}: {m}")
    ctx.check(len(mult) == len(got), "each cluster has a multiplicity")
    ctx.seen(symm, sorted(keys))
    ctx.describe(sites=n, parents=count, symmetry=symm, found=len(keys))


def orbit(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 10))
    r = rng.random()
    if r < 0.4:  # symmetric shapes: blocks, crosses, rings, lines
        c = gen.pick(rng, [[(i, 0) for i in range(n)], [(i, i2) for i in range(3) for i2 in range(3)], [(0, 0), (1, 0), (-1, 0), (0, 1), (0, -1)],
                           [(i, j) for i in range(3) for j in range(3) if (i, j) != (1, 1)], [(0, 0), (1, 0), (1, 1), (2, 1)],
                           [(i, j) for i in range(2) for j in range(3)], [(0, 0), (1, 0), (0, 1)], [(0, 0), (0, 1), (0, 2), (1, 1)],
                           [(0, 0), (1, 0), (1, 1), (2, 1), (2, 2)], [(0, 0), (0, 1), (1, 1), (2, 1), (2, 2)]])
        ox, oy = (int(v) for v in rng.integers(-4, 5, 2))
        c = [(x + ox, y + oy) for x, y in c]
    else:
        c = gen.polyomino(rng, n, int(rng.integers(-4, 5)), int(rng.integers(-4, 5)))
    g = poly.make(c)
    partners = nlce.get_clusters_rel_by_symmetry(g)
    shapes = [oracle.norm_shape(poly.check_cluster(ctx, p, "symmetry partner")) for p in partners]
    ctx.check(len(shapes) == len(set(shapes)), f"symmetry orbit has no repetition: {c}")
    ctx.check(set(shapes) == oracle.d4_images(c), f"symmetry orbit is complete: {c}: {len(shapes)} instead of {len(oracle.d4_images(c))}")
    ctx.check(oracle.norm_shape(c) in shapes, "symmetry orbit contains the cluster")
    ctx.seen(oracle.norm_shape(c))
    ctx.describe(cluster=c, orbit=len(shapes))


SCENARIOS = {"chain": (chain, 60, 400), "enumerate_all": (enumerate_all, 28, 48), "growth": (growth, 400, 4000), "orbit": (orbit, 500, 6000)}
