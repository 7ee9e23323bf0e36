"""C19: subclusters and how often they are contained in a cluster."""
from collections import Counter

import numpy as np
from vmon import gen, oracle, poly
from vmon.core import dense

nlce = gen.M["ed_nlce"]
RULE = ("random clusters (with holes, disconnected, displaced, relabelled) and the full cluster lists of the infinite lattice: the lists of "
        "subclusters, their inclusion relations and their embedding counts are compared with an independent enumeration of connected subsets. "
        "Distinct by shape and symmetry reduction.")
ASSUMPTIONS = ["open clusters of the square lattice with nearest neighbour bonds", "up to 9 sites for a parent cluster, orders up to 7 for the "
               "infinite lattice"]
REQUIRED = ["oracle:every connected subcluster", "oracle:inclusion matrix", "oracle:inclusion lists", "oracle:each distinct subcluster",
            "oracle:embedding count", "oracle:embedding counts of all lattice clusters", "oracle:change of cluster basis",
            "oracle:reduction multiplicity", "oracle:reduction matrix", "symmetry:on", "symmetry:off", "parent:hole", "parent:fractional coordinates", "parent:disconnected"]


def taps():
    return [(nlce, n, None) for n in ("get_subclusters_next_order", "get_all_subclusters", "reduce_clusters_by_geometry",
                                      "get_reduced_subclusters", "get_all_clusters_with_subclusters", "map_between_cluster_bases")]


def parent(ctx, nmax):
    rng = ctx.rng
    r = rng.random()
    n = int(rng.integers(1, nmax + 1))
    if r < 0.15:
        ctx.event("parent:hole")
        c = [(i, j) for i in range(3) for j in range(3) if (i, j) != (1, 1)]
        if nmax < 8 or rng.random() < 0.3:
            c = [p for p in c if p != (0, 0)]
    elif r < 0.3 and n >= 2:
        ctx.event("parent:disconnected")
        a = int(rng.integers(1, n))
        c = gen.polyomino(rng, a) + [(x + 20, y) for x, y in gen.polyomino(rng, n - a)]
    elif r < 0.45:
        a = int(rng.integers(1, 4))
        b = int(rng.integers(1, max(2, nmax // a + 1)))
        c = [(i, j) for i in range(a) for j in range(min(b, 6))]
    else:
        c = gen.polyomino(rng, n)
    ox, oy = (int(v) for v in rng.integers(-3, 4, 2))
    c = [(x + ox, y + oy) for x, y in c]
    # lattice sites need not have integer coordinates
    off = (0, 0) if rng.random() < 0.6 else tuple(float(v) for v in rng.choice([0.5, -0.5, 0.25, -1.75, 7.5, 0.0], 2))
    ctx.event("parent:fractional coordinates" if any(off) else "parent:integer coordinates")
    g = poly.make(c, sort=rng.random() < 0.7, dtype=gen.pick(rng, [int, float]), off=off)
    return g, poly.cells(g, off), off


def listing(ctx):
    rng = ctx.rng
    g, c, off = parent(ctx, 8 if ctx.tier == "quick" else 9)
    levels = [s for s in poly.subsets(c) if s]
    lists, idx, mat = nlce.get_all_subclusters(g)
    flat = [s for l in lists for s in l]
    ctx.check(len(lists) == len(levels), f"subclusters of each size: {c}: {len(lists)} instead of {len(levels)}")
    sets = []
    for k, (got, want) in enumerate(zip(lists, levels)):
        sg = [frozenset(poly.check_cluster(ctx, s, "subcluster", off)) for s in got]
        ctx.check(len(sg) == len(set(sg)), f"every subcluster appears once: {c}")
        ctx.check(set(sg) == want, f"every connected subcluster appears: {c}: {k + 1} sites: {len(sg)} instead of {len(want)}")
        sets += sg
    n = len(sets)
    incl = np.array([[b < a for b in sets] for a in sets]).astype(float).reshape(n, n)
    ctx.close(mat, incl, f"inclusion matrix: {c}")
    ctx.check(len(idx) == n and all(sorted(i) == np.nonzero(incl[k])[0].tolist() for k, i in enumerate(idx)), f"inclusion lists: {c}")

    symm = bool(rng.integers(2))
    ctx.event("symmetry:" + ("on" if symm else "off"))
    dist, mult, red = nlce.reduce_clusters_by_geometry(lists, use_symmetry=symm)
    red = dense(red)
    j = 0
    start = 0
    for k, (ds, ms) in enumerate(zip(dist, mult)):
        keys = [poly.canon(poly.cells(d, off), symm) for d in ds]
        cnt = Counter(poly.canon(s, symm) for s in levels[k])
        ctx.check(len(keys) == len(set(keys)) and set(keys) == set(cnt), f"reduction keeps one cluster of each shape: {c}")
        ctx.check([cnt[q] for q in keys] == list(ms), f"reduction multiplicity counts the clusters of a shape: {c}")
        for q in keys:
            row = [1.0 if poly.canon(s, symm) == q else 0.0 for s in sets]
            ctx.check(red.shape[1] == n and np.array_equal(red[j], row), f"reduction matrix assigns each cluster to its shape: {c}")
            j += 1
        start += len(levels[k])
    ctx.check(red.shape == (j, n), "reduction matrix has one row per shape")
    ctx.seen(oracle.norm_shape(c), symm)
    ctx.describe(cluster=c, subclusters=n, symmetry=symm)


def count_matrix(clusters, symm):
    """number of proper connected subsets of cluster i with the shape of cluster j"""
    keys = [poly.canon(c, symm) for c in clusters]
    pos = {k: i for i, k in enumerate(keys)}
    m = np.zeros((len(clusters), len(clusters)))
    for i, c in enumerate(clusters):
        for k, lev in enumerate(poly.subsets(c)):
            if k + 1 < len(c):
                for s in lev:
                    m[i, pos[poly.canon(s, symm)]] += 1
    return m, keys


def reduced(ctx):
    rng = ctx.rng
    g, c, off = parent(ctx, 8 if ctx.tier == "quick" else 9)
    symm = bool(rng.integers(2))
    ctx.event("symmetry:" + ("on" if symm else "off"))
    clusters, mat, edges = nlce.get_reduced_subclusters(g, use_symmetry=symm)
    shapes = [poly.check_cluster(ctx, s, "subcluster", off) for s in clusters]
    want_keys = [Counter(poly.canon(s, symm) for s in lev) for lev in poly.subsets(c) if lev]
    ctx.check(list(edges) == [0] + np.cumsum([len(w) for w in want_keys]).tolist(), f"order boundaries: {c}: {edges}")
    want, keys = count_matrix(shapes, symm)
    for k, w in enumerate(want_keys):
        blk = keys[edges[k]:edges[k + 1]]
        ctx.check(len(blk) == len(set(blk)) and set(blk) == set(w), f"each distinct subcluster is listed once: {c}")
    ctx.close(mat, want, f"embedding count of each subcluster in each other: {c}")
    if len(want_keys) == len(c):
        ctx.close(dense(mat)[-1], [w[k] for w in want_keys[:-1] for k in keys if k in w] + [0], f"embedding count in the parent: {c}")
        # every site, and every bond, of the parent is counted once
        bonds = sum(abs(a[0] - b[0]) + abs(a[1] - b[1]) == 1 for a in c for b in c) // 2
        if len(c) > 1:
            ctx.check(dense(mat)[-1, edges[0]:edges[1]].sum() == len(c), "embedding count of single sites")
        if len(c) > 2:
            ctx.check(dense(mat)[-1, edges[1]:edges[2]].sum() == bonds, "embedding count of bonds")
    ctx.seen(oracle.norm_shape(c), symm)
    ctx.describe(cluster=c, distinct=len(clusters), symmetry=symm)


def lattice(ctx):
    if ctx.index >= (12 if ctx.tier == "quick" else 14):  # one dimension
        order = 1 + ctx.index % 8
        v = gen.pick(ctx.rng, [np.array([1, 0]), np.array([0, 1]), np.array([-1, 0])])
        clusters, mult, mat, inds = nlce.get_all_clusters_with_subclusters(order, lv1=v, lv2=v, use_symmetry=False)
        shapes = [poly.check_cluster(ctx, s, "cluster") for s in clusters]
        ctx.check([oracle.norm_shape(s) for s in shapes] == [oracle.norm_shape([(i * abs(v[0]), i * abs(v[1])) for i in range(k + 1)])
                                                             for k in range(order)], "clusters of a chain are segments")
        ctx.close(mat, [[i - j + 1 if j < i else 0 for j in range(order)] for i in range(order)], "embedding counts of the segments of a chain")
        ctx.close(np.ravel(mult), np.ones(order), "multiplicity of the segments of a chain")
        ctx.seen("chain", order, v)
        ctx.describe(order=order, chain=v)
        return
    symm = bool(ctx.index % 2)
    top = 6 if ctx.tier == "quick" else 7
    order = 1 + (ctx.index // 2) % (top if symm else top - 1)
    ctx.event("symmetry:" + ("on" if symm else "off"))
    clusters, mult, mat, inds = nlce.get_all_clusters_with_subclusters(order, use_symmetry=symm)
    shapes = [poly.check_cluster(ctx, s, "cluster") for s in clusters]
    want, keys = count_matrix(shapes, symm)
    ctx.check(len(keys) == len(set(keys)), "each cluster shape appears once")
    ctx.check([len(s) for s in shapes] == [k + 1 for k in range(order) for _ in range(inds[k], inds[k + 1])], "order boundaries of the list")
    ctx.close(mat, want, f"embedding counts of all lattice clusters: order {order} symmetry {symm}")
    ctx.close(np.ravel(mult), [poly.multiplicity(s, symm) for s in shapes], "multiplicity of lattice clusters")
    ctx.seen(order, symm)
    ctx.describe(order=order, symmetry=symm, clusters=len(clusters))


def basis_change(ctx):
    rng = ctx.rng
    symm = bool(rng.integers(2))
    ctx.event("symmetry:" + ("on" if symm else "off"))
    order = int(rng.integers(1, 6 if symm else 5))
    big, _, inds = nlce.get_all_clusters(order, use_symmetry=symm)
    n = int(rng.integers(1, order + 1))
    c = gen.polyomino(rng, n)
    small, _, sinds = nlce.get_reduced_subclusters(poly.make(c), use_symmetry=symm)
    got = nlce.map_between_cluster_bases(big, inds, small, sinds, use_symmetry=symm)
    want = np.array([[1.0 if poly.canon(poly.cells(a), symm) == poly.canon(poly.cells(b), symm) else 0.0 for b in big] for a in small])
    ctx.check(np.all(want.sum(1) == 1), "reference change of basis")
    ctx.close(got, want, f"change of cluster basis identifies equal shapes: {c}")
    ctx.seen(symm, order, oracle.norm_shape(c))
    ctx.describe(order=order, cluster=c, symmetry=symm)


def next_order(ctx):
    rng = ctx.rng
    g, c, off = parent(ctx, 8)
    levels = poly.subsets(c)
    k = int(rng.integers(0, len(c)))
    if k == 0:
        got, cont = nlce.get_subclusters_next_order(g)
        have, want = [], levels[0]
    else:
        have = sorted(levels[k - 1], key=sorted)
        if rng.random() < 0.6 and have:  # only some of the smaller clusters
            have = [have[i] for i in rng.permutation(len(have))[:int(rng.integers(1, len(have) + 1))]]
        got, cont = nlce.get_subclusters_next_order(g, [poly.make(sorted(h), off=off) for h in have])
        want = {s for s in levels[k] if any(h < s for h in have)}
    sg = [frozenset(poly.check_cluster(ctx, s, "subcluster", off)) for s in got]
    ctx.check(len(sg) == len(set(sg)) and set(sg) == want, f"next larger subclusters: {c}: {len(sg)} instead of {len(want)}")
    ctx.check(len(cont) == len(sg), "contained clusters are given for each")
    for s, q in zip(sg, cont):
        ctx.check(set(q) == {i for i, h in enumerate(have) if h < s}, f"contained clusters of next larger subclusters: {c}")
    ctx.seen(oracle.norm_shape(c), k, len(have))
    ctx.describe(cluster=c, size=k + 1, found=len(sg))


SCENARIOS = {"listing": (listing, 250, 3000), "reduced": (reduced, 250, 3000), "lattice": (lattice, 20, 28),
             "basis_change": (basis_change, 80, 600), "next_order": (next_order, 250, 1500)}
