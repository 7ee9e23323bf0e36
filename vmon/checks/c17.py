"""C17: coordinate transformations and how they permute sites."""
import numpy as np
from vmon import gen, oracle, symm

sym = gen.sym
Geometry = gen.Geometry
RULE = ("rotations, reflections, inversions and translations with random parameters applied to random points (compared with "
        "complex arithmetic), and point group and translation operations of random clusters and (twisted, skewed, tilted) tori "
        "applied to sites: image sites, cycles and orders are compared with an independent search modulo the periodicity; "
        "operations which are not symmetries have to be rejected. Distinct by operation and geometry.")
ASSUMPTIONS = ["coordinates of order 10", "order of the permutation not larger than the number of sites (documented limit of the cycle search)"]
REQUIRED = ["oracle:rotation", "oracle:reflection", "oracle:inversion", "oracle:translation", "oracle:image of each site", "oracle:cycles",
            "oracle:number of transformations", "oracle:operation which is not a symmetry", "geometry:open", "geometry:torus",
            "geometry:ring"]


def taps():
    return [(sym, n, None) for n in ("getRotFn", "getReflFn", "getInversionFn", "getTranslFn", "getTransformedSites", "findSiteCycles")]


def coordinates(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 6))
    x, y = rng.normal(size=n) * 4, rng.normal(size=n) * 4
    z = x + 1j * y
    c = 0 if rng.random() < 0.3 else complex(*(rng.normal(size=2) * 2))
    ca = () if c == 0 else (c.real, c.imag)
    k = int(gen.pick(rng, [1, 2, 3, 4, 5, 6, 7, 12]))
    r = sym.getRotFn(k, *ca)(x, y)
    ctx.check(np.shape(r) == (2, n), "shape of transformed coordinates")
    ctx.close(r[0] + 1j * r[1], c + np.exp(2j * np.pi / k) * (z - c), "rotation by a k-th of a turn")
    w = x, y
    for _ in range(k):
        w = sym.getRotFn(k, *ca)(np.asarray(w[0]), np.asarray(w[1]))
    ctx.close(w[0] + 1j * w[1], z, "rotation has order k", tol=1e-8)
    v = gen.pick(rng, [np.array([0, 1]), np.array([1, 0]), np.array([1, 1]), np.array([-1, 1]), np.array([[0.], [-2.]]), rng.normal(size=2),
                       rng.normal(size=(2, 1)), [3, 0], [-2, -1]])
    u = complex(*np.ravel(v))
    u = u / abs(u)
    r = sym.getReflFn(v, *ca)(x, y)
    ctx.close(r[0] + 1j * r[1], c + u ** 2 * np.conj(z - c), "reflection about an axis")
    r2 = sym.getReflFn(v, *ca)(r[0], r[1])
    ctx.close(r2[0] + 1j * r2[1], z, "reflection squares to one")
    ctx.raises(lambda: sym.getReflFn(np.zeros(2)), "reflection about nothing is rejected")
    r = sym.getInversionFn(*ca)(x, y)
    ctx.close(r[0] + 1j * r[1], 2 * c - z, "inversion through a point")
    t = gen.pick(rng, [rng.normal(size=2), np.array([[1], [0]]), [0, 2], rng.normal(size=(1, 2))])
    r = sym.getTranslFn(t)(x, y)
    ctx.close(r[0] + 1j * r[1], z + complex(*np.ravel(np.asarray(t, float))), "translation by a vector")
    ctx.seen(x, k, c, np.ravel(v))
    ctx.describe(points=n, fold=k, center=c, axis=np.ravel(v))


def geometry(ctx, rng):
    """geometry, list of candidate operations (name, exact_diag function, independent function)"""
    r = rng.random()
    ops = []

    def rot(k, cx, cy):
        e = np.exp(2j * np.pi / k)

        def f(x, y):
            z = complex(cx, cy) + e * ((x + 1j * y) - complex(cx, cy))
            return z.real, z.imag
        ops.append((f"rotation {k}", sym.getRotFn(k, cx, cy), f))

    def ref(v, cx, cy):
        u = complex(*v) / abs(complex(*v))

        def f(x, y):
            z = complex(cx, cy) + u ** 2 * np.conj((x + 1j * y) - complex(cx, cy))
            return z.real, z.imag
        ops.append(("reflection", sym.getReflFn(np.array(v), cx, cy), f))

    def inv(cx, cy):
        ops.append(("inversion", sym.getInversionFn(cx, cy), lambda x, y: (2 * cx - x, 2 * cy - y)))

    def tr(v):
        v = np.ravel(v)
        ops.append(("translation", sym.getTranslFn(gen.pick(rng, [v, v.reshape(2, 1)])), lambda x, y: (x + v[0], y + v[1])))

    if r < 0.4:
        ctx.event("geometry:open")
        g, d = gen.geometry(rng, 12, nmin=1, kinds=["cluster", "polygon", "square", "hexagonal"], twist=False)
        if g.lattice is not None:
            g = Geometry.createNonPeriodicGeometry(np.asarray(g.xlocs) + float(rng.integers(-2, 3)), g.ylocs, g.adjacency_mat)
    elif r < 0.55:
        ctx.event("geometry:ring")
        g, v = symm.periodic_1d(rng, 12)
        d = dict(kind="ring", n=g.nsites)
        tr(int(rng.integers(-3, 8)) * np.array(v, float))
    else:
        ctx.event("geometry:torus")
        g, v1, v2, kind = symm.torus(rng, 16)
        d = dict(kind=kind, n=g.nsites)
        a, b = rng.integers(-3, 4, 2)
        tr(a * v1 + b * v2)
        tr(gen.pick(rng, [v1, v2]))
    if rng.random() < 0.4:
        g.permute_sites(rng.permutation(g.nsites).tolist())
        d["relabelled"] = True
    if rng.random() < 0.25:  # nearly, but not quite, symmetric
        i, e = int(rng.integers(g.nsites)), float(gen.pick(rng, [0.1, 0.03, 0.01, 1e-3, 1e-4])) * gen.pick(rng, [1, -1])
        x, y = np.array(g.xlocs, float), np.array(g.ylocs, float)
        (x if rng.random() < 0.5 else y)[i] += e
        if g.lattice is None:
            g = Geometry.createNonPeriodicGeometry(x, y, np.array(g.adjacency_mat))
            d = dict(d, displaced=(i, e))
            ctx.event("geometry:displaced site")
    cx, cy = (float(v) for v in g.get_center_of_mass())
    if rng.random() < 0.4:
        i = int(rng.integers(g.nsites))
        cx, cy = float(g.xlocs[i]), float(g.ylocs[i])
    rot(int(gen.pick(rng, [2, 3, 4, 5, 6, g.nsites])), cx, cy)
    ref(gen.pick(rng, [(0, 1), (1, 0), (1, 1), (1, -1), (np.sqrt(3), 1), (0.5, np.sqrt(3) / 2)]), cx, cy)
    inv(cx, cy)
    if g.lattice is None:
        tr(rng.integers(-1, 2, 2).astype(float))
    return g, ops, d


def sites(ctx):
    rng = ctx.rng
    g, ops, d = geometry(ctx, rng)
    n = g.nsites
    for name, fn, ref in ops:
        perm = symm.site_perm(g, ref)
        if perm is None:
            ctx.raises(lambda: sym.findSiteCycles(fn, g), "operation which is not a symmetry is rejected: " + name)
            continue
        s0, s1 = sym.getTransformedSites(fn, list(range(n)) if rng.random() < 0.5 else np.arange(n), g)
        ctx.check(list(s0) == list(range(n)), "initial sites are returned")
        ctx.check(tuple(int(v) for v in s1) == perm, f"image of each site: {name}: {list(s1)} instead of {list(perm)}")
        k = symm.order(perm)
        if k > n:
            continue
        cyc, m = sym.findSiteCycles(fn, g)
        ctx.check(sorted(v for c in cyc for v in c) == list(range(n)), f"cycles contain each site once: {name}")
        ctx.check(all(perm[c[j]] == c[(j + 1) % len(c)] for c in cyc for j in range(len(c))), f"cycles follow the operation: {name}")
        ctx.check(int(m) == k and m == int(m), f"number of transformations to close is the order: {name}: {m} instead of {k}")
        ctx.check(all(isinstance(v, (int, np.integer)) for c in cyc for v in c), "cycles contain site indices")
        ctx.seen(d, name, perm)
    ctx.describe(geom=d, operations=[o[0] for o in ops])


SCENARIOS = {"coordinates": (coordinates, 120, 1500), "sites": (sites, 200, 3000)}
