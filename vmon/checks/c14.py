"""C14: construction of geometries: sites, separations, neighbours, phases."""
import itertools

import numpy as np
from vmon import gen, oracle

geo = gen.M["ed_geometry"]
Geometry, Lattice = gen.Geometry, gen.Lattice
RULE = ("random lattices (primitive vectors, bases, commensurate periodicity vectors, rotations, open and periodic directions, "
        "twists), all named lattices, polygons and clusters; the sites are counted and compared modulo the periodicity, "
        "separations are compared with a search over periodic images, adjacency and phases are recomputed, and invalid "
        "descriptions must be rejected. Distinct by description.")
ASSUMPTIONS = ["periodicity vectors at 45 to 135 degrees with a ratio of lengths of at most 2", "coordinates of order 10",
               "clusters without a lattice and without an adjacency matrix: integer coordinates (with a common offset)"]
REQUIRED = ["oracle:number of sites", "oracle:sites are distinct", "oracle:sites are lattice", "oracle:separations are antisymmetric",
            "oracle:separation is the shortest image", "oracle:adjacency", "oracle:phase matrix", "oracle:invalid", "named:hexagonal",
            "named:triangle", "named:tilted", "named:square", "oracle:flux", "random lattice"]


def taps():
    return [(Geometry, n, None) for n in ("__init__", "create_lattice_geom", "createNonPeriodicGeometry", "createRegularPolygonGeometry",
                                          "createSquareGeometry", "createTiltedSquareGeometry", "createTriangleGeometry",
                                          "createHexagonalGeometry")] + \
           [(Lattice, n, None) for n in ("get_unique_sites", "get_reduced_distance", "get_phase_mat")]


def images(p1, p2, o1, o2):
    r1 = [0] if o1 else range(-3, 4)
    r2 = [0] if o2 else range(-3, 4)
    return np.array([a * p1 + b * p2 for a in r1 for b in r2])


def recip(p1, p2, o1, o2):
    p1 = np.zeros(2) if o1 else p1
    p2 = np.zeros(2) if o2 else p2
    if o1 and o2:
        return np.zeros(2), np.zeros(2)
    if o1:
        return np.zeros(2), p2 / (p2 @ p2)
    if o2:
        return p1 / (p1 @ p1), np.zeros(2)
    inv = np.linalg.inv(np.array([p1, p2]))
    return inv[:, 0], inv[:, 1]


def verify(ctx, g, l1, l2, basis, p1, p2, o1, o2, f1, f2):
    l1, l2, p1, p2 = (np.ravel(np.asarray(v, float)) for v in (l1, l2, p1, p2))
    n = int(round(abs((p1[0] * p2[1] - p1[1] * p2[0]) / (l1[0] * l2[1] - l1[1] * l2[0])))) * len(basis)
    r = np.array([g.xlocs, g.ylocs], float).T
    ctx.check(g.nsites == n and r.shape == (n, 2), f"number of sites: {g.nsites} instead of {n}")
    frac = np.linalg.solve(np.array([p1, p2]).T, r.T).T
    ctx.check(np.all(frac > -1e-8) and np.all(frac < 1 - 1e-8), "sites are in the unit cell")
    lf = [np.linalg.solve(np.array([l1, l2]).T, (r - np.ravel(b)).T).T for b in basis]
    ok = np.min([np.max(np.abs(x - np.round(x)), 1) for x in lf], 0)
    ctx.check(np.all(ok < 1e-8), "sites are lattice points plus basis vectors")
    d = frac[:, None] - frac[None]
    d = d - np.round(d)
    same = np.max(np.abs(d), -1) < 1e-7
    ctx.check(np.array_equal(same, np.eye(n, dtype=bool)), "sites are distinct")
    separations(ctx, g, images(p1, p2, o1, o2))
    if len(basis) == 1:
        dx, dy, k1, k2 = g.lattice.get_reduced_distance(g.xlocs, g.ylocs)
        ctx.close(np.array([dx, dy]), np.array([g.xdist_mat, g.ydist_mat]), "separations of the lattice")
        ctx.close([k1 * l1[0] + k2 * l2[0], k1 * l1[1] + k2 * l2[1]], [dx, dy], "separations in units of the lattice vectors", tol=1e-7)
    b1, b2 = recip(p1, p2, o1, o2)
    ph = np.exp(1j * f1 * (g.xdist_mat * b1[0] + g.ydist_mat * b1[1]) + 1j * f2 * (g.xdist_mat * b2[0] + g.ydist_mat * b2[1]))
    ctx.close(g.phase_mat, ph, "phase matrix", tol=1e-8)


def separations(ctx, g, im):
    n = g.nsites
    x, y = np.asarray(g.xlocs, float), np.asarray(g.ylocs, float)
    dx, dy = np.asarray(g.xdist_mat), np.asarray(g.ydist_mat)
    ctx.close(dx, -dx.T, "separations are antisymmetric")
    ctx.close(dy, -dy.T, "separations are antisymmetric")
    for i in range(n):
        for j in range(n):
            c = np.array([x[i] - x[j], y[i] - y[j]]) + im
            ctx.check(np.min(np.linalg.norm(c - [dx[i, j], dy[i, j]], axis=1)) < 1e-7, "separation differs by a period")
            m = np.min(np.linalg.norm(c, axis=1))
            ctx.check(abs(np.hypot(dx[i, j], dy[i, j]) - m) < 1e-7, "separation is the shortest image")
            ctx.check(float(g.adjacency_mat[i, j]) == float(abs(m - 1) < 1e-7), f"adjacency of sites {i}, {j} at distance {m:.6g}")


def angle_ok(p1, p2):
    n1, n2 = np.linalg.norm(p1), np.linalg.norm(p2)
    return abs(p1 @ p2) <= np.cos(np.pi / 4) * n1 * n2 + 1e-9 and 0.5 <= n1 / n2 <= 2


def random_lattice(ctx):
    rng = ctx.rng
    while True:
        if rng.random() < 0.5:
            l1, l2 = gen.pick(rng, [((1, 0), (0, 1)), ((1, 0), (0.5, np.sqrt(3) / 2)), ((1.5, np.sqrt(3) / 2), (1.5, -np.sqrt(3) / 2)),
                                    ((1, 1), (1, -1)), ((2, 0), (0, 1)), ((1, 0), (-0.5, np.sqrt(3) / 2))])
            l1, l2 = np.array(l1, float), np.array(l2, float)
        else:
            l1, l2 = rng.normal(size=2), rng.normal(size=2)
            if abs(l1[0] * l2[1] - l1[1] * l2[0]) < 0.3:
                continue
        a = rng.integers(-4, 5, 4)
        det = abs(a[0] * a[3] - a[1] * a[2])
        p1, p2 = a[0] * l1 + a[1] * l2, a[2] * l1 + a[3] * l2
        if det == 0 or det > 12 or not angle_ok(p1, p2):
            continue
        break
    basis = [np.zeros(2)]
    if rng.random() < 0.5:
        basis = [gen.pick(rng, [np.zeros(2), np.array([0.5, 0.25]), -l1])]
        while len(basis) < int(rng.integers(1, 4)):
            f = rng.uniform(0.1, 0.9, 2)
            basis.append(f[0] * l1 + f[1] * l2 + basis[0])
        fr = np.array([np.linalg.solve(np.array([l1, l2]).T, b) for b in basis])
        dd = fr[:, None] - fr[None]
        dd = np.max(np.abs(dd - np.round(dd)), -1) + np.eye(len(basis))
        if np.min(dd) < 0.02:
            basis = [np.zeros(2)]
    if rng.random() < 0.3:
        th = rng.uniform(0, 2 * np.pi)
        R = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
        l1, l2, p1, p2 = (R @ v for v in (l1, l2, p1, p2))
        basis = [R @ b for b in basis]
    o1, o2 = bool(rng.integers(2)), bool(rng.integers(2))
    f1, f2 = gen.phase(rng), gen.phase(rng)
    col = (lambda v: np.asarray(v).reshape(2, 1)) if rng.random() < 0.6 else (lambda v: np.asarray(v))
    g = Geometry.create_lattice_geom(col(l1), col(l2), [col(b) for b in basis], col(p1), col(p2), f1, f2, bc1_open=o1, bc2_open=o2)
    ctx.describe(vectors=(l1, l2), basis=basis, periods=(p1, p2), open=(o1, o2), phases=(f1, f2), coefficients=a)
    verify(ctx, g, l1, l2, basis, p1, p2, o1, o2, f1, f2)
    ctx.event("random lattice")
    ctx.seen(l1, l2, p1, p2, o1, o2, f1, f2)


def strips(ctx):
    """lattices with fewer than two periods, built directly"""
    rng = ctx.rng
    l1, l2 = gen.pick(rng, [((1, 0), (0, 1)), ((1, 0), (0.5, np.sqrt(3) / 2)), ((0, 1), (1, 0)), ((1.5, np.sqrt(3) / 2), (1.5, -np.sqrt(3) / 2))])
    l1, l2 = np.array(l1, float), np.array(l2, float)
    basis = [np.zeros(2)] if rng.random() < 0.6 else [np.zeros(2), 0.3 * l1 + 0.4 * l2]
    k = int(rng.integers(2, 7)) * int(gen.pick(rng, [1, 1, -1]))
    which = gen.pick(rng, ["first along 1", "first along 2", "second along 1", "second along 2", "none"])
    v = k * (l1 if which.endswith("1") else l2)
    z = np.zeros(2)
    p1, p2 = (z, z) if which == "none" else ((v, z) if which.startswith("first") else (z, v))
    f1, f2 = gen.phase(rng), gen.phase(rng)
    col = lambda q: np.reshape(q, (2, 1))
    lat = Lattice(col(l1), col(l2), [col(b) for b in basis], col(p1), col(p2), f1, f2)
    n, x, y = lat.get_unique_sites()
    cells = 1 if which == "none" else abs(k)
    ctx.check(n == cells * len(basis) == len(x) == len(y), f"number of sites of a strip ({which}): {n} instead of {cells * len(basis)}")
    step = l1 if which.endswith("1") else l2
    want = [b + s * step for s in range(cells) for b in basis]
    r = np.array([x, y]).T
    for w in want:
        d = r - w
        if which != "none":
            c = np.round(d @ v / (v @ v))
            d = d - c[:, None] * v
        ctx.check(np.sum(np.linalg.norm(d, axis=1) < 1e-7) == 1, f"sites of a strip ({which})")
    if which != "none":
        fr = r @ v / (v @ v)
        ctx.check(np.all(fr > -1e-8) and np.all(fr < 1 - 1e-8), "sites of a strip are in the unit cell")
    g = Geometry(x, y, lattice=lat)
    im = np.array([s * v for s in range(-3, 4)]) if which != "none" else np.zeros((1, 2))
    separations(ctx, g, im)
    b = np.zeros(2) if which == "none" else v / (v @ v)
    f = f1 if which.startswith("first") else f2
    ctx.close(g.phase_mat, np.exp(1j * f * (g.xdist_mat * b[0] + g.ydist_mat * b[1])), "phase matrix of a strip", tol=1e-8)
    ctx.event("strip:" + which)
    ctx.seen(l1, l2, k, which, f1, f2)
    ctx.describe(vectors=(l1, l2), periods=(p1, p2), basis=basis)


def named(ctx):
    rng = ctx.rng
    kind = gen.pick(rng, ["square", "square", "tilted", "triangle", "hexagonal"])
    o1, o2 = bool(rng.integers(2)), bool(rng.integers(2))
    f1, f2 = gen.phase(rng), gen.phase(rng)
    s3 = np.sqrt(3)
    while True:
        a, b = int(rng.integers(1, 7)), int(rng.integers(1, 7))
        if kind == "tilted":
            b = b - 1
        if kind == "hexagonal":
            a, b = min(a, 3), min(b, 4)
        if not 0.5 <= a / max(b, 1) <= 2 and kind in ("triangle",) and not (o1 or o2):
            continue
        if a * b <= 24:
            break
    if kind != "tilted":
        o1, o2 = o1 or a == 1, o2 or b == 1
    elif a * a + b * b == 1:
        o1 = o2 = True
    args = (a, b, f1, f2)
    kw = dict(bc1_open=o1, bc2_open=o2)
    if rng.random() < 0.3 and o1 and o2:
        kw = {}
    if kind == "square":
        g = Geometry.createSquareGeometry(*args, **kw)
        v = ((1, 0), (0, 1), [(0, 0)], (a, 0), (0, b))
        ctx.check(sorted(zip(np.round(g.xlocs, 9), np.round(g.ylocs, 9))) == sorted(itertools.product(range(a), range(b))),
                  "sites of the square cluster")
        if o1 and o2:
            ctx.check(np.sum(g.adjacency_mat) == 2 * (a * (b - 1) + b * (a - 1)), "adjacency: number of bonds")
    elif kind == "tilted":
        g = Geometry.createTiltedSquareGeometry(*args, **kw)
        v = ((1, 0), (0, 1), [(0, 0)], (a, b), (-b, a))
        if not o1 and not o2 and a * a + b * b > 4:
            ctx.check(np.all(np.sum(g.adjacency_mat, 1) == 4), "adjacency: coordination of the tilted square torus")
    elif kind == "triangle":
        g = Geometry.createTriangleGeometry(*args, **kw)
        v = ((1, 0), (0.5, s3 / 2), [(0, 0)], (a, 0), (b / 2, b * s3 / 2))
        if not o1 and not o2 and a > 2 and b > 2:
            ctx.check(np.all(np.sum(g.adjacency_mat, 1) == 6), "adjacency: coordination of the triangular torus")
    else:
        g = Geometry.createHexagonalGeometry(*args, **kw)
        v = ((1.5, s3 / 2), (1.5, -s3 / 2), [(-1, 0), (-0.5, s3 / 2)], (3 * a, 0), (0, b * s3))
        if not o1 and not o2:
            ctx.check(np.all(np.sum(g.adjacency_mat, 1) == (3 if b > 1 else 2)), "adjacency: coordination of the honeycomb torus")
    ctx.describe(kind=kind, dims=(a, b), open=(o1, o2), phases=(f1, f2))
    ctx.event("named:" + kind)
    verify(ctx, g, *v, o1, o2, f1, f2)
    # flux through the torus: carry a particle around each period with shortest hops
    if kind == "square":
        for axis, (m, o, f) in enumerate(((a, o1, f1), (b, o2, f2))):
            if o or m < 3:
                continue
            path = [np.array([k, 0] if axis == 0 else [0, k]) for k in range(m)]
            idx = [int(np.argmin(np.abs(g.xlocs - p[0]) + np.abs(g.ylocs - p[1]))) for p in path]
            tot = np.prod([g.phase_mat[idx[(k + 1) % m], idx[k]] for k in range(m)])
            ctx.close(tot, np.exp(1j * f), "flux through a period is the twist angle", tol=1e-8, shape=False)
        # plaquettes carry no flux
        nb = np.asarray(g.adjacency_mat)
        if a > 2 and b > 2 or (o1 or a > 2) and (o2 or b > 2):
            for i in range(g.nsites):
                for j in np.nonzero(nb[i])[0]:
                    for k in np.nonzero(nb[i])[0]:
                        s = np.array([g.xdist_mat[j, i] * g.xdist_mat[k, i] + g.ydist_mat[j, i] * g.ydist_mat[k, i]])
                        if abs(s[0]) > 1e-6:
                            continue
                        for q in np.nonzero(nb[j] * nb[k])[0]:
                            if q == i or abs(g.xdist_mat[q, j] - g.xdist_mat[k, i]) + abs(g.ydist_mat[q, j] - g.ydist_mat[k, i]) > 1e-6:
                                continue
                            ph = g.phase_mat[i, j] * g.phase_mat[j, q] * g.phase_mat[q, k] * g.phase_mat[k, i]
                            ctx.close(ph, 1.0, "flux through a plaquette is zero", tol=1e-8, shape=False)
    ctx.seen(kind, a, b, o1, o2, f1, f2)


def clusters(ctx):
    rng = ctx.rng
    r = rng.random()
    if r < 0.35:
        n = int(rng.integers(3, 13))
        if rng.random() < 0.3:
            adj = gen.rand_adj(rng, n)
            g = Geometry.createRegularPolygonGeometry(n, adjacency_mat=adj)
        else:
            g = Geometry.createRegularPolygonGeometry(n)
            adj = np.array([[1.0 if (i - j) % n in (1, n - 1) else 0.0 for j in range(n)] for i in range(n)])
        ctx.check(g.nsites == n, "number of sites: polygon")
        ctx.close(g.adjacency_mat, adj, "adjacency of a polygon")
        z = np.asarray(g.xlocs) + 1j * np.asarray(g.ylocs)
        ctx.close(np.abs(z - np.roll(z, -1)), np.ones(n), "polygon has unit sides")
        ctx.close(np.abs(z), np.full(n, 0.5 / np.sin(np.pi / n)), "polygon is regular")
        ctx.close(g.phase_mat, np.ones((n, n)), "phase matrix of a polygon is trivial")
        key = ("polygon", n)
    else:
        n = int(rng.integers(1, 10))
        ox, oy = gen.pick(rng, [(0, 0), (-3, 4), (0.25, -0.5), (1e-12, 3)])
        cells = gen.polyomino(rng, n) if rng.random() < 0.6 else \
            [tuple(int(v) for v in c) for c in np.unique(rng.integers(-3, 4, (n, 2)), axis=0)]
        n = len(cells)
        perm = rng.permutation(n)
        cells = [cells[k] for k in perm]
        x, y = [c[0] + ox for c in cells], [c[1] + oy for c in cells]
        arg = gen.pick(rng, [lambda v: v, np.array, lambda v: np.array(v).reshape(-1, 1), lambda v: np.array(v).reshape(1, -1)])
        adj = np.array([[1 if abs(p[0] - q[0]) + abs(p[1] - q[1]) == 1 else 0 for q in cells] for p in cells])
        ph = None
        kw = {}
        if rng.random() < 0.4 and n > 1:
            adj = gen.rand_adj(rng, n)
            kw["adjacency_mat"] = adj
        if rng.random() < 0.4 and n > 1:
            th = np.triu(rng.uniform(-4, 4, (n, n)), 1)
            ph = np.exp(1j * (th - th.T))
            kw["phase_mat"] = ph
        g = Geometry.createNonPeriodicGeometry(arg(x), arg(y), **kw)
        ctx.check(g.nsites == n and g.lattice is None, "number of sites: cluster")
        ctx.close(g.xlocs, x, "coordinates are kept")
        ctx.close(g.ylocs, y, "coordinates are kept")
        ctx.close(g.adjacency_mat, adj, "adjacency of a cluster")
        ctx.close(g.phase_mat, np.ones((n, n)) if ph is None else ph, "phase matrix of a cluster")
        key = ("cluster", cells, adj)
    x, y = np.asarray(g.xlocs, float), np.asarray(g.ylocs, float)
    ctx.close(g.xdist_mat, x[:, None] - x[None], "separations in the plane")
    ctx.close(g.ydist_mat, y[:, None] - y[None], "separations in the plane")
    cx, cy = g.get_center_of_mass()
    ctx.close([cx, cy], [x.mean(), y.mean()], "center of mass")
    ctx.seen(*key)
    ctx.describe(kind=key[0], n=g.nsites)


def invalid(ctx):
    rng = ctx.rng
    n = int(rng.integers(2, 7))
    x, y = np.arange(n), np.zeros(n)
    adj = gen.rand_adj(rng, n)
    th = np.triu(rng.uniform(-3, 3, (n, n)), 1)
    ph = np.exp(1j * (th - th.T))
    i, j = (int(v) for v in rng.choice(n, 2, replace=False))
    f = lambda a, p: (lambda: Geometry.createNonPeriodicGeometry(x, y, a, p))
    a1 = adj.copy(); a1[i, j] = 1 - a1[i, j]
    ctx.raises(f(a1, ph), "invalid adjacency (not symmetric)")
    a2 = adj.astype(float).copy(); a2[i, j] = a2[j, i] = float(gen.pick(rng, [2, -1, 0.5]))
    ctx.raises(f(a2, ph), "invalid adjacency (not 0 or 1)")
    ctx.raises(f(np.pad(adj, ((0, 1), (0, 1))), ph), "invalid adjacency (size)")
    p1 = ph.copy(); p1[i, j] = p1[j, i] = np.exp(1j * rng.uniform(0.2, 2))
    ctx.raises(f(adj, p1), "invalid phases (not hermitian)")
    p2 = ph * 1.0; p2[i, j] *= 1.3; p2[j, i] *= 1.3
    ctx.raises(f(adj, p2), "invalid phases (not of modulus one)")
    ctx.raises(f(adj, np.pad(ph, ((0, 1), (0, 1)), constant_values=1)), "invalid phases (size)")
    k = int(rng.integers(2, 5))
    for c in (Geometry.createSquareGeometry, Geometry.createTriangleGeometry, Geometry.createHexagonalGeometry):
        ctx.raises(lambda: c(1, k, bc1_open=False, bc2_open=True), "invalid periodic direction of one site")
        ctx.raises(lambda: c(k, 1, bc1_open=True, bc2_open=False), "invalid periodic direction of one site")
    l1 = rng.normal(size=2)
    l2 = rng.normal(size=2)
    if abs(l1[0] * l2[1] - l1[1] * l2[0]) < 0.2:
        l1, l2 = np.array([1.0, 0]), np.array([0, 1.0])
    col = lambda v: np.reshape(v, (2, 1))
    L = lambda *v: (lambda: Lattice(col(v[0]), col(v[1]), [np.zeros((2, 1))], col(v[2]), col(v[3])))
    a = [int(v) for v in rng.integers(1, 4, 2)]
    c = gen.pick(rng, [2.0, -1.0, 3.0])
    ctx.raises(L(np.array([1.0, 2.0]), np.array([1.0, 2.0]) * c, (0, 0), (0, 0)), "invalid dependent lattice vectors")
    ctx.raises(L(np.zeros(2), l2, (0, 0), (0, 0)), "invalid zero lattice vector")
    ctx.raises(L(np.array([1, 0]), np.array([0, 1]), np.array(a), np.array(a) * c), "invalid dependent periodicity vectors")
    fr = float(rng.uniform(0.05, 0.95))
    ctx.raises(L(l1, l2, (a[0] + fr) * l1, a[1] * l2), "invalid incommensurate periodicity vectors")
    ctx.raises(L(l1, l2, a[0] * l1, a[1] * l2 + fr * l1), "invalid incommensurate periodicity vectors")
    ctx.seen(adj, ph, l1, fr)


SCENARIOS = {"random_lattice": (random_lattice, 150, 2500), "strips": (strips, 100, 800), "named": (named, 150, 1500), "clusters": (clusters, 100, 1000),
             "invalid": (invalid, 20, 200)}
