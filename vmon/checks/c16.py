"""C16: reduction of vectors with respect to a lattice, reciprocal vectors."""
import numpy as np
from vmon import gen

geo = gen.M["ed_geometry"]
Lattice = gen.Lattice
RULE = ("random pairs of vectors (general, orthogonal, one or both zero; any shape) and random points, including lattice points, "
        "cell boundaries and half way points perturbed by rounding errors; the reduced points, multiples and reciprocal vectors are "
        "checked against their definition. Distinct by vectors and points.")
ASSUMPTIONS = ["points closer than 1e-10 (relative) to a cell boundary count as on the boundary", "vectors at least 8 degrees from parallel",
               "one zero vector: points are reduced along the other one only"]
REQUIRED = ["oracle:reduced points differ by the multiples", "oracle:positive mode", "oracle:centered mode", "oracle:reduction is idempotent",
            "oracle:reciprocal vectors", "points on the boundary", "one zero vector", "two zero vectors"]


def taps():
    return [(geo, "reduce_vectors", None), (geo, "get_reciprocal_vects", None), (Lattice, "reduce_to_unit_cell", None)]


def vectors(rng):
    while True:
        if rng.random() < 0.4:
            a, b = gen.pick(rng, [((1, 0), (0, 1)), ((3, 0), (0, 2)), ((3, 1), (-1, 3)), ((1, 0), (0.5, np.sqrt(3) / 2)),
                                  ((1.5, np.sqrt(3) / 2), (1.5, -np.sqrt(3) / 2)), ((2, 1), (1, -3)), ((0, 2), (2, 0)), ((-1, 0), (0, -4))])
            a, b = np.array(a, float), np.array(b, float)
        else:
            a, b = rng.normal(size=2) * 3, rng.normal(size=2) * 3
        if abs(a[0] * b[1] - a[1] * b[0]) > 0.15 * np.linalg.norm(a) * np.linalg.norm(b) and min(np.linalg.norm(a), np.linalg.norm(b)) > 0.2:
            break
    r = rng.random()
    if r < 0.12:
        a = np.zeros(2)
    elif r < 0.24:
        b = np.zeros(2)
    elif r < 0.28:
        a, b = np.zeros(2), np.zeros(2)
    return a, b


def shape(rng, v):
    return gen.pick(rng, [lambda v: v, lambda v: v.reshape(2, 1), lambda v: v.reshape(1, 2), lambda v: v.tolist()])(v)


def proj(a, b, pts):
    za, zb = not np.any(a), not np.any(b)
    if za and zb:
        return np.zeros(pts.shape[1]), np.zeros(pts.shape[1])
    if za:
        return np.zeros(pts.shape[1]), b @ pts / (b @ b)
    if zb:
        return a @ pts / (a @ a), np.zeros(pts.shape[1])
    c = np.linalg.solve(np.array([a, b]).T, pts)
    return c[0], c[1]


def reduce(ctx):
    rng = ctx.rng
    a, b = vectors(rng)
    za, zb = not np.any(a), not np.any(b)
    if za != zb:
        ctx.event("one zero vector")
    if za and zb:
        ctx.event("two zero vectors")
    n = int(gen.pick(rng, [1, 2, 8]))
    pts = rng.normal(size=(2, n)) * 5
    half = rng.random(n)
    for k in range(n):
        if half[k] < 0.5:
            m = rng.integers(-6, 7, 2) / gen.pick(rng, [1, 2])
            pts[:, k] = m[0] * a + m[1] * b + rng.uniform(-1, 1, 2) * gen.pick(rng, [0, 0, 1e-14, 3e-13, 1e-3, 1e-5, 3e-7, 1e-8])
            if za and zb:
                pts[:, k] = rng.normal(size=2)
            ctx.event("points on the boundary")
    mode = gen.pick(rng, ["positive", "centered"])
    xa = pts[0].copy() if n > 1 or rng.random() < 0.5 else float(pts[0, 0])
    ya = pts[1].copy() if not isinstance(xa, float) else float(pts[1, 0])
    x, y, n1, n2 = geo.reduce_vectors(shape(rng, a), shape(rng, b), xa, ya, mode=mode) if mode == "centered" or rng.random() < 0.5 \
        else geo.reduce_vectors(shape(rng, a), shape(rng, b), xa, ya)
    if not isinstance(xa, float):
        ctx.close(xa, pts[0], "points are left unchanged")
    x, y, n1, n2 = (np.ravel(np.asarray(v, float)) for v in (x, y, n1, n2))
    ctx.check(len(x) == len(y) == len(n1) == len(n2) == n, "one result per point")
    ctx.check(np.all(n1 == np.round(n1)) and np.all(n2 == np.round(n2)), "multiples are integers")
    ctx.close(np.array([x, y]), pts - np.outer(a, n1) - np.outer(b, n2), "reduced points differ by the multiples of the vectors", tol=1e-12)
    f1, f2 = proj(a, b, np.array([x, y]))
    lo, hi = (0, 1) if mode == "positive" else (-0.5, 0.5)
    for f in (f1, f2):
        ctx.check(np.all(f > lo - 1e-9) and np.all(f < hi - 1e-11), f"{mode} mode: reduced points are in the unit cell")
    # the same point, given by another representative
    k1, k2 = rng.integers(-5, 6, 2)
    q = pts + (k1 * a + k2 * b)[:, None]
    x2, y2, m1, m2 = geo.reduce_vectors(a, b, q[0], q[1], mode=mode)
    ctx.close(np.ravel(x2), x, f"{mode} mode: equivalent points reduce to the same point", tol=1e-8)
    ctx.close(np.ravel(y2), y, f"{mode} mode: equivalent points reduce to the same point", tol=1e-8)
    if not za:
        ctx.close(np.ravel(m1), n1 + k1, "multiples count the periods", tol=1e-12)
    if not zb:
        ctx.close(np.ravel(m2), n2 + k2, "multiples count the periods", tol=1e-12)
    x3, y3, z1, z2 = geo.reduce_vectors(a, b, x, y, mode=mode)
    ctx.check(not np.any(z1) and not np.any(z2), "reduction is idempotent")
    ctx.raises(lambda: geo.reduce_vectors(a, b, x, y, mode="negative"), "unknown mode is rejected")
    ctx.seen(a, b, pts, mode)
    ctx.describe(vectors=(a, b), mode=mode, points=n)


def cell(ctx):
    rng = ctx.rng
    l1, l2 = gen.pick(rng, [((1, 0), (0, 1)), ((1, 0), (0.5, np.sqrt(3) / 2)), ((1.5, np.sqrt(3) / 2), (1.5, -np.sqrt(3) / 2))])
    l1, l2 = np.array(l1, float), np.array(l2, float)
    while True:
        c = rng.integers(-4, 5, 4)
        if c[0] * c[3] - c[1] * c[2] != 0:
            break
    p1, p2 = c[0] * l1 + c[1] * l2, c[2] * l1 + c[3] * l2
    r = rng.random()
    if r < 0.2:
        p1 = np.zeros(2)
    elif r < 0.4:
        p2 = np.zeros(2)
    lat = Lattice(l1.reshape(2, 1), l2.reshape(2, 1), [np.zeros((2, 1))], p1.reshape(2, 1), p2.reshape(2, 1))
    q = rng.normal(size=(2, 5)) * 4
    mode = gen.pick(rng, ["positive", "centered"])
    x, y, n1, n2 = lat.reduce_to_unit_cell(q[0], q[1], mode)
    ctx.close(np.array([np.ravel(x), np.ravel(y)]), q - np.outer(p1, np.ravel(n1)) - np.outer(p2, np.ravel(n2)),
              "reduced points differ by the multiples of the periodicity vectors")
    f = proj(p1, p2, np.array([np.ravel(x), np.ravel(y)]))
    lo, hi = (0, 1) if mode == "positive" else (-0.5, 0.5)
    for v in f:
        ctx.check(np.all(v > lo - 1e-9) and np.all(v < hi + 1e-9), f"{mode} mode: points are in the periodicity cell")
    dual(ctx, l1, l2, lat.reciprocal_latt_vect1, lat.reciprocal_latt_vect2)
    dual(ctx, p1, p2, lat.reciprocal_periodicity_vect1, lat.reciprocal_periodicity_vect2)
    ctx.seen(c, l1, p1, p2, mode)


def dual(ctx, a, b, ra, rb):
    ra, rb = np.ravel(ra), np.ravel(rb)
    za, zb = not np.any(a), not np.any(b)
    ctx.close([a @ ra, b @ rb], [0 if za else 1, 0 if zb else 1], "reciprocal vectors: a_i b_i = 1")
    ctx.close([a @ rb, b @ ra], [0, 0], "reciprocal vectors: a_i b_j = 0")
    if za:
        ctx.close(ra, np.zeros(2), "reciprocal vectors: of a zero vector")
    if zb:
        ctx.close(rb, np.zeros(2), "reciprocal vectors: of a zero vector")
    if za and not zb:
        ctx.close(rb[0] * b[1] - rb[1] * b[0], 0, "reciprocal vectors: parallel to a single vector", shape=False)


def reciprocal(ctx):
    rng = ctx.rng
    a, b = vectors(rng)
    ra, rb = geo.get_reciprocal_vects(shape(rng, a), shape(rng, b))
    dual(ctx, a, b, ra, rb)
    if np.any(a) and np.any(b):
        r2 = geo.get_reciprocal_vects(ra, rb)
        ctx.close(np.ravel(r2[0]), a, "reciprocal vectors: the dual of the dual")
        ctx.close(np.ravel(r2[1]), b, "reciprocal vectors: the dual of the dual")
    c = gen.pick(rng, [2.0, -1.0])
    ctx.raises(lambda: geo.get_reciprocal_vects(np.array([1.0, 2.0]), c * np.array([1.0, 2.0])), "dependent vectors are rejected")
    ctx.seen(a, b)


SCENARIOS = {"reduce": (reduce, 500, 8000), "cell": (cell, 150, 1500), "reciprocal": (reciprocal, 150, 1500)}
