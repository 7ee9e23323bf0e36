"""C15: relabelling, sorting and comparing geometries."""
import copy

import numpy as np
from vmon import gen, oracle

Geometry, Lattice = gen.Geometry, gen.Lattice
RULE = ("random geometries are relabelled by random permutations (composed, inverted) and by all sorting modes: every per-site "
        "and per-pair quantity has to follow; spectra and thermal averages of models must not depend on labels; equality is "
        "compared with a field by field comparison on pairs of equal, relabelled, shifted and modified geometries. Distinct by "
        "geometry and permutation.")
ASSUMPTIONS = ["permutation given as list or integer array", "alternating order: rows at integer separations"]
REQUIRED = ["oracle:relabelled", "oracle:relabelling composes", "oracle:spectrum does not depend on the labels", "oracle:sorted",
            "oracle:equality", "oracle:invalid permutation", "oracle:shifted", "sort:top_alternating", "sort:top_left",
            "sort:bottom_right", "sort:adjacency"]


def taps():
    return [(Geometry, n, None) for n in ("permute_sites", "get_sorting_permutation", "__eq__", "isequal_adjacency")]


FIELDS = ("xlocs", "ylocs")
PAIRS = ("xdist_mat", "ydist_mat", "adjacency_mat", "phase_mat")


def snap(g):
    return {k: np.array(getattr(g, k)) for k in FIELDS + PAIRS}


def compare(ctx, g, s, p, what):
    for k in FIELDS:
        ctx.close(getattr(g, k), s[k][p], f"{what}: {k}")
    for k in PAIRS:
        ctx.close(getattr(g, k), s[k][np.ix_(p, p)], f"{what}: {k}")


def relabel(ctx):
    rng = ctx.rng
    g, d = gen.geometry(rng, 12, shuffle=False)
    n = g.nsites
    s = snap(g)
    lat = g.lattice
    p, q = rng.permutation(n), rng.permutation(n)
    g.permute_sites(p.tolist() if rng.random() < 0.7 else p)
    compare(ctx, g, s, p, "relabelled geometry")
    ctx.check(g.nsites == n and g.lattice is lat, "relabelled geometry: number of sites and lattice")
    ctx.check(g.validate_instance(), "relabelled geometry is valid")
    g.permute_sites(q.tolist())
    compare(ctx, g, s, p[q], "relabelling composes")
    g.permute_sites(np.argsort(p[q]).tolist())
    compare(ctx, g, s, np.arange(n), "relabelling by the inverse restores the geometry")
    bad = gen.pick(rng, [list(range(n + 1)), list(range(n - 1)) if n > 1 else [1], [0] * n if n > 1 else [1], list(range(1, n + 1)),
                         list(range(n - 1)) + [-1] if n > 1 else [-1]])
    ctx.raises(lambda: g.permute_sites(bad), "invalid permutation")
    compare(ctx, g, s, np.arange(n), "a rejected relabelling changes nothing")
    ctx.seen(d, p, q)
    ctx.describe(geom=d, permutation=p)


def sorting(ctx):
    rng = ctx.rng
    mode = gen.pick(rng, ["top_alternating", "top_left", "bottom_right", "adjacency", "default"])
    alt = mode in ("top_alternating", "default")
    g, d = gen.geometry(rng, 14, kinds=["chain", "square", "tilted", "cluster"] + ([] if alt else ["triangle", "hexagonal", "graph", "polygon"]))
    if rng.random() < 0.5:
        g.permute_sites(rng.permutation(g.nsites).tolist())
    s = snap(g)
    p = np.asarray(g.get_sorting_permutation() if mode == "default" else
                   (g.get_sorting_permutation(mode) if rng.random() < 0.5 else g.get_sorting_permutation(sorting_mode=mode)))
    compare(ctx, g, s, np.arange(g.nsites), "finding a sorting permutation changes nothing")
    ctx.check(sorted(p.tolist()) == list(range(g.nsites)), "sorting permutation is a permutation")
    g.permute_sites(p.tolist())
    compare(ctx, g, s, p, "relabelled geometry after sorting")
    x, y = np.round(g.xlocs, 7), np.round(g.ylocs, 7)
    n = g.nsites
    if mode == "adjacency":
        a = np.round(np.asarray(g.adjacency_mat)).astype(int)
        keys, w = [], np.ones(n, dtype=object)
        for _ in range(n):
            w = a.astype(object) @ w
            keys.append(w)
        if n < 13:
            rows = [tuple(int(k[i]) for k in keys) for i in range(n)]
            ctx.check(all(rows[i] <= rows[i + 1] for i in range(n - 1)), "sorted by number of neighbours, then by longer walks")
        deg = a.sum(1)
        ctx.check(np.all(np.diff(deg) >= 0), "sorted by number of neighbours")
    else:
        for i in range(n - 1):
            dy, dx = y[i + 1] - y[i], x[i + 1] - x[i]
            if mode == "bottom_right":
                ctx.check(dy > 0 or (dy == 0 and dx > 0), "sorted bottom to top, then left to right")
            elif mode == "top_left":
                ctx.check(dy < 0 or (dy == 0 and dx > 0), "sorted top to bottom, then left to right")
            else:
                row = int(round(y.max() - y[i]))
                ctx.check(dy < 0 or (dy == 0 and (dx > 0 if row % 2 == 0 else dx < 0)), "sorted top to bottom, in alternating directions")
    ctx.event("sort:" + ("top_alternating" if mode == "default" else mode))
    ctx.raises(lambda: g.get_sorting_permutation("left_top"), "unknown sorting mode is rejected")
    ctx.seen(d, mode, p)
    ctx.describe(geom=d, mode=mode)


def physics(ctx):
    """spectra and averages in terms of positions do not depend on how sites are numbered"""
    rng = ctx.rng
    g, d = gen.geometry(rng, 6, nmin=2, shuffle=False)
    h = copy.deepcopy(g)
    n = g.nsites
    p = rng.permutation(n)
    h.permute_sites(p.tolist())
    twisted = not np.allclose(np.imag(g.phase_mat), 0)
    t = float(10 ** rng.uniform(-1, 1))
    if rng.random() < 0.6 or twisted:
        ns = 1 if n > 4 else int(gen.pick(rng, [1, 2]))
        u, tt, mu, v = gen.coupling(rng) if ns == 2 else 0, gen.coupling(rng, False), gen.coupling(rng), gen.coupling(rng)
        pot = rng.normal(size=(n, ns))
        mk = lambda geom, pt: gen.fermions(geom, u, tt, mus=mu, us_same_species=v, potentials=pt, nspecies=ns)
        a, b = mk(g, pot), mk(h, pot[p])
        op, kind = a.n_op, "fermions"
    else:
        j = [gen.coupling(rng) for _ in range(3)]
        f = rng.normal(size=n)
        a = gen.spinSystem(g, *j, 0, 0, f)
        b = gen.spinSystem(h, *j, 0, 0, f[p])
        op, kind = a.sz, "spins"
    ea, va = a.diagH(a.createH())
    eb, vb = b.diagH(b.createH())
    ctx.close(eb, ea, "spectrum does not depend on the labels", tol=1e-8)
    xa, _ = a.get_thermal_exp_sites(va, ea, op, 0, [t], format="boson")
    xb, _ = b.get_thermal_exp_sites(vb, eb, op, 0, [t], format="boson")
    ctx.close(xb, xa[p], "thermal averages follow the sites", tol=1e-7)
    ctx.seen(kind, d, np.round(ea, 6), p)
    ctx.describe(model=kind, geom=d, permutation=p)


def fields_equal(a, b):
    la, lb = a.lattice, b.lattice
    if (la is None) != (lb is None):
        return False
    if la is not None:
        for k in ("lattice_vect1", "lattice_vect2", "periodicity_vect1", "periodicity_vect2"):
            if not np.array_equal(getattr(la, k), getattr(lb, k)):
                return False
        if la.phase1 != lb.phase1 or la.phase2 != lb.phase2:
            return False
    return all(np.array_equal(getattr(a, k), getattr(b, k)) for k in FIELDS + PAIRS)


def equality(ctx):
    rng = ctx.rng
    g, d = gen.geometry(rng, 8, nmin=1)
    n = g.nsites
    variants = [("copy", copy.deepcopy(g))]
    h = copy.deepcopy(g)
    h.permute_sites(rng.permutation(n).tolist())
    variants.append(("relabelled", h))
    o, _ = gen.geometry(rng, 8)
    variants.append(("other", o))
    if g.lattice is None:
        h = Geometry.createNonPeriodicGeometry(np.array(g.xlocs) + 1.0, np.array(g.ylocs), np.array(g.adjacency_mat), np.array(g.phase_mat))
        variants.append(("shifted", h))
        if np.array_equal(h.xdist_mat, g.xdist_mat):
            ctx.check(g.isequal_adjacency(h) and h.isequal_adjacency(g), "shifted geometry has equal adjacency")
        if n > 1:
            i, j = (int(v) for v in rng.choice(n, 2, replace=False))
            ph = np.array(g.phase_mat, complex)
            ph[i, j] *= -1
            ph[j, i] *= -1
            h = Geometry.createNonPeriodicGeometry(np.array(g.xlocs), np.array(g.ylocs), np.array(g.adjacency_mat), ph)
            variants.append(("phases", h))
            ph = np.array(g.phase_mat, complex)
            f = np.exp(1j * float(gen.pick(rng, [np.pi / 2, 0.3, -2.0, 1e-3])))
            ph[i, j] *= f
            ph[j, i] *= np.conj(f)
            h = Geometry.createNonPeriodicGeometry(np.array(g.xlocs), np.array(g.ylocs), np.array(g.adjacency_mat), ph)
            h2 = Geometry.createNonPeriodicGeometry(np.array(g.xlocs), np.array(g.ylocs), np.array(g.adjacency_mat), ph.conj())
            variants += [("complex phases", h), ("conjugate phases", h2)]
            ctx.check(not h == h2 and h != h2, "equality: conjugate phases differ")
            ctx.check(g.isequal_adjacency(h), "shifted geometry: phases do not matter for adjacency")
            a = np.array(g.adjacency_mat)
            a[i, j] = a[j, i] = 1 - a[i, j]
            h = Geometry.createNonPeriodicGeometry(np.array(g.xlocs), np.array(g.ylocs), a, np.array(g.phase_mat))
            variants.append(("adjacency", h))
            ctx.check(not g.isequal_adjacency(h), "equality by adjacency sees a different bond")
    else:
        h = Geometry.createNonPeriodicGeometry(np.array(g.xlocs), np.array(g.ylocs), np.array(g.adjacency_mat), np.array(g.phase_mat))
        variants.append(("no lattice", h))
    for name, h in variants:
        want = fields_equal(g, h)
        if name == "copy":
            ctx.check(want, "equality: a copy")
        ctx.check(bool(g == h) == want, f"equality: {name}")
        ctx.check(bool(h == g) == want, f"equality is symmetric: {name}")
        ctx.check(bool(g != h) == (not want), f"inequality is the opposite of equality: {name}")
        ctx.event("pair:" + name)
    if g.lattice is not None:
        l = g.lattice
        args = [l.lattice_vect1, l.lattice_vect2, l.basis_vects, l.periodicity_vect1, l.periodicity_vect2, l.phase1, l.phase2]
        l2 = Lattice(*copy.deepcopy(args))
        ctx.check(l == l2 and not l != l2, "equality of lattices: same parameters")
        k = int(gen.pick(rng, [3, 4, 5, 6]))
        b = copy.deepcopy(args)
        if k in (3, 4):
            b[k] = 2 * np.asarray(b[k]) if np.any(b[k]) else (np.asarray(b[0]) if k == 3 else np.asarray(b[1]))
        else:
            b[k] = b[k] + 0.5
        try:
            l3 = Lattice(*b)
        except ValueError:
            return
        ctx.check(l != l3 and not l == l3, "equality of lattices: different parameters")
        ctx.check(not (l == None) and l != 3, "equality of lattices: other objects")  # noqa: E711
    ctx.seen(d, n)
    ctx.describe(geom=d)


SCENARIOS = {"relabel": (relabel, 120, 1500), "sorting": (sorting, 150, 2000), "physics": (physics, 60, 600), "equality": (equality, 100, 1000)}
