"""C02: the fermion Hamiltonian is the documented Fermi-Hubbard model."""
import itertools

import numpy as np
import scipy.sparse as sp
from vmon import gen, oracle
from vmon.core import dense

fermions = gen.fermions
RULE = ("random fermion models: 1-3 species, up to 10 logical sites, on periodic/open/twisted/tilted/triangular/hexagonal "
        "lattices, polygons, clusters and arbitrary graphs, with every accepted parameter format (numbers, per species, per "
        "site, full matrices, complex hermitian hopping). Every term and the whole Hamiltonian are compared element by "
        "element with an independent second quantised construction, with and without a projector. Non-trivial: the model "
        "has at least one non-zero term; distinct by the Hamiltonian matrix.")
ASSUMPTIONS = ["dimension <= 4096", "two species for the inter-species interaction",
               "hopping matrices hermitian with empty diagonal, real interactions and potentials",
               "floating point comparison at 1e-9"]
REQUIRED = ["call:fermions.createH", "call:fermions.get_kinetic_op", "call:fermions.get_u_interspecies_op",
            "call:fermions.get_u_samespecies_op", "call:fermions.get_potential_op", "call:fermions.get_chemical_pot_op",
            "oracle:spectrum of the twisted ring"]


def taps():
    return [(fermions, n, None) for n in ("createH", "get_kinetic_op", "get_u_interspecies_op", "get_u_samespecies_op",
                                          "get_potential_op", "get_chemical_pot_op", "get_hopping_mat",
                                          "get_samespecies_int_mat")]


def isometry(rng, n, m=None):
    m = m or int(rng.integers(1, n + 1))
    q, _ = np.linalg.qr(gen.cmat(rng, n, m))
    return sp.csr_matrix(q.conj().T)


def selection(rng, n):
    idx = np.sort(rng.choice(n, size=int(rng.integers(1, n + 1)), replace=False))
    return sp.csr_matrix((np.ones(len(idx)), (np.arange(len(idx)), idx)), shape=(len(idx), n))


def projector(rng, n):
    return isometry(rng, n) if n <= 64 and rng.random() < 0.6 else selection(rng, n)


def number_ops(m):
    n = m.geometry.nsites
    nl = n * m.nspecies
    return [sum(oracle.num(nl, n * s + i) for i in range(n)) for s in range(m.nspecies)]


def full(ctx):
    rng = ctx.rng
    m, arr, d = gen.fermion_model(rng, max_logical=int(gen.pick(rng, [2, 4, 6, 8, 10] if ctx.tier == "quick"
                                                               else [2, 4, 6, 8, 10, 12])))
    want = gen.oracle_h(m, arr)
    h = m.createH(print_results=gen.flag(rng))
    ctx.close(h, want, "hamiltonian")
    ctx.check(abs(h - h.conj().T).max() < 1e-10 * (1 + abs(h).max()), "hamiltonian is hermitian")
    for s, nop in enumerate(number_ops(m)):
        ctx.check(abs(h @ nop - nop @ h).max() < 1e-9 * (1 + abs(h).max()), "hamiltonian conserves particle number of each species")
    ctx.close(m.createH(), h, "hamiltonian is reproducible")
    if abs(want).max() > 0:
        ctx.seen(dense(want) if m.nstates <= 64 else want.data)
    ctx.describe(model=d)


def projected(ctx):
    rng = ctx.rng
    m, arr, d = gen.fermion_model(rng, max_logical=int(gen.pick(rng, [2, 4, 6, 7])))
    want = gen.oracle_h(m, arr)
    p = projector(rng, m.nstates)
    got = m.createH(projector=p)
    ctx.close(got, p @ want @ p.conj().T, "projected hamiltonian is P H P+")
    ctx.seen(dense(got))
    ctx.describe(model=d, projector=p.shape)


def terms(ctx):
    """each term on its own, with its own arguments"""
    rng = ctx.rng
    m, arr, d = gen.fermion_model(rng, max_logical=int(gen.pick(rng, [2, 4, 6])), nspecies=gen.pick(rng, [1, 2, 2]))
    n, ns = m.geometry.nsites, m.nspecies
    nl, dim = n * ns, m.nstates
    p = projector(rng, dim) if rng.random() < 0.5 else None
    pr = (lambda o: p @ o @ p.conj().T) if p is not None else (lambda o: o)
    occ = oracle.fermion_occ(nl).astype(float)
    zero_hop, zv = np.zeros((n, n, ns)), np.zeros((n, n, ns))
    # kinetic
    kin = oracle.fermion_h(n, ns, arr["hop"], np.zeros(n), zv, np.zeros(ns), np.zeros((n, ns)))
    ctx.close(m.get_kinetic_op(projector=p, direction_vect=None), pr(kin), "full kinetic energy")
    x, y = np.asarray(m.geometry.xdist_mat), np.asarray(m.geometry.ydist_mat)
    for dv in ([1, 0], [0, 1], rng.normal(size=2)):
        w = np.sqrt((dv[0] * x) ** 2 + (dv[1] * y) ** 2)
        wk = oracle.fermion_h(n, ns, arr["hop"] * w[:, :, None], np.zeros(n), zv, np.zeros(ns), np.zeros((n, ns)))
        ctx.close(m.get_kinetic_op(projector=p, direction_vect=np.array(dv)), pr(wk), "kinetic energy along a direction")
    w = np.abs(x)
    ctx.close(m.get_kinetic_op(projector=p),
              pr(oracle.fermion_h(n, ns, arr["hop"] * w[:, :, None], np.zeros(n), zv, np.zeros(ns), np.zeros((n, ns)))),
              "kinetic energy along a direction: default is x")
    # interactions and potentials
    if ns == 2:
        u = gen.pick(rng, [rng.normal(size=n), float(rng.normal()), int(rng.integers(-3, 4))])
        uu = u * np.ones(n)
        ctx.close(m.get_u_interspecies_op(u, projector=p), pr(sp.diags(sum(uu[i] * occ[i] * occ[n + i] for i in range(n)))),
                  "inter-species interaction")
    v = rng.normal(size=(n, n, ns))
    v = (v + v.transpose(1, 0, 2)) * (rng.random((n, n, 1)) < 0.8)
    want = sum(v[i, j, s] * occ[n * s + i] * occ[n * s + j] for i in range(n) for j in range(i + 1) for s in range(ns))
    ctx.close(m.get_u_samespecies_op(v, projector=p), pr(sp.diags(want)), "same-species interaction")
    mus = rng.normal(size=ns)
    ctx.close(m.get_chemical_pot_op(mus, projector=p),
              pr(sp.diags(-sum(mus[s] * occ[n * s + i] for i in range(n) for s in range(ns)))), "chemical potential")
    vs = rng.normal(size=(n, ns))
    ctx.close(m.get_potential_op(vs, projector=p),
              pr(sp.diags(sum(vs[i, s] * occ[n * s + i] for i in range(n) for s in range(ns)))), "potential")
    ctx.seen(v, mus, vs, 0 if p is None else dense(p))
    ctx.describe(model=d, projected=p is not None)


def free_spectrum(ctx):
    """without interactions the spectrum is that of filling single particle levels"""
    rng = ctx.rng
    m, arr, d = gen.fermion_model(rng, max_logical=8, params=dict(us_interspecies=0, us_same_species=0))
    levels = []
    for s in range(m.nspecies):
        levels += list(np.linalg.eigvalsh(-arr["hop"][:, :, s] + np.diag(arr["pot"][:, s] - arr["mu"][s])))
    want = np.sort([sum(c) for c in itertools.product(*[(0.0, e) for e in levels])])
    e, _ = m.diagH(m.createH())
    ctx.close(e, want, "free spectrum fills single particle levels", tol=1e-8)
    ctx.seen(np.round(want, 6))
    ctx.describe(model=d, levels=np.round(levels, 6))


def ring(ctx):
    """one fermion on a ring with a twist: dispersion -2 t cos((2 pi k + phi) / n)"""
    rng = ctx.rng
    n = int(rng.integers(3, 9))
    phi = float(rng.uniform(-15, 15))
    t = gen.coupling(rng, False)
    vert = rng.random() < 0.5
    g = gen.Geometry.createSquareGeometry(1, n, 0, phi, bc1_open=True, bc2_open=False) if vert else \
        gen.Geometry.createSquareGeometry(n, 1, phi, 0, bc1_open=False, bc2_open=True)
    if rng.random() < 0.5:
        g.permute_sites([int(x) for x in rng.permutation(n)])
    m = fermions(g, 0, t, ns=np.array([1]), nspecies=1)
    e, _ = m.diagH(m.createH(projector=m.n_projector).tocsr())
    want = np.sort(-2 * t * np.cos((2 * np.pi * np.arange(n) + phi) / n))
    ctx.close(e, want, "spectrum of the twisted ring")
    ctx.seen(n, phi, t, vert)
    ctx.describe(n=n, phi=phi, t=t)


def torus(ctx):
    """one fermion on a twisted torus (square or triangular lattice)"""
    rng = ctx.rng
    a, b = int(rng.integers(3, 5)), int(rng.integers(3, 5))
    if a * b > 12:
        a = 3
    if a * b > 12:
        b = 3
    p1, p2 = float(rng.uniform(-9, 9)), float(rng.uniform(-9, 9))
    t = gen.coupling(rng, False)
    if rng.random() < 0.5:
        g, tri = gen.Geometry.createSquareGeometry(a, b, p1, p2, bc1_open=False, bc2_open=False), False
    else:
        g, tri = gen.Geometry.createTriangleGeometry(a, b, p1, p2, bc1_open=False, bc2_open=False), True
    m = fermions(g, 0, t, nspecies=1, ns=[1])
    e, _ = m.diagH(m.createH(projector=m.n_projector).tocsr())
    want = []
    for k, l in itertools.product(range(a), range(b)):
        u, v = (2 * np.pi * k + p1) / a, (2 * np.pi * l + p2) / b
        want.append(-2 * t * (np.cos(u) + np.cos(v) + (np.cos(u - v) if tri else 0)))
    if tri:  # third direction is the sum or the difference of the two lattice vectors
        lat = np.asarray(g.lattice.lattice_vect1).ravel(), np.asarray(g.lattice.lattice_vect2).ravel()
        if np.linalg.norm(lat[0] + lat[1]) < np.linalg.norm(lat[0] - lat[1]):
            want = []
            for k, l in itertools.product(range(a), range(b)):
                u, v = (2 * np.pi * k + p1) / a, (2 * np.pi * l + p2) / b
                want.append(-2 * t * (np.cos(u) + np.cos(v) + np.cos(u + v)))
    ctx.close(e, np.sort(want), "spectrum of the twisted torus")
    ctx.seen(a, b, p1, p2, t, tri)
    ctx.describe(size=(a, b), phases=(p1, p2), triangular=tri)


def rejected(ctx):
    """parameters whose size fits neither sites nor species are refused"""
    rng = ctx.rng
    ns = gen.pick(rng, [1, 2])
    n = int(rng.integers(3, 5))
    g = gen.Geometry.createSquareGeometry(n, 1, bc1_open=True)
    bad = n + 1 + int(rng.integers(3))
    what = gen.pick(rng, ["ts", "tsmat", "us", "same", "mus", "pot", "ns"])
    kw = dict(us_interspecies=0, ts=1, nspecies=ns)
    if what == "ts":
        kw["ts"] = np.ones(bad)
    elif what == "tsmat":
        kw["ts"] = np.ones((n, n, ns + 1))
    elif what == "us":
        kw["us_interspecies"] = np.ones(bad)
    elif what == "same":
        kw["us_same_species"] = np.ones((bad, bad, ns))
    elif what == "mus":
        kw["mus"] = np.ones(bad)
    elif what == "pot":
        kw["potentials"] = np.ones((bad, ns))
    else:
        kw["ns"] = [1] * (ns + 1)
    ctx.raises(lambda: fermions(g, **kw), "inconsistent parameter sizes are rejected: " + what)
    ctx.seen(what, n, ns, bad)


def large(ctx):
    """larger lattices: many bonds, periodic and twisted, in the full space"""
    rng = ctx.rng
    m, arr, d = gen.fermion_model(rng, max_logical=int(gen.pick(rng, [9, 10, 11, 12])), nmin=4, nspecies=gen.pick(rng, [1, 2, 2]))
    want = gen.oracle_h(m, arr)
    ctx.close(m.createH(), want, "hamiltonian equals its definition")
    ctx.event("large system")
    ctx.seen(want.data)
    ctx.describe(model=d)


SCENARIOS = {"large": (large, 4, 40), "full": (full, 160, 2500), "projected": (projected, 60, 800), "terms": (terms, 60, 800),
             "free_spectrum": (free_spectrum, 40, 500), "ring": (ring, 30, 300), "torus": (torus, 12, 100),
             "rejected": (rejected, 20, 60)}
