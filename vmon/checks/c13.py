"""C13: current operator and optical conductivity."""
import numpy as np
import scipy.sparse as sp
from vmon import gen, oracle

fermions = gen.fermions
RULE = ("random fermion models on open clusters (arbitrary graphs, hermitian hopping matrices, several species) and on periodic "
        "lattices; the current is compared with i[H, X.d] (continuity) or with the sum over bonds; conductivities at random "
        "frequencies, broadenings and temperatures are compared with the Kubo formula; the integrated weight is compared with the "
        "f-sum rule. Distinct by model, direction, temperature.")
ASSUMPTIONS = ["no interaction term which does not commute with the density", "periodic lattices have at least 3 sites along a "
               "periodic direction", "frequencies are not zero", "dimension <= 256"]
REQUIRED = ["oracle:current is i[H,X]", "oracle:current on periodic lattice", "oracle:f-sum rule", "oracle:optical conductivity",
            "weak current", "T=0", "degenerate spectrum", "low temperature", "oracle:integrated weight is minus the kinetic energy"]


def taps():
    return [(fermions, n, None) for n in ("get_current_op", "integrate_conductivity", "get_optical_cond_fn")]


def direction(rng):
    d = gen.pick(rng, [np.array([1, 0]), np.array([0, 1]), np.array([[1], [0]]), np.array([[0.], [1.]]), rng.normal(size=2),
                       rng.normal(size=(2, 1)), [1, 0], [0.6, -0.8]])
    return d, np.ravel(np.asarray(d, float))


def position(m, d):
    n = m.geometry.nsites
    nl = n * m.nspecies
    occ = oracle.fermion_occ(nl)
    x = np.asarray(m.geometry.xlocs, float) * d[0] + np.asarray(m.geometry.ylocs, float) * d[1]
    return sp.diags(np.tile(x, m.nspecies) @ occ)


def open_model(rng, nlmax=8):
    m, arr, dd = gen.fermion_model(rng, nlmax, kinds=["cluster", "graph", "polygon", "openlike"][:3], nmin=2)
    return m, arr, dd


def bonds(m, hop, d):
    """sum over bonds, with the shortest separation of the two sites"""
    g = m.geometry
    n = g.nsites
    nl = n * m.nspecies
    out = sp.csr_matrix((2 ** nl, 2 ** nl), dtype=complex)
    for s in range(m.nspecies):
        for i in range(n):
            for j in range(n):
                if i != j and hop[i, j, s] != 0:
                    x = g.xdist_mat[i, j] * d[0] + g.ydist_mat[i, j] * d[1]
                    out = out + 1j * hop[i, j, s] * x * (oracle.cdag(nl, n * s + i) @ oracle.cdag(nl, n * s + j).T)
    return out


def current(ctx):
    rng = ctx.rng
    d, dv = direction(rng)
    if rng.random() < 0.6:
        m, arr, dd = open_model(rng)
        h = gen.oracle_h(m, arr)
        j = m.get_current_op(d) if not (np.array_equal(dv, [1, 0]) and rng.random() < 0.5) else m.get_current_op()
        x = position(m, dv)
        ctx.close(j, 1j * (h @ x - x @ h), "current is i[H,X]", tol=1e-8)
    else:
        for _ in range(200):
            m, arr, dd = gen.fermion_model(rng, 8, kinds=["chain", "square", "triangle", "hexagonal", "tilted"], nmin=2)
            g = dd["geom"]
            if not any((not o) and k == 2 for o, k in zip(g["open"] or (), g["dims"])) and g["kind"] != "tilted":
                break
        else:
            return
        j = m.get_current_op(d)
        ctx.close(j, bonds(m, arr["hop"], dv), "current on periodic lattice", tol=1e-8)
    j = sp.csr_matrix(j)
    ctx.close(j, j.conj().T, "current is hermitian")
    nl = m.geometry.nsites * m.nspecies
    for s in range(m.nspecies):
        q = sp.diags(oracle.fermion_occ(nl)[s * m.geometry.nsites:(s + 1) * m.geometry.nsites].sum(0))
        ctx.close(j @ q, q @ j, "current conserves the number of each species")
    ctx.seen(dd, dv, np.round(arr["hop"], 8))
    ctx.describe(model=dd, direction=dv)


def fsum(ctx):
    rng = ctx.rng
    m, arr, dd = open_model(rng, 7)
    d, dv = direction(rng)
    e, v = m.diagH(m.createH())
    ha = gen.oracle_h(m, arr).toarray()
    jm = m.get_matrix_elems(v, sp.csr_matrix(m.get_current_op(d)))
    x = position(m, dv).toarray()
    j = 1j * (ha @ x - x @ ha)
    k = -1j * (x @ j - j @ x)
    width = max(e[-1] - e[0], 0.1)
    low = e - e[0]
    if np.sum(low < 1e-9) > 1:
        ctx.event("degenerate spectrum")
    for t in (0.0, float(width * 10 ** rng.uniform(-3, 2)), float(width * 10 ** rng.uniform(-1, 0))):
        near = np.abs(e[:, None] - e[None, :])
        if np.any((near > 1e-12 * width) & (near < 1e-8)) and np.max(np.abs(jm[(near < 1e-8) & (near > 0)]), initial=0) > 1e-7:
            continue  # splittings at the level of rounding
        if t == 0:
            w = np.eye(len(e))[0]
            ctx.event("T=0")
        else:
            w = oracle.boltzmann(e, t)
            if t < 0.02 * width:
                ctx.event("low temperature")
        want = np.pi / m.geometry.nsites * np.einsum("ij,jk,ki,i->", v.conj().T, k, v, w).real
        got = m.integrate_conductivity(jm, e, gen.pick(rng, [t, np.float64(t)]), print_results=gen.flag(rng))
        ctx.close(got, want, f"f-sum rule: T {'= 0' if t == 0 else '> 0'}", tol=1e-6, shape=False)
    ctx.seen(dd, dv, np.round(e, 6), t)
    ctx.describe(model=dd, direction=dv)


def square(ctx):
    """on square clusters the weight is the kinetic energy along the direction"""
    rng = ctx.rng
    ns = int(gen.pick(rng, [1, 2]))
    a, b = gen.pick(rng, [(2, 1), (3, 1), (2, 2), (1, 3), (4, 1), (1, 4)] + ([(3, 2), (2, 3), (6, 1)] if ns == 1 else []))
    g = gen.Geometry.createSquareGeometry(a, b)
    m = fermions(g, gen.coupling(rng) if ns == 2 else 0, float(rng.normal()), mus=gen.coupling(rng), us_same_species=gen.coupling(rng),
                 nspecies=ns)
    dv = gen.pick(rng, [np.array([1, 0]), np.array([0, 1])])
    e, v = m.diagH(m.createH())
    jm = m.get_matrix_elems(v, sp.csr_matrix(m.get_current_op(dv)))
    kin = m.get_kinetic_op(direction_vect=dv)
    t = float(10 ** rng.uniform(-1.5, 2))
    ek = m.get_exp_vals_thermal(v, sp.csr_matrix(kin), e, t)
    ctx.close(m.integrate_conductivity(jm, e, t), -np.pi / g.nsites * ek, "integrated weight is minus the kinetic energy", tol=1e-6,
              shape=False)
    ctx.seen(a, b, np.round(e, 6), t, dv)
    ctx.describe(cluster=(a, b), T=t)


def sigma(ctx):
    rng = ctx.rng
    m = fermions(gen.geometry(rng, 4, twist=False)[0], 0, 1, nspecies=1)
    n = int(gen.pick(rng, [1, 2, 5, 20]))
    e = np.sort(rng.normal(size=n)) * 3
    if n > 2 and rng.random() < 0.4:
        e[: int(rng.integers(2, n))] = e[0]
        e = np.sort(e)
        ctx.event("degenerate spectrum")
    e = e + float(rng.normal() * 10)
    j = gen.hermitian(rng, n, real=rng.random() < 0.4)
    if rng.random() < 0.4:
        z = rng.random((n, n)) < 0.4
        j[z | z.T] = 0
    # the unit of the current is arbitrary, and weak transitions may be all there is
    unit = 1.0 if rng.random() < 0.5 else float(10 ** rng.uniform(-8, 4))
    ctx.event("unit current" if unit == 1 else "weak current" if unit < 1e-4 else "scaled current")
    j = j * unit
    t = 0.0 if rng.random() < 0.3 else float(10 ** rng.uniform(-2.5, 2))
    ctx.event("T=0" if t == 0 else "T>0")
    ns = m.geometry.nsites
    fn = m.get_optical_cond_fn(j, e, t, print_results=gen.flag(rng))
    for _ in range(4):
        wo, eta = float(rng.uniform(-8, 8)), float(10 ** rng.uniform(-3, 0.5))
        want = 0.0
        low = e[0]
        if t == 0:
            for k in range(n):
                w = e[k] - low
                if w > 1e-9:
                    want += np.pi / ns * abs(j[k, 0]) ** 2 / w * eta / np.pi / (eta ** 2 + (abs(wo) - w) ** 2)
        else:
            p = oracle.boltzmann(e, t)
            for a in range(n):
                for b in range(n):
                    w = e[b] - e[a]
                    want += np.pi / ns * abs(j[b, a]) ** 2 * (p[a] - p[b]) / wo * eta / np.pi / (eta ** 2 + (wo - w) ** 2)
        got = fn(wo, eta) / unit ** 2
        ctx.close(got, want / unit ** 2, f"optical conductivity: T {'= 0' if t == 0 else '> 0'}", tol=1e-7, shape=False)
        ctx.check(got > -1e-9, "optical conductivity is not negative")
        ctx.close(fn(-wo, eta) / unit ** 2, got, "optical conductivity is even in frequency", tol=1e-7, shape=False)
    # weight
    want = 0.0
    p = oracle.boltzmann(e, t) if t else np.eye(n)[0]
    for a in range(n):
        for b in range(n):
            if abs(e[b] - e[a]) > 1e-9:
                want += np.pi / ns * abs(j[b, a]) ** 2 * (p[a] - p[b]) / (e[b] - e[a])
    ctx.close(m.integrate_conductivity(j, e, t) / unit ** 2, want / unit ** 2, "integrated conductivity", tol=1e-7, shape=False)
    ctx.seen(e, j, t)
    ctx.describe(levels=n, T=t, nsites=ns)


SCENARIOS = {"current": (current, 100, 1200), "fsum": (fsum, 80, 800), "square": (square, 40, 300), "sigma": (sigma, 100, 1200)}
