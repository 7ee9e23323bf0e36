"""C11: time evolution after a quench."""
import numpy as np
import scipy.linalg as sl
import scipy.sparse as sp
from vmon import gen, oracle

ed_base = gen.M["ed_base"].ed_base
RULE = ("random hermitian matrices and Hamiltonians of random models, one or several random initial states, arbitrary sets of "
        "times (zero, negative, unsorted, long); the evolved states are compared with the matrix exponential, norms, energies "
        "and overlaps are followed along the trajectory, and evolving in two steps is compared with one. Distinct by "
        "Hamiltonian, states and times.")
ASSUMPTIONS = ["dimension <= 256", "|H| t < 1e4 (phase errors grow with t)", "incomplete eigenbasis: the projection of the initial "
               "state into the span of the eigenvectors given is evolved"]
REQUIRED = ["oracle:evolved state", "oracle:norm is conserved", "oracle:energy is conserved", "oracle:evolution composes",
            "several initial states", "truncated basis", "projected space"]


def taps():
    return [(ed_base, "quench_time_evolve", None), (ed_base, "diagH", None)]


def evolve(ctx):
    rng = ctx.rng
    proj = None
    if rng.random() < 0.5:
        n = int(gen.pick(rng, [1, 2, 3, 8, 30]))
        h = gen.hermitian(rng, n, real=rng.random() < 0.5) * 10 ** rng.uniform(-1, 1)
        m, d = gen.spinSystem(gen.Geometry.createSquareGeometry(2, 1)), dict(matrix=n)
    else:
        m, hh, d, st = gen.any_model(rng, int(gen.pick(rng, [16, 64, 128])))
        h = hh.toarray()
        if rng.random() < 0.3 and len(h) > 1:
            k = int(rng.integers(1, len(h)))
            p = sp.csr_matrix(np.eye(len(h))[np.sort(rng.choice(len(h), k, replace=False))])
            h = m.createH(projector=p).toarray()
            ctx.event("projected space")
        else:
            h = m.createH().toarray()
        n = len(h)
    e, v = m.diagH(sp.csr_matrix(h))
    full = True
    if n > 3 and rng.random() < 0.25:
        keep = np.sort(rng.choice(n, int(rng.integers(1, n)), replace=False))
        e, v, full = e[keep], v[:, keep], False
        ctx.event("truncated basis")
    ns = int(gen.pick(rng, [1, 1, 2, 4]))
    psi = gen.cmat(rng, n, ns, kind=gen.pick(rng, ["real", None]))
    psi /= np.linalg.norm(psi, axis=0)
    if rng.random() < 0.3:
        psi = np.eye(n)[:, rng.integers(0, n, ns)]
    arg = psi[:, 0].copy() if ns == 1 and rng.random() < 0.5 else psi
    nt = int(gen.pick(rng, [1, 2, 7]))
    ts = rng.normal(size=nt) * 10 ** rng.uniform(-2, 1.5)
    far = rng.random() < 0.15
    if far:
        ts *= 10 ** rng.uniform(1, 4)
        ctx.event("long times")
    if rng.random() < 0.3:
        ts[0] = 0.0
    if rng.random() < 0.5:
        ts = np.sort(np.abs(ts))
    targ = float(ts[0]) if nt == 1 and rng.random() < 0.5 else (int(round(ts[0])) if nt == 1 and rng.random() < 0.3 else ts)
    ts = np.atleast_1d(np.asarray(targ, float))
    keep = psi.copy()
    tr, out = m.quench_time_evolve(arg, v, e, targ, print_results=gen.flag(rng))
    ctx.close(np.asarray(tr, float), ts, "times are returned", shape=False)
    out = np.asarray(out)
    ctx.check(out.size == n * nt * ns, f"one state per time and initial state: {out.shape}")
    out = out.reshape(n, nt, ns)  # squeezed dimensions
    pin = v @ (v.conj().T @ psi)
    for k, t in enumerate(ts):
        want = (v * np.exp(-1j * e * t)) @ (v.conj().T @ psi)
        if full and not far:
            want = sl.expm(-1j * h * t) @ psi
        ctx.close(out[:, k, :], want, "evolved state is exp(-iHt) psi", tol=1e-7)
        ctx.close(np.linalg.norm(out[:, k], axis=0), np.linalg.norm(pin, axis=0), "norm is conserved")
        en = np.einsum("ij,ij->j", out[:, k].conj(), h @ out[:, k])
        ctx.close(en, np.einsum("ij,ij->j", pin.conj(), h @ pin), "energy is conserved", tol=1e-7)
        g = out[:, k].conj().T @ out[:, k]
        ctx.close(g, pin.conj().T @ pin, "overlaps between evolved states are conserved", tol=1e-8)
    dt = float(rng.normal())
    _, b = m.quench_time_evolve(out[:, -1, :], v, e, np.array([dt]))
    _, c = m.quench_time_evolve(psi, v, e, np.array([ts[-1] + dt]))
    ctx.close(b, c, "evolution composes", tol=1e-5 if far else 1e-7)
    ctx.close(psi, keep, "initial states are left unchanged")
    if ns > 1:
        ctx.event("several initial states")
    ctx.seen(np.round(h, 8), psi, ts)
    ctx.describe(model=d, states=ns, times=ts, dimension=n)


def observables(ctx):
    """quench of a non-interacting fermion model: densities from the single particle problem"""
    rng = ctx.rng
    g, gd = gen.geometry(rng, 7, nmin=2)
    n = g.nsites
    pot = rng.normal(size=(n, 1))
    m = gen.fermions(g, 0, 1.0, potentials=pot, nspecies=1)
    hop = np.asarray(g.adjacency_mat) * np.asarray(g.phase_mat)
    h1 = -hop + np.diag(pot[:, 0])
    np.fill_diagonal(h1, pot[:, 0])
    e, v = m.diagH(m.createH())
    b = int(rng.integers(1, 2 ** n))
    psi = np.zeros(2 ** n)
    psi[b] = 1
    occ0 = oracle.fermion_occ(n)[:, b]
    ts = rng.uniform(0, 5, 4)
    _, out = m.quench_time_evolve(psi, v, e, ts)
    for k, t in enumerate(ts):
        u = sl.expm(-1j * h1 * t)
        want = (np.abs(u) ** 2) @ occ0
        got, _ = m.get_exp_vals_sites(out[:, k], m.n_op, 0, format="boson")
        ctx.close(got[:, 0], want, "densities of free fermions after a quench", tol=1e-8)
    ctx.seen(gd, b, pot, ts)
    ctx.describe(geom=gd, initial=b)


SCENARIOS = {"evolve": (evolve, 160, 2500), "free": (observables, 40, 400)}
