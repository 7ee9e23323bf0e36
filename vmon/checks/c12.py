"""C12: retarded response functions."""
import numpy as np
import scipy.sparse as sp
from vmon import gen, oracle

ed_base = gen.M["ed_base"].ed_base
RULE = ("random hermitian matrices and Hamiltonians of random models, operators A and B = A+ (or real A, B in a real "
        "eigenbasis), temperatures from 0 to infinity, bosonic and fermionic statistics; the function returned is evaluated at "
        "random frequencies and broadenings and compared with the resolvent form of the Kubo formula, with sum rules, symmetries, "
        "the zero temperature limit, and the exact spectral function of free fermions. Distinct by Hamiltonian, operators, "
        "temperature and statistics.")
ASSUMPTIONS = ["A_nm B_mn real (B = A+, or real matrix elements)", "one frequency per call", "T=0: the first eigenvector given is "
               "the ground state", "dimension <= 256"]
REQUIRED = ["oracle:response function", "oracle:sum rule", "oracle:zero temperature limit", "oracle:symmetry in frequency",
            "oracle:spectral function of free fermions", "format:boson", "format:fermion", "T=0", "degenerate spectrum", "low temperature"]


def taps():
    return [(ed_base, n, None) for n in ("get_response_fn_retarded", "get_matrix_elems")]


def lor(x, eta):
    return eta / np.pi / (eta ** 2 + x ** 2)


def reference(h, a, b, t, w, eta, fmt, e, v, psi0=None):
    """chi'' = pi Tr rho (A L(w - ad H) B -/+ B L(w + ...) A), via the spectral function of H, in the original basis"""
    sgn = -1 if fmt == "boson" else 1
    tot = 0
    p = oracle.boltzmann(e, t) if t else np.eye(len(e))[0]
    for n in range(len(e)):
        if p[n] < 1e-300:
            continue
        x = v[:, n]
        # L(w + E_n - H): imaginary part of a resolvent
        g1 = np.linalg.solve((w + e[n] - 1j * eta) * np.eye(len(e)) - h, b @ x)
        g1c = np.linalg.solve((w + e[n] + 1j * eta) * np.eye(len(e)) - h, b @ x)
        tot += p[n] * np.vdot(a.conj().T @ x, (g1 - g1c) / (2j * np.pi))
        # L(w - E_n + H)
        g2 = np.linalg.solve((w - e[n] - 1j * eta) * np.eye(len(e)) + h, a @ x)
        g2c = np.linalg.solve((w - e[n] + 1j * eta) * np.eye(len(e)) + h, a @ x)
        tot += sgn * p[n] * np.vdot(b.conj().T @ x, (g2 - g2c) / (2j * np.pi))
    return np.pi * tot


def problem(ctx, rng, nmax=24):
    if rng.random() < 0.6:
        n = int(rng.integers(1, nmax))
        real = rng.random() < 0.4
        h = gen.hermitian(rng, n, real=real)
        if rng.random() < 0.3:
            u = np.linalg.qr(gen.cmat(rng, n, kind="real" if real else None))[0]
            h = (u * np.sort(rng.integers(-2, 3, n))) @ u.conj().T
            h = (h + h.conj().T) / 2
            ctx.event("degenerate spectrum")
        m, d = gen.spinSystem(gen.Geometry.createSquareGeometry(2, 1)), dict(matrix=n)
    else:
        m, hh, d, st = gen.any_model(rng, 64)
        h = hh.toarray()
        real = bool(np.all(h.imag == 0))
        if real:
            h = h.real
    h = h + (rng.random() < 0.5) * float(rng.normal() * 20) * np.eye(len(h))
    n = len(h)
    e, v = m.diagH(sp.csr_matrix(h))
    if real and rng.random() < 0.4:
        a, b, kind = rng.normal(size=(n, n)), rng.normal(size=(n, n)), "real"
    else:
        a = gen.cmat(rng, n)
        kind = "A+"
        if rng.random() < 0.4:
            a = a + a.conj().T
            kind = "hermitian"
        b = a.conj().T
    return m, h, e, v, a, b, kind, d


def kubo(ctx):
    rng = ctx.rng
    m, h, e, v, a, b, kind, d = problem(ctx, rng)
    am, bm = m.get_matrix_elems(v, sp.csr_matrix(a)), m.get_matrix_elems(v, sp.csr_matrix(b))
    width = max(e[-1] - e[0], 0.5)
    t = 0.0 if rng.random() < 0.25 else float(width * 10 ** rng.uniform(-3, 2))
    if t == 0:
        ctx.event("T=0")
    elif t < 0.02 * width:
        ctx.event("low temperature")
    fmt = gen.pick(rng, ["boson", "fermion"])
    ctx.event("format:" + fmt)
    if rng.random() < 0.1:
        ctx.raises(lambda: m.get_response_fn_retarded(am, bm, e, t, format=gen.pick(rng, ["anyon", "Boson", "", None])),
                   "unknown statistics is rejected")
    fn = m.get_response_fn_retarded(am, bm, e, t, format=fmt, print_results=gen.flag(rng))
    for _ in range(3):
        w, eta = float(rng.uniform(-1.5, 1.5) * width), float(10 ** rng.uniform(-2, 0.5))
        got = fn(w, eta)
        ctx.check(np.ndim(got) == 0 or np.size(got) == 1, "response function returns one number")
        want = reference(h, a, b, t, w, eta, fmt, e, v)
        ctx.close(got, want.real, f"response function: {fmt}, T {'= 0' if t == 0 else '> 0'}", tol=1e-6, shape=False)
        if kind == "hermitian":
            ctx.close(fn(-w, eta), (-1 if fmt == "boson" else 1) * got, f"symmetry in frequency: {fmt}", tol=1e-7, shape=False)
        if fmt == "fermion" and kind != "real":
            ctx.check(got > -1e-9, "spectral function of fermions is positive")
    # area: a very broad response measures <[A,B]> or <{A,B}>
    eta = 1e5 * (width + 1)
    p = oracle.boltzmann(e, t) if t else np.eye(len(e))[0]
    rho = (v * p) @ v.conj().T
    comm = a @ b - b @ a if fmt == "boson" else a @ b + b @ a
    ctx.close(fn(0.0, eta) * eta, np.trace(rho @ comm).real, f"sum rule: {fmt}", tol=1e-6, shape=False)
    # zero temperature limit
    gap = e[1] - e[0] if len(e) > 1 else 1.0
    if gap > 1e-3:
        f0 = m.get_response_fn_retarded(am, bm, e, 0, format=fmt)
        f1 = m.get_response_fn_retarded(am, bm, e, gap / 60, format=fmt)
        w, eta = float(rng.uniform(-1.5, 1.5) * width), float(10 ** rng.uniform(-2, 0.5))
        ctx.close(f0(w, eta), f1(w, eta), "zero temperature limit", tol=1e-7, shape=False)
    ctx.seen(np.round(h, 8), np.round(a, 8), t, fmt)
    ctx.describe(model=d, operators=kind, T=t, format=fmt)


def free(ctx):
    """A_i(w) = pi sum_k |phi_k(i)|^2 L(w - e_k), at any temperature"""
    rng = ctx.rng
    ns = int(gen.pick(rng, [1, 2]))
    g, gd = gen.geometry(rng, 6 // ns, nmin=1)
    n = g.nsites
    mu = float(rng.normal())
    m = gen.fermions(g, 0, 1.0, mus=mu, nspecies=ns)
    h1 = -np.asarray(g.adjacency_mat) * np.asarray(g.phase_mat)
    h1 = h1 - np.diag(np.diag(h1)) - mu * np.eye(n)
    ek, u = np.linalg.eigh(h1)
    e, v = m.diagH(m.createH())
    i, s = int(rng.integers(n)), int(rng.integers(ns))
    c = m.get_single_site_op(i, s, m.c_op, format="fermion").tocsr()
    am, bm = m.get_matrix_elems(v, c), m.get_matrix_elems(v, c.conj().T.tocsr())
    t = float(10 ** rng.uniform(-1.5, 1.5))
    fn = m.get_response_fn_retarded(am, bm, e, t, format="fermion")
    for _ in range(4):
        w, eta = float(rng.uniform(-5, 5)), float(10 ** rng.uniform(-2, 0))
        want = np.pi * np.sum(np.abs(u[i]) ** 2 * lor(w - ek, eta))
        ctx.close(fn(w, eta), want, "spectral function of free fermions", tol=1e-7, shape=False)
    ctx.event("format:fermion")
    ctx.seen(gd, mu, i, s, t)
    ctx.describe(geom=gd, species=ns, T=t)


SCENARIOS = {"kubo": (kubo, 160, 2000), "free": (free, 60, 600)}
