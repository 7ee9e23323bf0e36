"""C22: Green's functions, correlators and response of the free Fermi gas."""
import numpy as np
from vmon import fgas, gen

fg = gen.M["fermi_gas"]
RULE = ("random temperature, chemical potentials, separations, times, wave vectors and frequencies: real and momentum space Green's functions "
        "are compared with functions of the single particle matrix, correlators of one and two species with expectation values in the full "
        "Fock space (no use of Wick's theorem), responses with the Lehmann sum in the Fock space. Distinct by parameters.")
ASSUMPTIONS = ["separations given by integers, multiples of the lattice length only if zero", "time-ordered functions away from zero time, their "
               "chemical potential derivative is not implemented by the library", "static undamped response only at non-zero temperature"]
REQUIRED = ["oracle:real space Green's function", "oracle:momentum space Green's function", "oracle:derivative", "oracle:density correlator",
            "oracle:sz correlator", "oracle:sx correlator", "oracle:singles correlator", "oracle:doubles correlator", "oracle:response",
            "oracle:static response", "oracle:magnetic response", "oracle:sum rule", "type:greater", "type:lesser", "type:retarded",
            "type:advanced", "type:time-ordered", "separation:zero"]
TYPES = ["greater", "lesser", "retarded", "advanced", "time-ordered"]


def taps():
    return [(fg, n, None) for n in ("fg_kspace_gfns", "fg_realspace_gfn", "fg_corr", "fg_density_response", "fg_magnetic_response",
                                    "fg_singles_corr", "fg_doubles_corr", "fg_sz_corr", "fg_sx_corr")]


def gk(kind, x, beta, t):
    """Green's function of a level at energy x = e - mu"""
    f = fgas.fermi(beta, x)
    u = np.exp(-1j * x * t)
    gr, le = -1j * u * (1 - f), 1j * u * f
    if kind == "greater":
        return gr
    if kind == "lesser":
        return le
    if kind == "retarded":
        return (gr - le) if t >= 0 else 0 * u
    if kind == "advanced":
        return (le - gr) if t <= 0 else 0 * u
    return gr if t > 0 else le


def separation(ctx, n, dim, zero=0.2):
    rng = ctx.rng
    if rng.random() < zero:
        ctx.event("separation:zero")
        r = [0, 0]
    else:
        while True:
            r = [int(v) for v in rng.integers(-n + 1, n, 2)]
            if dim == "1d":
                r[1] = 0
            if r[0] or r[1]:
                break
    return tuple(r) if rng.random() < 0.5 else r


def time(rng, kind):
    ts = [float(rng.uniform(0, 5)), float(-rng.uniform(0, 5)), 1.0, -2]
    if kind != "time-ordered":
        ts += [0.0, 0]
    return gen.pick(rng, ts)


def green(ctx):
    rng = ctx.rng
    n, dim = (int(rng.integers(2, 20)), "1d") if rng.random() < 0.5 else (int(rng.integers(2, 7)), "2d")
    beta = gen.pick(rng, [0.0, 1.0, float(rng.uniform(0.1, 10)), 40.0, np.inf])
    mu = float(rng.normal() * 2)
    lev = fgas.levels(n, dim)
    if np.isinf(beta) and np.min(np.abs(lev - mu)) < 1e-3:
        mu = 0.123456
    kind = gen.pick(rng, TYPES)
    ctx.event("type:" + kind)
    t = time(rng, kind)
    r = separation(ctx, n, dim)
    h = fgas.hop_matrix(n, dim)
    e, v = np.linalg.eigh(h)
    full = lambda m: (v * gk(kind, e - m, beta, t)) @ v.T
    s = fgas.site(n, dim, r)
    g, dg = fg.fg_realspace_gfn(beta, mu, corr_index=r, time=t, nsites=n, dim=dim, type=kind)
    ctx.close(g, full(mu)[s, 0], f"real space Green's function: {kind}", shape=False, tol=1e-9)
    if kind != "time-ordered" and not np.isinf(beta):
        d = 1e-5
        ctx.close(dg, (full(mu + d)[s, 0] - full(mu - d)[s, 0]) / (2 * d), f"derivative with respect to chemical potential: {kind}", shape=False,
                  tol=1e-5 * max(1, beta))
    # arrays of parameters
    bs, ms = rng.uniform(0.1, 5, 3), rng.normal(size=3)
    which = int(rng.integers(3))
    if which == 0:
        bs = float(bs[0])
    elif which == 1:
        ms = float(ms[0])
    g, dg = fg.fg_realspace_gfn(bs, ms, corr_index=r, time=t, nsites=n, dim=dim, type=kind)
    bb, mm = np.broadcast_arrays(bs, ms)
    want = [((v * gk(kind, e - m, b, t)) @ v.T)[s, 0] for b, m in zip(bb, mm)]
    ctx.close(g, want, "real space Green's function of arrays of parameters", shape=False)
    # the functions are related: retarded and advanced from greater and lesser
    if t != 0:
        p = {k: fg.fg_realspace_gfn(beta, mu, corr_index=r, time=t, nsites=n, dim=dim, type=k)[0] for k in TYPES}
        ctx.close(p["greater"] - p["lesser"], p["retarded"] - p["advanced"], "real space Green's functions are related", shape=False)
        ctx.close(p["time-ordered"], p["greater"] if t > 0 else p["lesser"], "real space Green's function is time ordered", shape=False)
        minus = fg.fg_realspace_gfn(beta, mu, corr_index=[-r[0], -r[1]], time=-t, nsites=n, dim=dim, type="greater")[0]
        ctx.close(minus, -np.conj(p["greater"]), "real space Green's function is anti-hermitian", shape=False)
    # all separations
    if n <= 5:
        rs = [(x, 0) for x in range(n)] if dim == "1d" else [(x, y) for x in range(n) for y in range(n)]
        tot = sum(fg.fg_realspace_gfn(beta, mu, corr_index=q, time=t, nsites=n, dim=dim, type=kind)[0] for q in rs)
        e0 = -2.0 if dim == "1d" else -4.0
        ctx.close(tot, gk(kind, np.array(e0 - mu), beta, t), "sum rule: sum over separations is the zero momentum function", shape=False)
    ctx.raises(lambda: fg.fg_realspace_gfn(beta, mu, corr_index=r, time=t, nsites=n, dim=dim, type="other"), "unknown type is rejected")
    ctx.seen(n, dim, beta, mu, kind, t, r)
    ctx.describe(n=n, dim=dim, beta=beta, mu=mu, type=kind, time=t, separation=r)


def kspace(ctx):
    rng = ctx.rng
    dim = gen.pick(rng, ["1d", "2d"])
    beta = gen.pick(rng, [0.0, 1.0, float(rng.uniform(0.1, 10)), np.inf])
    mu = float(rng.normal() * 2)
    kind = gen.pick(rng, TYPES)
    ctx.event("type:" + kind)
    m = int(rng.integers(1, 6))
    if dim == "1d":
        ks = gen.pick(rng, [rng.uniform(-4, 4, m), float(rng.uniform(-4, 4)), np.array([0., np.pi, -np.pi / 2])])
        e = -2 * np.cos(np.atleast_1d(ks))
    else:
        ks = gen.pick(rng, [rng.uniform(-4, 4, (m, 2)), rng.uniform(-4, 4, 2), [[0., 0.], [np.pi, np.pi]]])
        kk = np.atleast_2d(ks)
        e = -2 * np.cos(kk[:, 0]) - 2 * np.cos(kk[:, 1])
    if rng.random() < 0.7 or e.size > 1:
        t = time(rng, kind)
        want = lambda mu_: gk(kind, e - mu_, beta, t)
    else:
        t = np.array([time(rng, kind) for _ in range(4)])
        want = lambda mu_: np.array([gk(kind, e[0] - mu_, beta, x) for x in t])
    g, dg = fg.fg_kspace_gfns(beta, mu, ks, t, kind, dim)
    ctx.close(g, want(mu), f"momentum space Green's function: {kind}", shape=False)
    if kind != "time-ordered" and not np.isinf(beta):
        d = 1e-5
        ctx.close(dg, (want(mu + d) - want(mu - d)) / (2 * d), f"derivative with respect to chemical potential: {kind}", shape=False,
                  tol=1e-5 * max(1, beta))
    ctx.seen(dim, beta, mu, kind, ks, t)
    ctx.describe(dim=dim, beta=beta, mu=mu, type=kind, momenta=np.shape(ks), times=np.shape(t))


def correlators(ctx):
    rng = ctx.rng
    n, dim = (int(rng.integers(2, 8)), "1d") if rng.random() < 0.6 else (int(rng.integers(2, 4)), "2d")
    beta = gen.pick(rng, [1.0, float(rng.uniform(0.05, 4)), float(rng.uniform(0.05, 4))])
    mu, md = float(rng.normal() * 2), float(rng.normal() * 2)
    r = separation(ctx, n, dim)
    if dim == "1d":
        r = type(r)((r[0], 0))
    up, dn = fgas.Fock(n, dim, beta, mu), fgas.Fock(n, dim, beta, md)
    i, j = fgas.site(n, dim, r), 0
    q = dict(nsites=n, dim=dim)
    cu = up.nn(i, j) - up.dens(i) * up.dens(j)
    cd = dn.nn(i, j) - dn.dens(i) * dn.dens(j)
    ctx.close(fg.fg_corr(beta, mu, r, **q), cu, "density correlator", shape=False)
    ctx.close(fg.fg_sz_corr(beta, mu, md, r, **q), cu + cd, "sz correlator", shape=False)
    # <d_i d_j> etc. factorize between the species, which do not interact
    dd = up.nn(i, j) * dn.nn(i, j)
    d0 = up.dens(0) * dn.dens(0)
    ctx.close(fg.fg_doubles_corr(beta, mu, md, r, **q), dd - d0 ** 2, "doubles correlator", shape=False)
    nu, nd = up.dens(0), dn.dens(0)
    # n_s = nu + nd - 2 nu nd on both sites
    ss = (up.nn(i, j) + nu * nd - 2 * up.nn(i, j) * nd + nd * nu + dn.nn(i, j) - 2 * nu * dn.nn(i, j)
          - 2 * up.nn(i, j) * nd - 2 * nu * dn.nn(i, j) + 4 * dd)
    s0 = nu + nd - 2 * nu * nd
    ctx.close(fg.fg_singles_corr(beta, mu, md, r, **q), ss - s0 ** 2, "singles correlator", shape=False)
    # 4 Sx_i Sx_j = (u+_i d_i + h.c.)(u+_j d_j + h.c.): <u+_i u_j><d_i d+_j> + <u_i u+_j><d+_i d_j>
    same = 1.0 if i == j else 0.0
    hu, hd = up.hop(i, j), dn.hop(i, j)
    sx = hu * (same - dn.hop(j, i)) + (same - up.hop(j, i)) * hd
    ctx.close(fg.fg_sx_corr(beta, mu, md, r, **q), sx, "sx correlator", shape=False)
    ctx.close(fg.fg_sx_corr(beta, mu, mu, r, **q), np.ravel(fg.fg_sz_corr(beta, mu, mu, r, **q)), "sx correlator equals sz without polarization", shape=False)
    # arrays
    b2 = np.array([beta, 0.7])
    f2 = fgas.Fock(n, dim, 0.7, mu)
    ctx.close(fg.fg_corr(b2, mu, r, **q), [cu, f2.nn(i, j) - f2.dens(0) ** 2], "density correlator of arrays", shape=False)
    ctx.close(fg.fg_corr(1.3, mu, [0, 0], nsites=n, dim=dim), (lambda x: x - x ** 2)(np.mean(fgas.fermi(1.3, fgas.levels(n, dim) - mu))),
              "density correlator on one site", shape=False)
    # fluctuations: sum of correlations is T times the compressibility
    rs = [(x, 0) for x in range(n)] if dim == "1d" else [(x, y) for x in range(n) for y in range(n)]
    tot = sum(np.ravel(fg.fg_corr(beta, mu, x, **q))[0] for x in rs)
    g = fgas.fermi(beta, fgas.levels(n, dim) - mu)
    ctx.close(tot, np.mean(g * (1 - g)), "sum rule: correlations add up to the compressibility", shape=False)
    ctx.seen(n, dim, beta, mu, md, r)
    ctx.describe(n=n, dim=dim, beta=beta, mu=mu, mu_dn=md, separation=r)


def response(ctx):
    rng = ctx.rng
    n, dim = (int(rng.integers(2, 8)), "1d") if rng.random() < 0.6 else (int(rng.integers(2, 4)), "2d")
    beta = gen.pick(rng, [1.0, float(rng.uniform(0.05, 4)), float(rng.uniform(0.05, 4))])
    mu = float(rng.normal() * 2)
    m = rng.integers(-n, n + 1, 2)
    q = 2 * np.pi * m / n
    static = rng.random() < 0.35
    om, eta = (0.0, 0.0) if static else (float(gen.pick(rng, [0.0, rng.normal() * 3])), float(rng.uniform(0.05, 1)))
    f = fgas.Fock(n, dim, beta, mu)
    if dim == "1d":
        ph = np.exp(1j * q[0] * np.arange(n))
        kq = gen.pick(rng, [q[:1], q, float(q[0])])
    else:
        x, y = np.divmod(np.arange(n * n), n)
        ph = np.exp(1j * (q[0] * x + q[1] * y))
        kq = gen.pick(rng, [q, q.tolist()])
    rho = f.v.T @ ((ph @ f.occ)[:, None] * f.v)  # <a| rho_q |b>
    w = np.abs(rho.T) ** 2  # [b, a] = |<a|rho_q|b>|^2
    de = f.e[:, None] - f.e[None, :]
    dp = f.p[:, None] - f.p[None, :]
    if static:
        near = np.abs(de) < 1e-9
        term = np.where(near, -beta * f.p[:, None], dp / np.where(near, 1, de))
        chi = np.sum(w * term) / f.nl
        if np.all(m % n == 0) if dim == "2d" else m[0] % n == 0:  # conserved: only fluctuations respond
            chi += beta * float(f.diag @ f.occ.sum(0)) ** 2 / f.nl
    else:
        chi = np.sum(w * dp / (om + de + 1j * eta)) / f.nl
    re, im = fg.fg_density_response(beta, mu, kq, omega=om, eta=eta, nsites=n, dim=dim)
    ctx.close(re, np.real(chi), ("static response" if static else "response") + " real part", shape=False, tol=1e-8)
    ctx.close(im, np.imag(chi), ("static response" if static else "response") + " imaginary part", shape=False, tol=1e-8)
    r2, i2 = fg.fg_magnetic_response(beta, mu, kq, omega=om, eta=eta, nsites=n, dim=dim)
    ctx.close([np.ravel(r2)[0], np.ravel(i2)[0]], [np.real(chi), np.imag(chi)], "magnetic response", tol=1e-8)
    # arrays, larger lattice: sum over single particle transitions
    n = int(rng.integers(4, 24)) if dim == "1d" else int(rng.integers(3, 9))
    q = 2 * np.pi * rng.integers(0, n, 2) / n
    h = fgas.hop_matrix(n, dim)
    e, v = np.linalg.eigh(h)
    pos = np.arange(n) if dim == "1d" else None
    ph = np.exp(1j * q[0] * pos) if dim == "1d" else np.exp(1j * (q[0] * np.divmod(np.arange(n * n), n)[0] + q[1] * np.divmod(np.arange(n * n), n)[1]))
    one = np.abs(v.T @ (ph[:, None] * v)).T ** 2
    shp = gen.pick(rng, [(2,), (2, 2)])
    bs, ms = rng.uniform(0.1, 5, shp), rng.normal(size=shp)
    which = int(rng.integers(3))
    if which == 0:
        bs = float(bs.flat[0])
    elif which == 1:
        ms = float(ms.flat[0])
    eta = float(rng.uniform(0.05, 1))

    def lind(b, mm):
        ff = fgas.fermi(b, e - mm)
        return np.sum(one * (ff[:, None] - ff[None, :]) / (om + e[:, None] - e[None, :] + 1j * eta)) / e.size
    want = np.vectorize(lind, otypes=[complex])(bs, ms)
    re, im = fg.fg_density_response(bs, ms, q, omega=om, eta=eta, nsites=n, dim=dim)
    ctx.close(np.asarray(re) + 1j * np.asarray(im), want, "response of arrays of parameters", tol=1e-8)
    ctx.seen(n, dim, beta, mu, m, om, eta)
    ctx.describe(n=n, dim=dim, beta=beta, mu=mu, q=q, omega=om, eta=eta)


SCENARIOS = {"green": (green, 250, 2500), "kspace": (kspace, 250, 2500), "correlators": (correlators, 80, 1000), "response": (response, 80, 1000)}
