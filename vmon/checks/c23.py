"""C23: imaginary time and frequency Green's functions and linear response transforms."""
import numpy as np
from vmon import fgas, gen

gf = gen.M["greens_fns"]
RULE = ("random spectral functions on random (also non-uniform) frequency grids, temperatures, times and level energies: transforms are "
        "compared with an independent quadrature and with closed forms for free levels; transforms and their kernels, and the two directions of "
        "the Fourier transform, must agree. Distinct by grids and data.")
ASSUMPTIONS = ["beta times frequency below 500", "imaginary time functions of free fermions away from zero time (they jump there)",
               "free boson functions are not implemented by the library"]
REQUIRED = ["oracle:Matsubara frequencies", "oracle:imaginary frequency function", "oracle:imaginary time function", "oracle:frequency kernel",
            "oracle:time kernel", "oracle:free level", "oracle:Fourier transform", "oracle:spectral function", "oracle:susceptibility",
            "oracle:response in time", "oracle:boundary", "stat:fermion", "stat:boson", "grid:uniform", "grid:random"]


def taps():
    return [(gf, n, None) for n in ("get_matsubara_frqs", "get_grnfn_imagfrq_spectralfn", "get_grnfn_imagtime_spectralfn",
                                    "get_grnfn_imagfrq_spectralfn_kernel", "get_grnfn_imagtime_spectralfn_kernel", "grnfn_imagtime_ft",
                                    "grnfn_imagfrq_ft", "get_noninteracting_gfn_tau", "get_noninteracting_gfn_imagfrq",
                                    "get_noninteracting_spectral_fn", "chi_hydro", "field_snap_off_w", "phi_t", "obs_kt")]


def quad(y, x):
    y, x = np.asarray(y), np.asarray(x, float)
    return sum(0.5 * (y[..., k] + y[..., k + 1]) * (x[k + 1] - x[k]) for k in range(x.size - 1))


def grid(ctx, lo, hi, n):
    rng = ctx.rng
    if rng.random() < 0.5:
        ctx.event("grid:uniform")
        return np.linspace(lo, hi, n)
    ctx.event("grid:random")
    return np.sort(rng.uniform(lo, hi, n))


def matsubara(ctx):
    rng = ctx.rng
    beta = float(gen.pick(rng, [1.0, rng.uniform(0.05, 20), 3.7]))
    stat = gen.pick(rng, ["fermion", "boson"])
    ctx.event("stat:" + stat)
    k = int(rng.integers(0, 12))
    base = np.pi / beta
    top = base * (2 * k + (1 if stat == "boson" else 0)) + base * float(rng.uniform(0.1, 0.9)) * 2 - base
    # frequencies strictly below the cutoff
    m = np.arange(-60, 61)
    w = base * (2 * m + 1) if stat == "fermion" else base * 2 * m
    if top <= base * 0.05:
        top = base * 1.5
    want = w[np.abs(w) < top]
    got = gf.get_matsubara_frqs(beta, top, stat)
    ctx.close(got, np.sort(want), f"Matsubara frequencies: {stat} beta {beta} cutoff {top}")
    ctx.raises(lambda: gf.get_matsubara_frqs(beta, top, "anyon"), "unknown statistics is rejected")
    ctx.seen(beta, stat, top)
    ctx.describe(beta=beta, statistics=stat, cutoff=top, found=len(got))


def spectral(ctx):
    rng = ctx.rng
    stat = gen.pick(rng, ["fermion", "boson"])
    ctx.event("stat:" + stat)
    beta = float(gen.pick(rng, [1.0, rng.uniform(0.1, 10)]))
    n = int(rng.integers(2, 60))
    om = grid(ctx, -8, 8, n)
    if stat == "boson" and np.min(np.abs(om)) < 1e-3:
        om = om + 0.01
    a = rng.normal(size=n)
    if rng.random() < 0.5:
        a = gf.get_noninteracting_spectral_fn(om, float(rng.normal()), 0.7)
    wn = gf.get_matsubara_frqs(beta, 12 * np.pi / beta, "fermion")
    s = 1 if stat == "fermion" else -1
    want = quad(a[None, :] / (1j * wn[:, None] - om[None, :]), om) / (2 * np.pi)
    got = gf.get_grnfn_imagfrq_spectralfn(wn, om, a)
    ctx.close(got, want, "imaginary frequency function of a spectral function")
    k = gf.get_grnfn_imagfrq_spectralfn_kernel(wn, om, stat)
    ctx.check(np.shape(k) == (wn.size, om.size), "frequency kernel shape")
    ctx.close(k @ a, want, "frequency kernel is equivalent to the integral")
    ctx.close(np.conj(got[::-1]), got, "imaginary frequency function of a real spectrum is conjugate symmetric")
    taus = np.sort(rng.uniform(0, beta, int(rng.integers(1, 8))))
    taus = np.concatenate(([0.0], taus, [beta]))
    want = -quad(a[None, :] * np.exp(-taus[:, None] * om[None, :]) / (1 + s * np.exp(-beta * om[None, :])), om) / (2 * np.pi)
    got = gf.get_grnfn_imagtime_spectralfn(taus, beta, om, a, stat)
    ctx.close(got, want, f"imaginary time function of a spectral function: {stat}")
    k = gf.get_grnfn_imagtime_spectralfn_kernel(taus, beta, om, stat)
    ctx.check(np.shape(k) == (taus.size, om.size), "time kernel shape")
    ctx.close(k @ a, want, f"time kernel is equivalent to the integral: {stat}")
    # (anti)commutator at equal times: G(0+) -+ G(0-) is minus the total weight
    ctx.close(got[0] + s * got[-1], -quad(a, om) / (2 * np.pi), f"boundary values add up to the spectral weight: {stat}", shape=False)
    ctx.raises(lambda: gf.get_grnfn_imagtime_spectralfn(taus, beta, om, a, "anyon"), "unknown statistics is rejected")
    ctx.raises(lambda: gf.get_grnfn_imagtime_spectralfn_kernel(taus, beta, om, "anyon"), "unknown statistics is rejected")
    ctx.seen(stat, beta, om, a)
    ctx.describe(statistics=stat, beta=beta, points=n, taus=len(taus))


def free(ctx):
    rng = ctx.rng
    beta = float(gen.pick(rng, [1.0, rng.uniform(0.1, 8)]))
    eps = float(gen.pick(rng, [0.0, rng.normal() * 2, rng.normal()]))
    f, hole = float(fgas.fermi(beta, eps)), float(fgas.fermi(beta, -eps))
    taus = np.concatenate((np.sort(rng.uniform(0.01, 1, 6)) * beta, -np.sort(rng.uniform(0.01, 1, 6)) * beta))
    got = gf.get_noninteracting_gfn_tau(taus, eps, beta, "fermion")
    ctx.close(got, np.where(taus > 0, -np.exp(-eps * taus) * hole, np.exp(-eps * taus) * f), "free level in imaginary time")
    pos = taus[taus > 0]
    pos = pos[pos < beta * 0.999]
    ctx.close(gf.get_noninteracting_gfn_tau(pos - beta, eps, beta, "fermion"), -gf.get_noninteracting_gfn_tau(pos, eps, beta, "fermion"),
              "boundary condition is antiperiodic")
    # low temperature, deeply occupied or empty level
    x = float(gen.pick(rng, [1, -1]) * rng.uniform(10, 80))
    tl = beta * rng.uniform(0.01, 0.99, 5)
    ctx.close(gf.get_noninteracting_gfn_tau(tl, x / beta, beta, "fermion"), -np.exp(-np.log1p(np.exp(-abs(x))) - x * tl / beta - (0 if x > 0 else -x)),
              "free level at low temperature")
    top = float(rng.uniform(2, 20)) * np.pi / beta
    g, w = gf.get_noninteracting_gfn_imagfrq(top, eps, beta, "fermion")
    ctx.close(w, gf.get_matsubara_frqs(beta, top, "fermion"), "free level frequencies")
    ctx.check(np.all(np.abs(w) < top + 1e-9) and np.allclose(np.round((w * beta / np.pi - 1) / 2), (w * beta / np.pi - 1) / 2), "free level frequencies are odd")
    ctx.close(g, 1 / (1j * w - eps), "free level in imaginary frequency")
    # Fourier transform from time to frequency, error of the quadrature is second order
    m = int(rng.integers(400, 900))
    tt = np.linspace(0, beta, m)
    tt[0] = 1e-12 * beta
    gt = gf.get_noninteracting_gfn_tau(tt, eps, beta, "fermion")
    w3 = w[np.abs(w) < 8 * np.pi / beta]
    bound = (beta / m) ** 2 * beta * (np.max(np.abs(w3)) + abs(eps) + 1) ** 2 * np.exp(abs(eps) * 0) + 1e-6
    ctx.close(gf.grnfn_imagtime_ft(w3, tt, gt, beta), 1 / (1j * w3 - eps), "Fourier transform of a free level to frequency", tol=bound)
    # and back
    big = (2 * 3000) * np.pi / beta
    g, w = gf.get_noninteracting_gfn_imagfrq(big, eps, beta, "fermion")
    tau = beta * rng.uniform(0.2, 0.8, 3)
    ctx.close(gf.grnfn_imagfrq_ft(tau, w, g, beta), gf.get_noninteracting_gfn_tau(tau, eps, beta, "fermion"),
              "Fourier transform of a free level to time", tol=2e-3)
    # spectral function
    eta = float(rng.uniform(0.05, 1))
    om = np.linspace(eps - 400 * eta, eps + 400 * eta, 40001)
    a = gf.get_noninteracting_spectral_fn(om, eps, eta)
    ctx.close(a, 2 * eta / (eta ** 2 + (om - eps) ** 2), "spectral function of a free level")
    ctx.close(quad(a[None, :], om)[0] / (2 * np.pi), 2 / np.pi * np.arctan(400), "spectral function is normalized", tol=1e-5, shape=False)
    wn = gf.get_matsubara_frqs(beta, 9 * np.pi / beta, "fermion")
    ctx.close(gf.get_grnfn_imagfrq_spectralfn(wn, om, a), 1 / (1j * (wn + eta * np.sign(wn)) - eps), "free level from its spectral function", tol=1e-2)
    ctx.seen(beta, eps, taus)
    ctx.describe(beta=beta, energy=eps, eta=eta)


def fourier(ctx):
    rng = ctx.rng
    beta = float(gen.pick(rng, [1.0, rng.uniform(0.1, 8)]))
    stat = gen.pick(rng, ["fermion", "boson"])
    ctx.event("stat:" + stat)
    w = gf.get_matsubara_frqs(beta, float(rng.uniform(1.2, 15)) * np.pi / beta, stat)
    inner = np.sort(rng.uniform(0, beta, int(rng.integers(1, 30))))
    taus = np.concatenate(([0.0], inner, [beta]))
    g = rng.normal(size=taus.size) + (1j * rng.normal(size=taus.size) if rng.random() < 0.5 else 0)
    want = quad(g[None, :] * np.exp(1j * w[:, None] * taus[None, :]), taus)
    ctx.close(gf.grnfn_imagtime_ft(w, taus, g, beta), want, "Fourier transform to frequency")
    # times outside of [0, beta] are ignored
    out = np.concatenate((-np.sort(rng.uniform(0.01, 1, 3))[::-1] * beta, taus, beta * (1 + np.sort(rng.uniform(0.01, 1, 2)))))
    gg = np.concatenate((rng.normal(size=3), g, rng.normal(size=2)))
    ctx.close(gf.grnfn_imagtime_ft(w, out, gg, beta), want, "Fourier transform ignores times outside of the interval")
    gw = rng.normal(size=w.size) + 1j * rng.normal(size=w.size)
    tt = rng.uniform(-beta, beta, int(rng.integers(1, 9)))
    ctx.close(gf.grnfn_imagfrq_ft(tt, w, gw, beta), [sum(x * np.exp(-1j * y * t) for x, y in zip(gw, w)) / beta for t in tt],
              "Fourier transform to time")
    # a finite number of frequencies on a uniform grid: the two directions are inverse to each other
    k = w.size + 2 + int(rng.integers(0, 9))
    tu = beta * np.arange(k + 1) / k
    gt = gf.grnfn_imagfrq_ft(tu, w, gw, beta)
    ctx.close(gf.grnfn_imagtime_ft(w, tu, gt, beta), gw, f"Fourier transform round trip: {stat}", tol=1e-8)
    ctx.seen(beta, stat, taus, gw)
    ctx.describe(beta=beta, statistics=stat, frequencies=w.size, times=taus.size)


def linear_response(ctx):
    rng = ctx.rng
    n = int(rng.integers(2, 40))
    ws = grid(ctx, -6, 6, n)
    k, chi0, d0 = float(rng.uniform(0.1, 3)), float(rng.uniform(0.2, 4)), float(rng.uniform(0.1, 3))
    d2 = gen.pick(rng, [0, float(rng.uniform(-0.005, 1))])
    gam = gen.pick(rng, [np.inf, float(rng.uniform(0.2, 5))])
    rate = d0 * k ** 2 + d2 * k ** 4
    chi = gf.chi_hydro(ws, k, chi0, d0, d2=d2, gamma=gam)
    ctx.close(chi, chi0 * rate * gam / (rate * gam - 1j * ws * gam - ws ** 2) if np.isfinite(gam) else chi0 * rate / (rate - 1j * ws),
              "susceptibility of damped diffusion")
    ctx.close(gf.chi_hydro(np.array([0.]), k, chi0, d0, d2=d2, gamma=gam), [chi0], "susceptibility is static at zero frequency")
    ctx.close(gf.chi_hydro(-ws, k, chi0, d0, d2=d2, gamma=gam), np.conj(chi), "susceptibility is conjugate symmetric")
    ctx.check(np.all(np.imag(chi) * ws >= -1e-12), "susceptibility is dissipative")
    ctx.close(gf.chi_hydro(ws, k, chi0, d0, d2=d2, gamma=1e13), gf.chi_hydro(ws, k, chi0, d0, d2=d2), "susceptibility without relaxation", tol=1e-8)
    ho, eta = float(rng.normal()), float(rng.uniform(0.05, 1))
    fw = gf.field_snap_off_w(ws, ho, eta)
    ctx.close(fw, [ho / (1j * w + eta) for w in ws], "field in frequency")
    ts = rng.uniform(-4, 4, int(rng.integers(1, 8)))
    ker = np.exp(-1j * ts[:, None] * ws[None, :])
    ctx.close(gf.phi_t(ts, ws, chi), quad(ker * chi[None, :], ws) / (2 * np.pi), "response in time")
    ctx.close(gf.obs_kt(ts, ws, chi, fw), quad(ker * (chi * fw)[None, :], ws) / (2 * np.pi), "response in time to a field")
    ctx.close(gf.obs_kt(ts, ws, chi, np.ones(n)), gf.phi_t(ts, ws, chi), "response in time to an impulse")
    ctx.seen(ws, k, chi0, d0, d2, gam)
    ctx.describe(points=n, k=k, gamma=gam)


SCENARIOS = {"matsubara": (matsubara, 150, 2000), "spectral": (spectral, 150, 2000), "free": (free, 80, 1000), "fourier": (fourier, 150, 2000),
             "linear_response": (linear_response, 120, 1500)}
