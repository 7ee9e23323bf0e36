"""C21: thermodynamics of the free Fermi gas."""
import numpy as np
from vmon import fgas, gen
from vmon.core import dense

fg = gen.M["fermi_gas"]
RULE = ("random temperatures (zero and infinite included), chemical potentials, lattice sizes and dimensions: occupation, density, doubles, "
        "singles and compressibility are compared with diagonalization of tight-binding matrices in real space and with the thermal state "
        "of the library's own many-body Hamiltonian; the density to chemical potential map must invert. Distinct by parameters.")
ASSUMPTIONS = ["at least 2 sites per dimension", "zero temperature only away from degenerate points (no level at the chemical potential); "
               "compressibility and inversion only at non-zero temperature"]
REQUIRED = ["oracle:occupation", "oracle:derivative", "oracle:allowed momenta", "oracle:density", "oracle:density from exact diagonalization",
            "oracle:chemical potential", "oracle:compressibility", "oracle:singles", "oracle:doubles", "oracle:density of states",
            "oracle:energy spacing", "beta:zero", "beta:infinite", "shape:array"]


def taps():
    return [(fg, n, None) for n in ("fermi", "fermi_derivatives", "get_allowed_kvects", "get_energy_spacing", "get_dos", "get_dos2", "fg_density",
                                    "fg_mu", "fg_compressibility", "fg_singles", "fg_doubles")]


def beta(ctx, zero=True, inf=True, top=30.0):
    rng = ctx.rng
    r = rng.random()
    if zero and r < 0.12:
        ctx.event("beta:zero")
        return gen.pick(rng, [0.0, 0])
    if inf and r < 0.27:
        ctx.event("beta:infinite")
        return np.inf
    return gen.pick(rng, [1.0, 0.1, float(rng.uniform(0.05, 5)), float(rng.uniform(0.05, top)), 2])


def lattice(rng, big=False):
    if rng.random() < 0.5:
        return int(rng.integers(2, 60 if big else 30)), "1d"
    return int(rng.integers(2, 12 if big else 8)), "2d"


def pick_mu(rng, n, dim, b):
    lev = fgas.levels(n, dim)
    for _ in range(50):
        mu = gen.pick(rng, [0.0, float(rng.uniform(-6, 6)), float(rng.normal()), -4.0, 4, 1])
        if not np.isinf(b) or np.min(np.abs(lev - mu)) > 1e-3:
            return mu
    return 7.3


def occupation(ctx):
    rng = ctx.rng
    b = beta(ctx, top=500.)
    mu = float(rng.normal() * 3)
    e = rng.normal(size=gen.pick(rng, [(), (5,), (3, 4)])) * 5
    got = fg.fermi(b, mu, e)
    ctx.close(got, fgas.fermi(b, np.asarray(e) - mu), "occupation is the Fermi function", shape=False)
    ctx.check(np.shape(got) == np.atleast_1d(e).shape, "occupation has the shape of the energies")
    ctx.close(fg.fermi(b, -mu, -np.asarray(e)), 1 - np.asarray(got), "occupation of holes", shape=False)
    bs, ms = np.array([b, 0.3, 2.0]), rng.normal(size=3)
    grid = fg.fermi(bs[:, None, None], ms[None, :, None], np.ravel(e)[None, None, :])
    want = np.array([[[fgas.fermi(x, q - m) for q in np.ravel(e)] for m in ms] for x in bs])
    ctx.close(grid, want, "occupation broadcasts")
    if not np.isinf(b):
        f = fgas.fermi(b, np.asarray(e) - mu)
        g = f * (1 - f)
        dmu, de, db = fg.fermi_derivatives(b, mu, e)
        ctx.close(dmu, b * g, "derivative with respect to chemical potential", shape=False)
        ctx.close(de, -b * g, "derivative with respect to energy", shape=False)
        ctx.close(db, -(np.asarray(e) - mu) * g, "derivative with respect to inverse temperature", shape=False)
        h = 1e-5
        if 0.05 < b < 5:
            ctx.close(db, (fg.fermi(b + h, mu, e) - fg.fermi(b - h, mu, e)) / (2 * h), "derivative agrees with differences", tol=1e-5, shape=False)
            ctx.close(dmu, (fg.fermi(b, mu + h, e) - fg.fermi(b, mu - h, e)) / (2 * h), "derivative agrees with differences", tol=1e-5, shape=False)
    ctx.seen(b, mu, e)
    ctx.describe(beta=b, mu=mu, energies=np.shape(e))


def momenta(ctx):
    rng = ctx.rng
    nx, ny = int(rng.integers(1, 13)), int(rng.integers(1, 13))
    mode = gen.pick(rng, ["balanced", "positive"])
    kx, ky, dx, dy = fg.get_allowed_kvects(nx, ny, mode)
    ctx.check(kx.shape == ky.shape == (ny, nx), "allowed momenta have the shape of the lattice")
    ctx.check(np.allclose(kx, kx[0][None, :]) and np.allclose(ky, ky[:, :1]), "allowed momenta form a grid")
    ctx.close([dx, dy], [2 * np.pi / nx, 2 * np.pi / ny], "allowed momenta spacing")
    lo, hi = (-np.pi, np.pi) if mode == "balanced" else (0, 2 * np.pi)
    for k, n in ((kx[0], nx), (ky[:, 0], ny)):
        ctx.check(np.all(k > lo - 1e-9) and np.all(k < hi - 1e-9), f"allowed momenta lie in one zone: {mode}")
        ctx.check(np.all(np.diff(k) > 0), "allowed momenta are sorted")
        m = k * n / (2 * np.pi)
        ctx.close(np.sort(np.round(m).astype(int) % n), np.arange(n), "allowed momenta are all the multiples of 2 pi over the length")
        ctx.close(m, np.round(m), "allowed momenta are multiples of 2 pi over the length")
    # the spectrum of the tight binding model
    if nx > 1 and ny > 1:
        es = np.sort((-2 * np.cos(kx) - 2 * np.cos(ky)).ravel())
        h = np.kron(fgas.hop_matrix(nx, "1d"), np.eye(ny)) + np.kron(np.eye(nx), fgas.hop_matrix(ny, "1d"))
        ctx.close(es, np.linalg.eigvalsh(h), "allowed momenta reproduce the tight binding spectrum", tol=1e-8)
    ctx.raises(lambda: fg.get_allowed_kvects(nx, ny, "other"), "unknown mode is rejected")
    # energy spacings
    e = np.round(rng.normal(size=gen.pick(rng, [(6,), (3, 4)])), 1)
    u = np.unique(e)
    if u.size > 1:
        d = np.diff(u)
        ctx.close(fg.get_energy_spacing(e), [d.min(), d.max(), d.mean()], "energy spacing of distinct levels", tol=1e-8)
    ctx.seen(nx, ny, mode)
    ctx.describe(nx=nx, ny=ny, mode=mode)


def thermo(ctx):
    rng = ctx.rng
    n, dim = lattice(rng)
    b = beta(ctx)
    mu = pick_mu(rng, n, dim, b)
    lev = fgas.levels(n, dim)
    f = lambda m: float(np.mean(fgas.fermi(b, lev - m)))
    got = fg.fg_density(b, mu, nsites=n, dim=dim)
    ctx.close(got, [f(mu)], "density of a lattice gas", shape=False)
    ctx.close(got, [fgas.density_matrix(n, dim, b, mu)[0, 0]], "density from real space", shape=False)
    mu2 = pick_mu(rng, n, dim, b)
    nu, nd = f(mu), f(mu2)
    ctx.close(fg.fg_doubles(b, mu, mu2, nsites=n, dim=dim), [nu * nd], "doubles of independent species", shape=False)
    ctx.close(fg.fg_singles(b, mu, mu2, nsites=n, dim=dim), [nu * (1 - nd) + nd * (1 - nu)], "singles of independent species", shape=False)
    if not np.isinf(b):
        g = fgas.fermi(b, lev - mu)
        ctx.close(fg.fg_compressibility(b, mu, nsites=n, dim=dim), [np.mean(b * g * (1 - g))], "compressibility is the derivative of density", shape=False)
        if n % 2 == 0:
            ctx.close(np.asarray(fg.fg_density(b, -np.asarray(mu), nsites=n, dim=dim)) + got, [1.0], "density is particle-hole symmetric", shape=False)
    # arrays of parameters
    ctx.event("shape:array")
    shp = gen.pick(rng, [(3,), (2, 2), (4, 1)])
    which = int(rng.integers(3))
    ms = np.array([pick_mu(rng, n, dim, b) for _ in range(int(np.prod(shp)))], float).reshape(shp) if which != 1 else float(mu)
    bs = rng.uniform(0.1, 5, shp) if which != 0 else float(b)
    want = np.vectorize(lambda x, m: np.mean(fgas.fermi(x, lev - m)))(bs, ms)
    got = fg.fg_density(bs, ms, nsites=n, dim=dim)
    ctx.close(got, want, "density of arrays of parameters")
    d2 = fg.fg_doubles(bs, ms, ms, nsites=n, dim=dim)
    ctx.close(d2, want ** 2, "doubles of arrays of parameters")
    ctx.close(fg.fg_singles(bs, ms, ms, nsites=n, dim=dim), 2 * want * (1 - want), "singles of arrays of parameters")
    if which != 0 or not np.isinf(b):
        want = np.vectorize(lambda x, m: np.mean(x * fgas.fermi(x, lev - m) * (1 - fgas.fermi(x, lev - m))))(bs, ms)
        ctx.close(fg.fg_compressibility(bs, ms, nsites=n, dim=dim), want, "compressibility of arrays of parameters")
    ctx.raises(lambda: fg.fg_density(np.ones(3), np.ones(2), nsites=n, dim=dim), "parameters of different sizes are rejected")
    ctx.raises(lambda: fg.fg_density(1., 0., nsites=n, dim="3d"), "unknown dimension is rejected")
    ctx.seen(n, dim, b, mu, mu2, shp, which)
    ctx.describe(n=n, dim=dim, beta=b, mu=mu, array=shp)


def inverse(ctx):
    rng = ctx.rng
    n, dim = lattice(rng)
    b = beta(ctx, zero=False, inf=False, top=15.)
    lev = fgas.levels(n, dim)
    dens = gen.pick(rng, [0.5, float(rng.uniform(0.01, 0.99)), float(rng.uniform(0.2, 0.8)), 1e-3, 0.999])
    mu = np.asarray(fg.fg_mu(b, dens, nsites=n, dim=dim))
    ctx.check(mu.size == 1 and np.isfinite(mu).all(), "chemical potential is a number")
    ctx.close([np.mean(fgas.fermi(b, lev - mu.item()))], [dens], "chemical potential gives back the density", tol=1e-7)
    if n % 2 == 0 and dens == 0.5:
        g = np.mean(b * fgas.fermi(b, lev) * (1 - fgas.fermi(b, lev)))
        ctx.check(abs(mu.item()) * g < 1e-7, "chemical potential at half filling")
    shp = gen.pick(rng, [(3,), (2, 2)])
    ds = rng.uniform(0.1, 0.9, shp)
    bs = b if rng.random() < 0.5 else rng.uniform(0.2, 5, shp)
    if rng.random() < 0.3 and np.ndim(bs):
        ds = dens
    got = np.asarray(fg.fg_mu(bs, ds, nsites=n, dim=dim))
    want_b, want_d = np.broadcast_arrays(bs, ds)
    ctx.check(got.shape == want_d.shape, "chemical potential of arrays has their shape")
    back = np.vectorize(lambda x, m: np.mean(fgas.fermi(x, lev - m)))(want_b, got)
    ctx.close(back, want_d, "chemical potential of arrays gives back the densities", tol=1e-7)
    for bad in (0.0, 1.0, 1.2, -0.1):
        ctx.raises(lambda: fg.fg_mu(b, bad, nsites=n, dim=dim), "density outside (0, 1) is rejected", exc=ValueError)
    ctx.seen(n, dim, b, dens)
    ctx.describe(n=n, dim=dim, beta=b, density=dens, mu=mu.item())


def exact(ctx):
    """the same numbers from the library's many-body models"""
    rng = ctx.rng
    if rng.random() < 0.5:
        n, dim = int(rng.integers(3, 8)), "1d"
        geom = gen.Geometry.createSquareGeometry(n, 1, 0, 0, bc1_open=False, bc2_open=True)
    else:
        n, dim = 3, "2d"
        geom = gen.Geometry.createSquareGeometry(3, 3, 0, 0, bc1_open=False, bc2_open=False)
    b = float(rng.uniform(0.1, 4))
    mu = float(rng.normal() * 2)
    model = gen.fermions(geom, ts=1.0, us_interspecies=0, mus=mu, nspecies=1)
    h = model.createH()
    e, v = model.diagH(h)
    i = int(rng.integers(geom.nsites))
    op = model.get_single_site_op(i, 0, model.n_op, format="boson")
    got = model.get_exp_vals_thermal(v, op, e, 1 / b)
    ctx.close(fg.fg_density(b, mu, nsites=n, dim=dim), [np.real(got)], "density from exact diagonalization", shape=False, tol=1e-8)
    ntot = sum(model.get_single_site_op(j, 0, model.n_op, format="boson") for j in range(geom.nsites))
    n1 = np.real(model.get_exp_vals_thermal(v, ntot, e, 1 / b))
    n2 = np.real(model.get_exp_vals_thermal(v, ntot @ ntot, e, 1 / b))
    ctx.close(fg.fg_compressibility(b, mu, nsites=n, dim=dim), [b * (n2 - n1 ** 2) / geom.nsites], "compressibility from number fluctuations",
              shape=False, tol=1e-7)
    ctx.seen(n, dim, b, mu)
    ctx.describe(n=n, dim=dim, beta=b, mu=mu)


def dos(ctx):
    rng = ctx.rng
    es = rng.normal(size=gen.pick(rng, [(50,), (8, 9)])) * 2
    k = int(rng.integers(1, 12))
    edges = np.sort(rng.uniform(-5, 5, k + 1))
    got = fg.get_dos(es, edges)
    r = np.ravel(es)
    want = [(np.sum((r >= edges[j]) & ((r < edges[j + 1]) | ((j == k - 1) & (r <= edges[j + 1])))) / r.size) / (edges[j + 1] - edges[j])
            for j in range(k)]
    ctx.close(got, want, "density of states counts levels per bin width")
    n, dim = gen.pick(rng, [(60, "2d"), (97, "2d"), (int(rng.integers(20, 60)), "2d"), (300, "1d"), (int(rng.integers(10, 400)), "1d")])
    d, e = fg.get_dos2(n, dim)
    ctx.check(np.shape(d) == np.shape(e) and len(e) % 2 == 1, "density of states has a value per bin")
    lim = 2.0 if dim == "1d" else 4.0
    emax = -2 * np.cos(2 * np.pi / n * (n // 2)) * (1 if dim == "1d" else 2)
    width = (emax + lim) / len(e)
    ctx.close(np.sum(d) * width, 1.0, "density of states is normalized", tol=1e-9)
    ctx.close(e, -lim + width * (np.arange(len(e)) + 0.5), "density of states bins cover the band", tol=1e-9)
    ctx.close(np.sum(d * e) * width, 0.0, "density of states has zero mean", tol=1.01 * width / 2)
    ctx.seen(es, edges, n, dim)
    ctx.describe(levels=es.size, bins=k, n=n, dim=dim)


SCENARIOS = {"occupation": (occupation, 200, 3000), "momenta": (momenta, 120, 1500), "thermo": (thermo, 200, 3000),
             "inverse": (inverse, 80, 1000), "exact": (exact, 24, 300), "dos": (dos, 60, 800)}
