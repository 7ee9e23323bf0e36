"""Random workloads: geometries, operators, models."""
import numpy as np
import scipy.sparse as sp

from . import load, oracle

M = load.repo_modules()
Geometry = M["ed_geometry"].Geometry
Lattice = M["ed_geometry"].Lattice
fermions = M["ed_fermions"].fermions
spinSystem = M["ed_spins"].spinSystem
sym = M["ed_symmetry"]


def pick(rng, seq, p=None):
    return seq[int(rng.choice(len(seq), p=p))]


def phase(rng, allow=True):
    """twist angles, including special values and values outside of [0, 2 pi)"""
    if not allow:
        return 0.0
    return float(pick(rng, [0.0, 0.0, np.pi, -np.pi / 2, 2 * np.pi, float(rng.uniform(-7, 7)),
                            float(rng.uniform(-7, 7))]))


def polyomino(rng, n, ox=0, oy=0):
    cells = [(0, 0)]
    while len(cells) < n:
        x, y = cells[int(rng.integers(len(cells)))]
        dx, dy = oracle.NBR[int(rng.integers(4))]
        if (x + dx, y + dy) not in cells:
            cells.append((x + dx, y + dy))
    return [(x + ox, y + oy) for x, y in cells]


def rand_adj(rng, n):
    a = np.triu(rng.integers(0, 2, (n, n)), 1)
    return a + a.T


def geometry(rng, nmax, nmin=1, twist=True, kinds=None, shuffle=True):
    """A random geometry with nmin <= nsites <= nmax. Returns (geometry, description)."""
    kinds = kinds or ["chain", "square", "tilted", "triangle", "hexagonal", "polygon", "cluster", "graph"]
    for _ in range(200):
        kind = pick(rng, kinds)
        o1, o2 = bool(rng.integers(2)), bool(rng.integers(2))
        if kind == "chain":
            n = int(rng.integers(nmin, nmax + 1))
            if rng.random() < 0.5:
                dims, opens = (n, 1), (o1 or n == 1, True)
            else:
                dims, opens = (1, n), (True, o2 or n == 1)
        elif kind in ("square", "triangle"):
            a, b = int(rng.integers(1, 5)), int(rng.integers(1, 5))
            dims, opens = (a, b), (o1 or a == 1, o2 or b == 1)
        elif kind == "tilted":
            dims, opens = (int(rng.integers(1, 4)), int(rng.integers(0, 3))), (o1, o2)
            if dims[0] ** 2 + dims[1] ** 2 == 1:
                opens = (True, True)
        elif kind == "hexagonal":
            a, b = int(rng.integers(1, 3)), int(rng.integers(1, 3))
            dims, opens = (a, b), (o1 or a == 1, o2 or b == 1)
        elif kind == "polygon":
            dims, opens = (int(rng.integers(max(3, nmin), max(4, nmax + 1))),), None
        else:
            dims, opens = (int(rng.integers(nmin, nmax + 1)),), None
        est = {"chain": lambda: max(dims), "square": lambda: dims[0] * dims[1], "triangle": lambda: dims[0] * dims[1],
               "tilted": lambda: dims[0] ** 2 + dims[1] ** 2, "hexagonal": lambda: 4 * dims[0] * dims[1]}.get(
            kind, lambda: dims[0])()
        if not nmin <= est <= nmax:
            continue
        p1, p2 = phase(rng, twist), phase(rng, twist)
        if kind in ("chain", "square"):
            g = Geometry.createSquareGeometry(*dims, p1, p2, bc1_open=opens[0], bc2_open=opens[1])
        elif kind == "triangle":
            g = Geometry.createTriangleGeometry(*dims, p1, p2, bc1_open=opens[0], bc2_open=opens[1])
        elif kind == "tilted":
            g = Geometry.createTiltedSquareGeometry(*dims, p1, p2, bc1_open=opens[0], bc2_open=opens[1])
        elif kind == "hexagonal":
            g = Geometry.createHexagonalGeometry(*dims, p1, p2, bc1_open=opens[0], bc2_open=opens[1])
        elif kind == "polygon":
            g = Geometry.createRegularPolygonGeometry(dims[0])
        elif kind == "cluster":
            c = polyomino(rng, dims[0], int(rng.integers(-3, 4)), int(rng.integers(-3, 4)))
            g = Geometry.createNonPeriodicGeometry([x for x, y in c], [y for x, y in c])
        else:  # arbitrary graph with arbitrary hermitian phases
            n = dims[0]
            adj = rand_adj(rng, n)
            ph = None
            if twist and rng.random() < 0.6:
                th = np.triu(rng.uniform(-4, 4, (n, n)), 1)
                ph = np.exp(1j * (th - th.T))
            g = Geometry.createNonPeriodicGeometry(rng.uniform(-3, 3, n), rng.uniform(-3, 3, n), adjacency_mat=adj,
                                                   phase_mat=ph)
        if not nmin <= g.nsites <= nmax:
            continue
        d = dict(kind=kind, dims=dims, open=opens, phases=(p1, p2), nsites=g.nsites)
        if shuffle and g.nsites > 1 and rng.random() < 0.3:
            g.permute_sites([int(x) for x in rng.permutation(g.nsites)])
            d["relabelled"] = True
        return g, d
    n = nmin
    return Geometry.createSquareGeometry(n, 1), dict(kind="chain", dims=(n, 1), nsites=n)


def cmat(rng, n, m=None, kind=None):
    m = n if m is None else m
    a = rng.normal(size=(n, m))
    if kind != "real":
        a = a + 1j * rng.normal(size=(n, m))
    return a


def hermitian(rng, n, real=False):
    a = cmat(rng, n, kind="real" if real else None)
    return (a + a.conj().T) / 2


def coupling(rng, allow_zero=True):
    return float(pick(rng, ([0.0] if allow_zero else []) + [1.0, -1.0, float(rng.normal()), float(10 * rng.normal()),
                                                          float(rng.normal())]))


def fermion_params(rng, geom, nspecies):
    """Random model parameters in all of the accepted formats; returns (kwargs, resolved arrays)."""
    n = geom.nsites
    adj = np.asarray(geom.adjacency_mat, float)
    ph = np.asarray(geom.phase_mat)
    full = n > 1
    # hopping
    fmt = pick(rng, ["scalar", "species", "matrix", "int"] if full else ["scalar", "species"])
    if fmt == "scalar":
        ts = coupling(rng)
        hop = np.stack([ts * adj * ph] * nspecies, -1)
    elif fmt == "int":
        ts = int(rng.integers(-3, 4))
        hop = np.stack([ts * adj * ph] * nspecies, -1)
    elif fmt == "species":
        ts = [coupling(rng) for _ in range(nspecies)]
        hop = np.stack([t * adj * ph for t in ts], -1)
        if rng.random() < 0.5:
            ts = np.array(ts)
    else:
        cplx = rng.random() < 0.6
        mats = []
        for _ in range(nspecies):
            h = hermitian(rng, n, real=not cplx)
            h = h * (rng.random() < 0.7 or adj)
            h = np.tril(h, -1)
            mats.append(h + h.conj().T)
        hop = np.stack(mats, -1)
        ts = hop[:, :, 0] if nspecies == 1 and rng.random() < 0.5 else hop
    # on-site interaction between species 0 and 1
    if nspecies == 2:
        if rng.random() < 0.5:
            us = coupling(rng)
            u = us * np.ones(n)
        else:
            u = np.array([coupling(rng) for _ in range(n)])
            us = u if rng.random() < 0.5 or n == 1 else u.tolist()
    else:
        us, u = 0, np.zeros(n)
    # same species
    r = rng.random()
    if r < 0.35:
        vs, v = 0, np.zeros((n, n, nspecies))
    elif r < 0.55:
        vs = coupling(rng)
        v = np.stack([vs * adj] * nspecies, -1)
    elif r < 0.75 or not full:
        vs = [coupling(rng) for _ in range(nspecies)]
        v = np.stack([x * adj for x in vs], -1)
    else:
        v = rng.normal(size=(n, n, nspecies))
        v = v + v.transpose(1, 0, 2)
        v[rng.random((n, n)) < 0.3] = 0
        v = (v + v.transpose(1, 0, 2)) / 2
        vs = v[:, :, 0] if nspecies == 1 and rng.random() < 0.5 else v
    # chemical potential
    if rng.random() < 0.5:
        mus = coupling(rng)
        mu = mus * np.ones(nspecies)
    else:
        mu = np.array([coupling(rng) for _ in range(nspecies)])
        mus = mu if rng.random() < 0.5 else mu.tolist()
    # potential
    r = rng.random()
    if r < 0.3:
        ps = coupling(rng)
        p = ps * np.ones((n, nspecies))
    elif r < 0.6 or not full:
        ps = [coupling(rng) for _ in range(nspecies)]
        p = np.stack([x * np.ones(n) for x in ps], -1)
    else:
        p = rng.normal(size=(n, nspecies))
        p[rng.random(p.shape) < 0.2] = 0
        ps = p[:, 0] if nspecies == 1 and rng.random() < 0.5 and n > 1 else p
    kw = dict(us_interspecies=us, ts=ts, mus=mus, potentials=ps, us_same_species=vs, nspecies=nspecies)
    return kw, dict(hop=hop, u=u, v=v, mu=mu, pot=p, fmt=fmt)


def fermion_model(rng, max_logical=8, twist=True, kinds=None, nspecies=None, ns=None, nmin=1, params=None):
    nspecies = nspecies or pick(rng, [1, 2, 2, 3] if max_logical >= 3 else [1, 2])
    geom, gd = geometry(rng, max(nmin, max_logical // nspecies), nmin=nmin, twist=twist, kinds=kinds)
    kw, arr = fermion_params(rng, geom, nspecies)
    if params:
        kw.update(params)
    m = fermions(geom, ns=ns, **kw)
    return m, arr, dict(geom=gd, nspecies=nspecies, fmt=arr["fmt"])


def oracle_h(m, arr):
    return oracle.fermion_h(m.geometry.nsites, m.nspecies, arr["hop"], arr["u"], arr["v"], arr["mu"], arr["pot"])


def spin_model(rng, max_dim=256, twist=False, kinds=None, spins=(0.5, 0.5, 0.5, 1.0, 1.5, 2.0, 2.5), nmin=1):
    """Random spin model with random (uniform, per bond list, matrix) couplings."""
    for _ in range(100):
        s = pick(rng, list(spins))
        d = int(round(2 * s + 1))
        nmax = int(np.floor(np.log(max_dim) / np.log(d) + 1e-9))
        if nmax >= nmin:
            break
    geom, gd = geometry(rng, nmax, nmin=nmin, twist=twist, kinds=kinds)
    n = geom.nsites
    adj = np.asarray(geom.adjacency_mat, float) * np.asarray(geom.phase_mat)
    js, hs, jm, hm = [], [], [], []
    iso = rng.random() < 0.3
    ryd = rng.random() < 0.25
    for a in range(3):
        if iso and a:
            js.append(js[0]); jm.append(jm[0])
        else:
            r = rng.random()
            if r < 0.5 or n == 1:
                j = coupling(rng)
                if rng.random() < 0.2:
                    j = int(rng.integers(-3, 4))
                js.append(j); jm.append(j * adj)
            elif r < 0.8 or n < 3:
                m = rng.normal(size=(n, n))
                m = np.tril(m, -1) * (rng.random((n, n)) < 0.7)
                m = m + m.T
                js.append(m); jm.append(m)
            else:  # one number per bond of a ring
                j = rng.normal(size=n)
                m = np.zeros((n, n))
                for k in range(n):
                    m[k, (k + 1) % n] = m[(k + 1) % n, k] = j[k]
                js.append(j); jm.append(m)
        r = rng.random()
        if r < 0.6:
            h = coupling(rng)
            if rng.random() < 0.2:
                h = int(rng.integers(-3, 4))
            hs.append(h); hm.append(h * np.ones(n))
        else:
            h = rng.normal(size=n) * (rng.random(n) < 0.8)
            hs.append(h); hm.append(h)
    m = spinSystem(geom, jx=js[0], jy=js[1], jz=js[2], hx=hs[0], hy=hs[1], hz=hs[2], use_ryd_detunes=ryd, spin=s)
    hz = hm[2] - (jm[2].sum(1).real if ryd else 0)
    arr = dict(jx=jm[0], jy=jm[1], jz=jm[2], hx=hm[0], hy=hm[1], hz=hz, spin=s, ryd=ryd)
    return m, arr, dict(geom=gd, spin=s, ryd=ryd)


def spin_oracle_h(m, arr):
    return oracle.spin_h(m.geometry.nsites, arr["spin"], arr["jx"], arr["jy"], arr["jz"], arr["hx"], arr["hy"],
                         arr["hz"])


def spin_oracle_real(arr):
    return all(np.allclose(np.imag(arr[k]), 0) for k in ("jx", "jy", "jz"))


def any_model(rng, max_dim=256, twist=True):
    if rng.random() < 0.5:
        m, arr, d = fermion_model(rng, max_logical=int(np.log2(max_dim)), twist=twist)
        return m, oracle_h(m, arr), d, "fermion"
    m, arr, d = spin_model(rng, max_dim=max_dim)
    return m, spin_oracle_h(m, arr), d, "boson"


def onsite(rng, d, kind=None):
    """A random on-site operator in one of the formats users pass (ndarray int/float/complex)."""
    r = rng.random()
    if kind == "hermitian":
        return hermitian(rng, d)
    if r < 0.3:
        return rng.integers(-2, 3, (d, d))
    if r < 0.6:
        return rng.normal(size=(d, d))
    return cmat(rng, d)


def flag(rng, p=0.2):
    return bool(rng.random() < p)
