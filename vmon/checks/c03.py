"""C03: spin operators and the spin Hamiltonian."""
import itertools

import numpy as np
import scipy.sparse as sp
from vmon import gen, oracle
from vmon.core import dense
from vmon.checks.c02 import projector

spinSystem = gen.spinSystem
RULE = ("random spin models: spin 1/2 to 5/2, up to 4096 states, on all geometries, with uniform, per bond and full matrix "
        "couplings, uniform and site dependent fields, with and without Rydberg detunings; operators and Hamiltonian are "
        "compared with an independent construction. Non-trivial: Hamiltonian not zero; distinct by model and matrix.")
ASSUMPTIONS = ["real symmetric couplings (no twisted phases)", "dimension <= 4096", "floating point comparison at 1e-9",
               "state labels and special states for spin 1/2, as in the code"]
REQUIRED = ["call:spinSystem.createH", "call:spinSystem.find_special_states", "call:spinSystem.get_npairs_op",
            "call:spinSystem.get_allsite_op", "call:spinSystem.get_swap_up_down_op", "call:spinSystem.get_state_vects"]


def taps():
    return [(spinSystem, n, None) for n in ("createH", "find_special_states", "get_npairs_op", "get_allsite_op",
                                            "get_swap_up_down_op", "get_state_vects", "get_state_parity",
                                            "get_rydberg_detunes", "get_splus", "get_sminus", "get_sx", "get_sy", "get_sz")]


def algebra(ctx):
    rng = ctx.rng
    s = (ctx.index % 12 + 1) / 2
    g = gen.Geometry.createSquareGeometry(1, 1)
    m = spinSystem(g, spin=s)
    d = int(2 * s + 1)
    sx, sy, sz, spl, smi = (dense(o) for o in (m.sx, m.sy, m.sz, m.splus, m.sminus))
    for got, want, nm in zip((sx, sy, sz, spl, smi), oracle.spin_mats(s), ("Sx", "Sy", "Sz", "S+", "S-")):
        ctx.close(got, want, f"spin matrices: {nm}")
    ctx.close(sx @ sy - sy @ sx, 1j * sz, "spin commutator xy")
    ctx.close(sy @ sz - sz @ sy, 1j * sx, "spin commutator yz")
    ctx.close(sz @ sx - sx @ sz, 1j * sy, "spin commutator zx")
    ctx.close(sx @ sx + sy @ sy + sz @ sz, s * (s + 1) * np.eye(d), "total spin")
    ctx.close(sz @ spl - spl @ sz, spl, "S+ raises Sz")
    ctx.close(spl, sx + 1j * sy, "S+ is Sx + i Sy")
    ctx.close(smi, spl.conj().T, "S- is adjoint of S+")
    ctx.check(m.nbasis == d and m.nstates == d, "number of spin states")
    ctx.seen(s)
    ctx.describe(spin=s)


def ham(ctx):
    rng = ctx.rng
    m, arr, d = gen.spin_model(rng, max_dim=int(gen.pick(rng, [8, 64, 256, 1024] if ctx.tier == "quick" else [8, 64, 256, 1024, 4096])))
    want = gen.spin_oracle_h(m, arr)
    h = m.createH(print_results=gen.flag(rng))
    ctx.close(h, want, "spin hamiltonian")
    ctx.check(abs(h - h.conj().T).max() < 1e-10 * (1 + abs(h).max()), "spin hamiltonian is hermitian")
    if m.nstates <= 128:
        p = projector(rng, m.nstates)
        ctx.close(m.createH(projector=p), p @ want @ p.conj().T, "projected spin hamiltonian is P H P+")
    if abs(want).max() > 0:
        ctx.seen(arr["spin"], arr["ryd"], want.data)
    ctx.describe(model=d)


def su2(ctx):
    """isotropic models conserve total spin and U(1) models conserve Sz"""
    rng = ctx.rng
    s = gen.pick(rng, [0.5, 0.5, 1.0, 1.5])
    g, gd = gen.geometry(rng, {0.5: 7, 1.0: 4, 1.5: 3}[s], nmin=2, twist=False)
    j = gen.coupling(rng, False)
    if rng.random() < 0.5:
        a = rng.normal(size=(g.nsites,) * 2)
        j = np.tril(a, -1) + np.tril(a, -1).T
    iso = rng.random() < 0.5
    hz = float(rng.normal())
    jz = j if iso else (j * 0.7)
    m = spinSystem(g, jx=j, jy=j, jz=jz, hz=hz, spin=s)
    h = m.createH()
    tot = {k: m.get_sum_op(o) for k, o in (("x", m.sx), ("y", m.sy), ("z", m.sz))}
    ctx.check(abs(h @ tot["z"] - tot["z"] @ h).max() < 1e-9 * (1 + abs(h).max()), "total Sz is conserved")
    if iso:
        s2 = sum(o @ o for o in tot.values())
        ctx.check(abs(h @ s2 - s2 @ h).max() < 1e-8 * (1 + abs(h).max()), "total spin is conserved")
    n = g.nsites
    if n == 2 and iso and not isinstance(j, np.ndarray):
        jj = j * g.adjacency_mat[0, 1]
        want = []
        for st in np.arange(0, 2 * s + 0.5):
            for mm in np.arange(-st, st + 0.5):
                want.append(jj * (st * (st + 1) - 2 * s * (s + 1)) - hz * mm)
        ctx.close(m.diagH(h)[0], np.sort(want), "two spin spectrum")
    ctx.seen(s, gd["kind"], n, np.asarray(j), hz)
    ctx.describe(geom=gd, spin=s, isotropic=iso)


def rydberg(ctx):
    """with Rydberg detunings the interaction is one between excitations (spin up): 2 Jz n n, up to a constant"""
    rng = ctx.rng
    g, gd = gen.geometry(rng, 7, twist=False)
    n = g.nsites
    if rng.random() < 0.5 or n == 1:
        jz = gen.coupling(rng, False)
        jm = jz * np.asarray(g.adjacency_mat, float)
    else:
        a = rng.normal(size=(n, n))
        jz = jm = np.tril(a, -1) + np.tril(a, -1).T
    hx, hz = gen.coupling(rng), gen.coupling(rng)
    m = spinSystem(g, jz=jz, hx=hx, hz=hz, use_ryd_detunes=True)
    h = m.createH().toarray()
    up = 1 - oracle.fermion_occ(n)  # basis state 0 is all spins up
    diag = sum(2 * jm[i, k] * up[i] * up[k] for i in range(n) for k in range(i)) - hz * (up - 0.5).sum(0) \
        - sum(jm[i, k] for i in range(n) for k in range(i)) / 2
    ctx.close(np.diag(h), diag, "Rydberg detunings turn the Ising interaction into one between excitations")
    ctx.seen(n, jm, hx, hz)
    ctx.describe(geom=gd)


def labels(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 9))
    g, gd = gen.geometry(rng, n, nmin=n, twist=False, kinds=["chain", "cluster", "polygon"] if n > 2 else ["chain"])
    m = spinSystem(g)
    lab = dense(m.get_state_vects(print_results=gen.flag(rng)))
    up = (1 - oracle.fermion_occ(n)).T
    ctx.close(lab, up, "state labels")
    for i in range(n):
        ctx.close(m.get_single_site_op(i, 0, m.sz, format="boson").diagonal(), lab[:, i] - 0.5, "labels agree with Sz")
        ctx.close(m.get_single_site_op(i, 0, m.nr, format="boson").diagonal(), lab[:, i], "labels agree with excitations")
    ctx.close(dense(m.get_state_parity()).ravel(), up.sum(1) % 2, "state parity")
    ctx.seen(n, gd["kind"])
    ctx.describe(n=n)


def special(ctx):
    rng = ctx.rng
    n = int(rng.integers(2, 10))
    if rng.random() < 0.3:
        nx = gen.pick(rng, [x for x in (1, 3, 5, 7) if n % x == 0])
        l2r = bool(rng.integers(2))
    else:
        nx, l2r = n, False
    ny = n // nx
    g = gen.Geometry.createSquareGeometry(nx, ny)
    m = spinSystem(g)
    st, desc = m.find_special_states(nx, ny, l2r)
    st = dense(st)
    up = 1 - oracle.fermion_occ(n)
    ctx.check(st.shape == (2 ** n, len(desc)), "special states shape")
    ctx.close((np.abs(st) ** 2).sum(0), np.ones(len(desc)), "special states are normalised")
    v = {k: st[:, i] for i, k in enumerate(desc)}
    def basis(pattern):
        w = np.zeros(2 ** n)
        w[np.nonzero((up == np.array(pattern)[:, None]).all(0))[0][0]] = 1
        return w
    ctx.close(v["AllUp"], basis([1] * n), "special states: AllUp")
    ctx.close(v["AllDn"], basis([0] * n), "special states: AllDn")
    alt = [basis([i % 2 for i in range(n)]), basis([(i + 1) % 2 for i in range(n)])]
    got = [v["AFM1"], v["AFM2"]]
    ctx.check(any(np.allclose(got[0], alt[a]) and np.allclose(got[1], alt[1 - a]) for a in (0, 1)),
              "special states: AFM states are the two alternating product states")
    ctx.close(v["AllPlus"], np.ones(2 ** n) / 2 ** (n / 2), "special states: AllPlus")
    ctx.close(v["AllMinus"], (-1.0) ** (n - up.sum(0)) / 2 ** (n / 2), "special states: AllMinus")
    ctx.close(v["SymmExc"], (up.sum(0) == 1) / np.sqrt(n), "special states: symmetric single excitation")
    for i in range(n):
        sx = m.get_single_site_op(i, 0, m.sx, format="boson")
        ctx.close(sx @ v["AllPlus"], 0.5 * v["AllPlus"], "AllPlus is an eigenstate of Sx")
        ctx.close(sx @ v["AllMinus"], -0.5 * v["AllMinus"], "AllMinus is an eigenstate of Sx")
    ctx.seen(n, nx, l2r)
    ctx.describe(n=n, nx=nx)


def products(ctx):
    """pair counting, products over all sites, global spin flip"""
    rng = ctx.rng
    m, arr, d = gen.spin_model(rng, max_dim=260)
    n, b = m.geometry.nsites, m.nbasis
    op = gen.onsite(rng, b)
    want = sp.eye(1)
    for i in range(n):
        want = sp.kron(want, op)
    ctx.close(m.get_allsite_op(op), want, "product of an operator over all sites")
    flip = np.eye(b)[::-1]
    want = sp.eye(1)
    for i in range(n):
        want = sp.kron(want, flip)
    f = m.get_swap_up_down_op()
    ctx.close(f, want, "global spin flip")
    if b == 2 and n > 1:
        pairs = [(i, k) for k in range(n) for i in range(k + 1, n)]
        conn = rng.integers(0, 2, len(pairs))
        if rng.random() < 0.5:
            conn = np.array([int(m.geometry.adjacency_mat[i, k] == 1) for i, k in pairs])
        if conn.sum() > 0:
            up = 1 - oracle.fermion_occ(n)
            want = sum(c * up[i] * up[k] for c, (i, k) in zip(conn, pairs))
            ctx.close(m.get_npairs_op(conn), sp.diags(want.astype(float)), "pair counting operator")
    ctx.seen(n, b, np.asarray(op))
    ctx.describe(model=d)


def rejected(ctx):
    rng = ctx.rng
    n = int(rng.integers(3, 6))
    g = gen.Geometry.createSquareGeometry(n, 1)
    bad = np.ones(n + 1 + int(rng.integers(3)))
    nm = gen.pick(rng, ["jx", "jy", "jz", "hx", "hy", "hz"])
    ctx.raises(lambda: spinSystem(g, **{nm: bad}), "inconsistent coupling sizes are rejected: " + nm)
    ctx.seen(n, nm, bad.size)


SCENARIOS = {"algebra": (algebra, 12, 12), "ham": (ham, 160, 2000), "su2": (su2, 30, 300), "rydberg": (rydberg, 40, 400),
             "labels": (labels, 20, 100), "special": (special, 24, 150), "products": (products, 60, 500),
             "rejected": (rejected, 10, 30)}
