"""C05: site permutations as operators."""
import numpy as np
import scipy.sparse as sp
from vmon import gen, oracle
from vmon.core import dense

ed_base = gen.M["ed_base"].ed_base
fermions, spinSystem = gen.fermions, gen.spinSystem
RULE = ("random permutations of the sites (given as cycles, with and without fixed points) of random fermion (1-3 species) "
        "and spin (1/2 to 5/2) models; the operator is compared with an independent construction of the permutation of "
        "creation operators, composed, inverted and conjugated with Hamiltonians. Distinct by model and permutation.")
ASSUMPTIONS = ["dimension <= 1024", "floating point comparison at 1e-9"]
REQUIRED = ["call:ed_base.get_xform_op", "call:fermions.get_swap_op", "call:spinSystem.get_swap_op",
            "oracle:transformed hamiltonian"]


def taps():
    return [(ed_base, "get_xform_op", None), (fermions, "get_swap_op", None), (spinSystem, "get_swap_op", None)]


def perm2cycles(rng, perm):
    """random representation of a permutation as cycles (any start, any order, fixed points kept or dropped)"""
    left, out = set(range(len(perm))), []
    while left:
        i = next(iter(left))
        c = [i]
        left.discard(i)
        while perm[c[-1]] != i:
            c.append(int(perm[c[-1]]))
            left.discard(c[-1])
        if len(c) > 1 or rng.random() < 0.6:
            k = int(rng.integers(len(c)))
            out.append(c[k:] + c[:k])
    rng.shuffle(out)
    return out


def model(rng, dim=256):
    if rng.random() < 0.6:
        ns = gen.pick(rng, [1, 2, 2, 3])
        g, gd = gen.geometry(rng, max(2, int(np.log2(dim)) // ns), twist=False)
        return fermions(g, 0, 1.0, nspecies=ns), ("fermion", ns, gd["kind"])
    m, arr, d = gen.spin_model(rng, max_dim=dim)
    return m, ("spin", d["spin"], d["geom"]["kind"])


def want_perm(m, perm):
    if isinstance(m, fermions):
        return oracle.permute_fermions(m.geometry.nsites, m.nspecies, perm)
    return oracle.permute_spins(m.nbasis, m.geometry.nsites, perm)


def swap(ctx):
    rng = ctx.rng
    m, d = model(rng)
    n = m.geometry.nsites
    i, j = int(rng.integers(n)), int(rng.integers(n))
    s = int(rng.integers(m.nspecies))
    perm = list(range(n))
    perm[i], perm[j] = j, i
    got = sp.csr_matrix(m.get_swap_op(i, j, s))
    if isinstance(m, fermions):
        nl = n * m.nspecies
        lp = list(range(nl))
        lp[n * s + i], lp[n * s + j] = n * s + j, n * s + i
        want = oracle.permute_fermions(nl, 1, lp)
    else:
        want = want_perm(m, perm)
    ctx.close(got, want, "swap operator")
    ctx.close(got @ got, sp.eye(m.nstates), "swap squares to one")
    ctx.seen(d, n, i, j, s)
    ctx.describe(model=d, sites=(i, j), species=s)


def xform(ctx):
    rng = ctx.rng
    m, d = model(rng, int(gen.pick(rng, [64, 256, 1024, 4096])))
    n = m.geometry.nsites
    p1, p2 = rng.permutation(n), rng.permutation(n)
    t1 = m.get_xform_op(perm2cycles(rng, p1), print_results=gen.flag(rng))
    t2 = m.get_xform_op(perm2cycles(rng, p2))
    ctx.check(sp.issparse(t1) and t1.shape == (m.nstates,) * 2, "transformation is a sparse operator on the full space")
    ctx.close(t1, want_perm(m, p1), "transformation operator moves creation operators and basis states")
    ctx.close(t1 @ t1.conj().T, sp.eye(m.nstates), "transformation is unitary")
    ctx.close(t1 @ t2, want_perm(m, p1[p2]), "transformations compose like permutations")
    ctx.close(m.get_xform_op(perm2cycles(rng, np.argsort(p1))), t1.conj().T, "inverse permutation is the inverse operator")
    ctx.seen(d, n, p1, p2)
    ctx.describe(model=d, permutation=p1)


def conjugate(ctx):
    """T H(parameters) T+ = H(permuted parameters): H commutes with T iff the permutation leaves the model unchanged"""
    rng = ctx.rng
    if rng.random() < 0.6:
        ns = gen.pick(rng, [1, 2])
        g, gd = gen.geometry(rng, 7 // ns, nmin=2, twist=False)
        n = g.nsites
        perm = rng.permutation(n)
        hop = np.stack([gen.hermitian(rng, n) for _ in range(ns)], -1) * (1 - np.eye(n))[:, :, None]
        u, pot = rng.normal(size=n), rng.normal(size=(n, ns))
        inv = np.argsort(perm)
        uu = u if ns == 2 else 0
        m = fermions(g, uu, hop, potentials=pot, nspecies=ns)
        mp = fermions(g, u[inv] if ns == 2 else 0, hop[inv][:, inv], potentials=pot[inv], nspecies=ns)
        d = ("fermion", ns)
    else:
        s = gen.pick(rng, [0.5, 0.5, 1.0])
        g, gd = gen.geometry(rng, 6 if s == 0.5 else 4, nmin=2, twist=False)
        n = g.nsites
        perm = rng.permutation(n)
        inv = np.argsort(perm)
        js = [np.tril(rng.normal(size=(n, n)), -1) for _ in range(3)]
        js = [j + j.T for j in js]
        hs = [rng.normal(size=n) for _ in range(3)]
        m = spinSystem(g, *js, *hs, spin=s)
        mp = spinSystem(g, *[j[inv][:, inv] for j in js], *[h[inv] for h in hs], spin=s)
        d = ("spin", s)
    t = m.get_xform_op(perm2cycles(rng, perm))
    ctx.close(t @ m.createH() @ t.conj().T, mp.createH(), "transformed hamiltonian has permuted parameters")
    ctx.seen(d, n, perm, gd["kind"])
    ctx.describe(model=d, permutation=perm)


SCENARIOS = {"swap": (swap, 80, 600), "xform": (xform, 90, 900), "conjugate": (conjugate, 50, 600)}
