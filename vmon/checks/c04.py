"""C04: number sectors and basis state labels."""
import itertools

import numpy as np
import scipy.sparse as sp
from vmon import gen, oracle
from vmon.core import dense

fermions = gen.fermions
ed_base = gen.M["ed_base"].ed_base
RULE = ("random fermion models, all or random particle number sectors (per species, unconstrained species included); the "
        "projector is compared with the set of basis states having that number, labels with occupations, and the union of "
        "the sector spectra with the full spectrum. Distinct by model size and sector.")
ASSUMPTIONS = ["dimension <= 4096", "floating point comparison at 1e-9"]
REQUIRED = ["call:ed_base.get_subspace_projs", "call:fermions.get_state_vects", "oracle:union of the sector spectra"]


def taps():
    return [(ed_base, "get_subspace_projs", None), (fermions, "get_state_vects", None)]


def subset_projector(ctx, p, mask, what):
    """p's rows are an orthonormal basis, made of basis states, of the states selected by mask"""
    p = sp.csr_matrix(p)
    k = int(mask.sum())
    ctx.check(p.shape == (k, mask.size), f"{what}: shape {p.shape}, {k} states selected")
    ctx.close(p @ p.conj().T, sp.eye(k), f"{what}: rows are orthonormal")
    ctx.close(p.conj().T @ p, sp.diags(mask.astype(float)), f"{what}: spans exactly the selected states")


def sectors(ctx):
    rng = ctx.rng
    ns_ = gen.pick(rng, [1, 2, 2, 3])
    geom, gd = gen.geometry(rng, max(1, int(gen.pick(rng, [4, 8, 10, 12])) // ns_), twist=False)
    n = geom.nsites
    nl = n * ns_
    occ = oracle.fermion_occ(nl)
    num = np.array([occ[n * s:n * (s + 1)].sum(0) for s in range(ns_)])
    ns = [int(rng.integers(0, n + 1)) for _ in range(ns_)]
    some_none = ns_ > 1 and rng.random() < 0.25
    if some_none:
        ns[int(rng.integers(ns_))] = None
    arg = ns
    if ns_ == 1 and rng.random() < 0.5:
        arg = ns[0]
    elif not some_none and rng.random() < 0.5:
        arg = np.array(ns)
    m = fermions(geom, 0, 1.0, ns=arg, nspecies=ns_)
    mask = np.ones(2 ** nl, bool)
    for s in range(ns_):
        if ns[s] is not None:
            mask &= num[s] == ns[s]
    subset_projector(ctx, m.n_projector, mask, "number sector projector")
    lab, text = m.get_state_vects(projector=m.n_projector, print_results=gen.flag(rng))
    lab = dense(lab)
    ctx.close(lab, sp.csr_matrix(m.n_projector) @ occ.T.astype(float), "labels of the projected basis are its occupations")
    names = [f"{i}{chr(97 + s)}" for s in range(ns_) for i in range(n)]
    ctx.check(text.split() == names, "text labels name site and species in column order")
    ctx.seen(n, ns_, str(ns), gd["kind"])
    ctx.describe(geom=gd, species=ns_, ns=ns, states=int(mask.sum()))


def labels(ctx):
    rng = ctx.rng
    ns_ = gen.pick(rng, [1, 2, 3])
    geom, gd = gen.geometry(rng, max(1, int(gen.pick(rng, [3, 6, 9])) // ns_), twist=False)
    m = fermions(geom, 0, 1.0, nspecies=ns_)
    n = geom.nsites
    lab, text = m.get_state_vects(print_results=gen.flag(rng))
    lab = dense(lab)
    ctx.close(lab, oracle.fermion_occ(n * ns_).T, "labels list the occupations in the basis order")
    for s in range(ns_):
        for i in range(n):
            ctx.close(m.get_single_site_op(i, s, m.n_op, format="boson").diagonal(), lab[:, n * s + i],
                      "labels agree with the number operators")
    ctx.close(m.n_projector, sp.eye(m.nstates), "no number constraint means no projection")
    ctx.seen(n, ns_, gd["kind"])
    ctx.describe(geom=gd, species=ns_)


def union(ctx):
    """all sectors together give the spectrum, and each sector block is the block of H"""
    rng = ctx.rng
    ns_ = gen.pick(rng, [1, 2, 2])
    geom, gd = gen.geometry(rng, 8 // ns_ if ns_ == 2 else 7, nmin=2)
    kw, arr = gen.fermion_params(rng, geom, ns_)
    m = fermions(geom, **kw)
    h = gen.oracle_h(m, arr)
    full = np.linalg.eigvalsh(h.toarray())
    es, tot = [], 0
    for ns in itertools.product(range(geom.nsites + 1), repeat=ns_):
        ms = fermions(geom, ns=np.array(ns), **kw)
        p = ms.n_projector
        hs = ms.createH(projector=p)
        ctx.close(hs, sp.csr_matrix(p) @ h @ sp.csr_matrix(p).T, "sector hamiltonian is the block of H")
        es.append(ms.diagH(hs.tocsr())[0])
        tot += p.shape[0]
    ctx.check(tot == m.nstates, "sector dimensions add up to the full dimension")
    ctx.close(np.sort(np.concatenate(es)), full, "union of the sector spectra is the spectrum", tol=1e-8)
    ctx.seen(np.round(full, 6))
    ctx.describe(geom=gd, species=ns_, sectors=len(es))


def subspace(ctx):
    """projectors onto the eigenspaces of any diagonal operator"""
    rng = ctx.rng
    if rng.random() < 0.5:
        m, arr, d = gen.spin_model(rng, max_dim=260)
        n = m.geometry.nsites
        op = gen.pick(rng, [m.get_sum_op(m.sz), m.get_sum_op(np.diag(rng.integers(0, 3, m.nbasis)))])
    else:
        m = fermions(gen.geometry(rng, 4, twist=False)[0], 0, 1.0, nspecies=2)
        op = m.get_sum_op(m.n_op, int(rng.integers(2)), format="boson") * int(rng.integers(1, 3))
    op = sp.csr_matrix(op)
    diag = op.diagonal()
    vals = np.unique(diag)
    projs, ev = m.get_subspace_projs(op, print_results=gen.flag(rng))
    ctx.close(np.sort(ev), vals, "all eigenvalues are found once")
    ctx.check(len(projs) == len(ev), "one projector per eigenvalue")
    for p, e in zip(projs, ev):
        subset_projector(ctx, p, diag == e, "eigenspace projector")
    sub = rng.permutation(vals)[:int(rng.integers(1, len(vals) + 1))]
    arg = sub if rng.random() < 0.5 else sub.tolist()
    if len(sub) == 1 and rng.random() < 0.5:
        arg = sub[0]
    projs, ev = m.get_subspace_projs(op, eig_vals=arg)
    ctx.check(len(projs) == len(sub), "one projector per requested eigenvalue")
    for p, e in zip(projs, sub):
        subset_projector(ctx, p, diag == e, "requested eigenspace projector")
    ctx.seen(diag)
    ctx.describe(dim=len(diag), eigenvalues=len(vals))


SCENARIOS = {"sectors": (sectors, 80, 800), "labels": (labels, 24, 120), "union": (union, 24, 250),
             "subspace": (subspace, 50, 500)}
