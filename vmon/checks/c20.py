"""C20: linked cluster sums and series resummation."""
from math import comb

import numpy as np
import scipy.sparse as sp
from vmon import gen, oracle, poly
from vmon.core import dense

nlce = gen.M["ed_nlce"]
RULE = ("random weights assigned to cluster shapes, the resulting cluster properties and properties from exact diagonalization (energy, "
        "entropy-like functions of temperature, correlations) of random parent clusters: weights and linked cluster sums are compared with "
        "inclusion-exclusion, in particular the sum over all subclusters must reproduce the parent exactly. Euler sums against the "
        "definition and closed forms. Distinct by cluster shapes, array shape and data.")
ASSUMPTIONS = ["clusters along the first axis, sorted by size", "parents up to 7 sites (6 for exact diagonalization)"]
REQUIRED = ["oracle:weights", "oracle:linked cluster sum", "oracle:order contributions", "oracle:complete expansion", "oracle:Euler", "ed:spins",
            "ed:fermions", "data:temperatures", "data:scalar", "data:complex", "data:trailing one", "multiplicity:zero"]


def taps():
    return [(nlce, n, None) for n in ("get_nlce_exp_val", "euler_resum", "get_reduced_subclusters", "get_all_clusters_with_subclusters")]


def trailing(ctx):
    t = gen.pick(ctx.rng, [(), (1,), (5,), (3, 2), (4, 1), (1, 3), (2, 1, 3)])
    if t == ():
        ctx.event("data:scalar")
    else:
        ctx.event("data:temperatures")
        if 1 in t:
            ctx.event("data:trailing one")
    return t


def values(ctx, t, z):
    """random values of the given shape, complex if z"""
    v = ctx.rng.normal(size=t)
    if z:
        ctx.event("data:complex")
        v = v + 1j * ctx.rng.normal(size=t)
    return v


def mult_arg(rng, m):
    """the multiplicities in any of the forms which are accepted"""
    m = np.ravel(np.asarray(m, float))
    return gen.pick(rng, [m, m[None, :], m.tolist(), sp.csr_matrix(m[None, :]), m.reshape(-1, 1)])


def judge(ctx, vals, mat, mult, inds, nsites, weights):
    rng = ctx.rng
    keep = vals.copy()
    if rng.random() < 0.25:  # orders to which no cluster contributes
        inds = list(inds)
        for k in sorted(rng.integers(0, len(inds), int(rng.integers(1, 3))).tolist(), reverse=True):
            inds.insert(k, inds[k])
        ctx.event("order without clusters")
    form = gen.pick(rng, [sp.csr_matrix, sp.csc_matrix])
    ev, orders, w = nlce.get_nlce_exp_val(vals, form(dense(mat)), mult_arg(rng, mult), inds, nsites)
    ctx.close(vals, keep, "cluster values are not modified")
    ctx.close(w, weights, "weights are the cluster values less the weights of all subclusters", tol=1e-8)
    contrib = np.asarray(mult).reshape((-1,) + (1,) * (vals.ndim - 1)) * weights
    ctx.close(ev, contrib.sum(0) / nsites, "linked cluster sum", tol=1e-8, shape=False)
    want = np.array([contrib[inds[k]:inds[k + 1]].sum(0) / nsites for k in range(len(inds) - 1)])
    ctx.close(orders, want, "order contributions", tol=1e-8)
    ctx.close(np.asarray(orders).sum(0), ev, "order contributions add up to the sum", tol=1e-8, shape=False)
    return ev, orders


def lattice(ctx):
    """properties which are a sum over the connected subsets of a cluster: the weights are known exactly"""
    rng = ctx.rng
    symm = rng.random() < 0.7
    order = int(rng.integers(1, 6 if symm else 5))
    clusters, mult, mat, inds = nlce.get_all_clusters_with_subclusters(order, use_symmetry=symm)
    shapes = [poly.cells(c) for c in clusters]
    keys = [poly.canon(c, symm) for c in shapes]
    t = trailing(ctx)
    z = rng.random() < 0.3
    w = {k: values(ctx, t, z) * 2.0 ** -len(k) for k in keys}
    weights = np.array([w[k] for k in keys])
    vals = np.array([sum(w[poly.canon(s, symm)] for lev in poly.subsets(c) for s in lev) for c in shapes])
    # any consistent number of leading orders may be used, as the pipeline does
    top = int(rng.integers(1, order + 1))
    n = inds[top]
    nsites = int(rng.integers(1, 4))
    mult = np.asarray([poly.multiplicity(c, symm) for c in shapes], float)
    judge(ctx, vals[:n], dense(mat)[:n, :n], mult[:n], inds[:top + 1], nsites, weights[:n])
    # the weights do not depend on how often a cluster appears in the lattice
    any_mult = rng.normal(size=n) if rng.random() < 0.3 else rng.integers(0, 3, n).astype(float)
    if rng.random() < 0.5:
        any_mult[int(rng.integers(0, n)):] = 0
    if np.any(any_mult == 0):
        ctx.event("multiplicity:zero")
    judge(ctx, vals[:n], dense(mat)[:n, :n], any_mult, inds[:top + 1], nsites, weights[:n])
    ctx.seen(order, symm, t, top, vals)
    ctx.describe(order=order, symmetry=symm, used_orders=top, data_shape=t)


def complete(ctx):
    """sum over all subclusters of a finite parent, the parent included, is the parent's own value"""
    rng = ctx.rng
    n = int(rng.integers(1, 8))
    c = gen.polyomino(rng, n, int(rng.integers(-2, 3)), int(rng.integers(-2, 3)))
    g = poly.make(c)
    symm = rng.random() < 0.7
    clusters, mat, inds = nlce.get_reduced_subclusters(g, use_symmetry=symm)
    shapes = [poly.cells(s) for s in clusters]
    t = trailing(ctx)
    z = rng.random() < 0.3
    val = {}
    vals = []
    for s in shapes:
        k = poly.canon(s, symm)
        vals.append(values(ctx, t, z))
        val[k] = vals[-1]
    vals = np.array(vals)
    # inclusion-exclusion
    wk = {}
    for s in sorted(shapes, key=len):
        k = poly.canon(s, symm)
        wk[k] = val[k] - sum((wk[poly.canon(q, symm)] for lev in poly.subsets(s)[:len(s) - 1] for q in lev), np.zeros(t))
    weights = np.array([wk[poly.canon(s, symm)] for s in shapes])
    mult = dense(mat)[-1].copy()
    mult[-1] = 1
    nsites = n if rng.random() < 0.7 else 1
    if rng.random() < 0.3:  # proper subclusters only
        judge(ctx, vals, mat, dense(mat)[-1], inds, nsites, weights)
        ctx.event("multiplicity:zero")
    if rng.random() < 0.3:  # memory layout and integer values
        iv = rng.integers(-5, 6, vals.shape)
        got = nlce.get_nlce_exp_val(iv, sp.csr_matrix(mat), mult, inds, 3)
        ref = nlce.get_nlce_exp_val(np.asfortranarray(iv.astype(float)), sp.csr_matrix(mat), mult, inds, 3)
        for a, b in zip(got, ref):
            ctx.close(a, b, "integer cluster values")
        ctx.close(np.ravel(got[0]), np.ravel(iv[-1]) / 3, "complete expansion of integer values")
    ev, _ = judge(ctx, vals, mat, mult, inds, nsites, weights)
    ctx.close(ev, vals[-1] / nsites, f"complete expansion reproduces the parent: {c}", tol=1e-8, shape=False)
    ctx.seen(oracle.norm_shape(c), symm, vals)
    ctx.describe(cluster=c, symmetry=symm, data_shape=t)


def thermal(model, temps, op=None):
    h = model.createH()
    e, v = model.diagH(h)
    h = dense(h)
    out = []
    for temp in temps:
        en = float(np.real(model.get_exp_vals_thermal(v, sp.csr_matrix(h), e, temp)))
        z = np.sum(np.exp(-(e - e.min()) / temp))
        ent = np.log(z) + (en - e.min()) / temp
        out.append([en, ent])
    return np.array(out)  # temperature x (energy, entropy)


def ed(ctx):
    """the same with values from exact diagonalization of the real models"""
    rng = ctx.rng
    kind = gen.pick(rng, ["spins", "fermions"])
    ctx.event("ed:" + kind)
    n = int(rng.integers(2, 7 if kind == "spins" else 4))
    c = gen.polyomino(rng, n)
    g = poly.make(c)
    temps = np.array([0.4, 1.3, float(rng.uniform(0.3, 5))])
    if kind == "spins":
        kw = dict(zip(("jx", "jy", "jz", "hz"), rng.normal(size=4)))
        mk = lambda q: gen.spinSystem(q, **{k: float(x) for k, x in kw.items()})
    else:
        kw = dict(us_interspecies=float(rng.normal()) * 4, ts=float(rng.normal()), mus=float(rng.normal()))
        mk = lambda q: gen.fermions(q, nspecies=2, **kw)
    clusters, mat, inds = nlce.get_reduced_subclusters(g)
    vals = np.array([thermal(mk(q), temps) for q in clusters])
    mult = dense(mat)[-1].copy()
    mult[-1] = 1
    ev, orders, w = nlce.get_nlce_exp_val(vals, sp.csr_matrix(mat), mult, inds, n)
    # the parent with independently relabelled sites
    p = gen.Geometry.createNonPeriodicGeometry([x for x, _ in c], [y for _, y in c])
    ctx.close(ev, thermal(mk(p), temps) / n, f"complete expansion of exact diagonalization results: {c}", tol=1e-8)
    # non-interacting limit between sites: no weight beyond single sites
    if kind == "fermions":
        mk0 = lambda q: gen.fermions(q, nspecies=2, us_interspecies=kw["us_interspecies"], ts=0.0, mus=kw["mus"])
    else:
        mk0 = lambda q: gen.spinSystem(q, jx=0., jy=0., jz=0., hx=kw["jx"], hz=kw["hz"])
    vals0 = np.array([thermal(mk0(q), temps) for q in clusters])
    _, orders0, _ = nlce.get_nlce_exp_val(vals0, sp.csr_matrix(mat), mult, inds, n)
    ctx.close(np.asarray(orders0)[1:], np.zeros((n - 1,) + vals0.shape[1:]), "weights vanish for decoupled sites", tol=1e-7)
    ctx.seen(kind, oracle.norm_shape(c), vals)
    ctx.describe(model=kind, cluster=c, parameters=kw)


def euler(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 13) if rng.random() < 0.7 else rng.integers(13, 45))
    t = trailing(ctx)
    y = gen.pick(rng, [1, 1.0, 0.5, 2, float(rng.uniform(0.1, 3))])
    z = rng.random() < 0.3
    a = values(ctx, (n,) + t, z)
    tot, terms = nlce.euler_resum(a, y)
    want = np.array([sum(comb(k, j) * float(y) ** (j + 1) * a[j] for j in range(k + 1)) / (1 + float(y)) ** (k + 1) for k in range(n)])
    ctx.close(terms, want, "Euler terms")
    ctx.close(tot, want.sum(0), "Euler sum", shape=False)
    b = values(ctx, a.shape, z)
    ctx.close(nlce.euler_resum(a + 2 * b, y)[0], tot + 2 * nlce.euler_resum(b, y)[0], "Euler sum is linear", shape=False, tol=1e-8)
    # geometric series: closed form, and acceleration of a slowly converging alternating series
    r = float(rng.uniform(-1, 0.9))
    g = r ** np.arange(n)
    ctx.close(nlce.euler_resum(g, y)[1], y / (1 + y) * ((1 + y * r) / (1 + y)) ** np.arange(n), "Euler terms of a geometric series")
    alt = (-1.0) ** np.arange(20) / (1 + np.arange(20))
    ctx.check(abs(nlce.euler_resum(alt, 1)[0] - np.log(2)) < 1e-6, "Euler sum accelerates an alternating series")
    ctx.seen(n, t, y, a)
    ctx.describe(orders=n, y=y, data_shape=t)


SCENARIOS = {"lattice": (lattice, 60, 800), "complete": (complete, 150, 2500), "ed": (ed, 60, 800), "euler": (euler, 150, 1500)}
