"""C10: expectation values, overlaps, norms, correlators and matrix elements."""
import numpy as np
import scipy.sparse as sp
from vmon import gen, oracle
from vmon.core import dense

ed_base = gen.M["ed_base"].ed_base
RULE = ("random models and random collections of (dense, sparse, single, complex, unnormalised) states; expectation values, "
        "norms, overlaps, site resolved averages and correlators (pure states and thermal, full space and projected, all "
        "sites or chosen sites, between species), subspace weights and matrix elements are compared with explicit inner "
        "products built from independently constructed operators. Distinct by model, states and operators.")
ASSUMPTIONS = ["dimension <= 1024", "expectation values are reported as real numbers (real part of <psi|O|psi>)",
               "fermion format correlators: operators odd in c, c+"]
REQUIRED = ["oracle:expectation value", "oracle:overlaps", "oracle:norms", "oracle:site resolved", "oracle:two site correlator",
            "oracle:thermal site average", "oracle:thermal two site correlator", "oracle:weight in subspace",
            "oracle:matrix elements", "oracle:eigenspaces", "projected space", "all pairs", "sparse states"]


def taps():
    return [(ed_base, n, None) for n in ("get_exp_vals", "get_overlaps", "get_norms", "get_exp_vals_sites", "get_thermal_exp_sites",
                                         "get_corr_sites", "get_thermal_corr_sites", "get_subspace_overlaps", "get_matrix_elems",
                                         "get_subspace_projs")]


def states(ctx, rng, n, k=None, sparse=True):
    """(argument, dense n x k)"""
    k = k or int(gen.pick(rng, [1, 2, 5]))
    a = gen.cmat(rng, n, k, kind=gen.pick(rng, ["real", None]))
    if rng.random() < 0.3:
        a = a * (rng.random(a.shape) < 0.5)
    r = rng.random()
    if r < 0.3 and sparse:
        ctx.event("sparse states")
        return gen.pick(rng, [sp.csr_matrix, sp.csc_matrix])(a), a
    if r < 0.5 and k == 1:
        return a[:, 0].copy(), a
    return a, a


def inner(ctx):
    rng = ctx.rng
    m = gen.spinSystem(gen.Geometry.createSquareGeometry(2, 1))
    n = int(gen.pick(rng, [1, 2, 4, 16, 60]))
    s, a = states(ctx, rng, n)
    pr = gen.flag(rng)
    op = gen.cmat(rng, n, kind=gen.pick(rng, ["real", None]))
    if rng.random() < 0.5:
        op = op + op.conj().T
    arg = gen.pick(rng, [sp.csr_matrix, sp.csc_matrix])(op) if sp.issparse(s) or rng.random() < 0.7 else op
    want = np.array([np.vdot(a[:, i], op @ a[:, i]).real for i in range(a.shape[1])])
    ctx.close(m.get_exp_vals(s, arg, print_results=pr), want, "expectation value in each state", shape=False)
    ctx.close(m.get_norms(s, print_results=pr), np.sum(np.abs(a) ** 2, 0), "norms of states", shape=False)
    s2, b = states(ctx, rng, n)
    got = m.get_overlaps(s, s2, print_results=pr)
    want = a.conj().T @ b
    ctx.close(got, np.squeeze(want), "overlaps of two collections of states", shape=True)
    ctx.close(m.get_overlaps(s2, s), np.squeeze(b.conj().T @ a), "overlaps in the other order")
    q, _ = np.linalg.qr(a if a.shape[1] <= n else a[:, :n])
    me = m.get_matrix_elems(q, arg, print_results=pr)
    ctx.close(me, q.conj().T @ op @ q, "matrix elements between states")
    # subspaces
    k = int(rng.integers(1, n + 1))
    u, _ = np.linalg.qr(gen.cmat(rng, n))
    cuts = sorted(rng.integers(0, n + 1, int(rng.integers(0, 3))).tolist())
    ps = [x.conj().T for x in np.split(u, cuts, axis=1) if x.shape[1]]
    arg = [sp.csr_matrix(x) for x in ps]
    want = np.array([np.sum(np.abs(x @ a) ** 2, 0) for x in ps])
    ctx.close(m.get_subspace_overlaps(s, arg, print_results=pr), np.squeeze(want), "weight in subspace")
    ctx.close(m.get_subspace_overlaps(s, arg[0]), np.squeeze(want[0]), "weight in subspace given by a single projector")
    ctx.close(np.atleast_2d(want).sum(0), np.sum(np.abs(a) ** 2, 0), "weights in a complete set of subspaces add up")
    ctx.seen(a, b, op)
    ctx.describe(dimension=n, states=a.shape[1], kind=type(s).__name__)


def model(ctx, rng):
    """model, list of (site operator argument, its full space operator by site), format"""
    if rng.random() < 0.6:
        ns = gen.pick(rng, [1, 2, 2, 3])
        geom, gd = gen.geometry(rng, max(1, 8 // ns), twist=False)
        m = gen.fermions(geom, 0, 0, nspecies=ns)
        nl = geom.nsites * ns
        fmt = gen.pick(rng, ["fermion", "boson"])
        if fmt == "fermion":
            f = lambda l, o: oracle.onsite_fermion(nl, l, dense(o))
            draw = lambda: gen.pick(rng, [m.cdag_op, m.c_op, gen.cmat(rng, 2) * [[0, 1], [1, 0]]])
        else:
            f = lambda l, o: oracle.site_op(2, nl, l, dense(o))
            draw = lambda: gen.pick(rng, [m.n_op, gen.onsite(rng, 2)])
    else:
        m, arr, gd = gen.spin_model(rng, max_dim=256)
        fmt, ns = "boson", 1
        f = lambda l, o: oracle.site_op(m.nbasis, m.geometry.nsites, l, dense(o))
        draw = lambda: gen.pick(rng, [m.sz, m.sx, m.splus, gen.onsite(rng, m.nbasis)])
    as_sparse = not isinstance(m, gen.fermions) and rng.random() < 0.5  # fermions: arrays; spins: all arrays or all sparse
    return m, ns, fmt, f, (lambda: sp.csr_matrix(dense(draw())) if as_sparse else dense(draw())), gd


def projector(ctx, rng, dim):
    """orthonormal rows"""
    r = rng.random()
    if r < 0.5 or dim == 1:
        return None, np.eye(dim)
    ctx.event("projected space")
    if r < 0.75:
        idx = np.sort(rng.choice(dim, int(rng.integers(1, dim + 1)), replace=False))
        p = np.eye(dim)[idx]
    else:
        k = int(rng.integers(1, dim + 1))
        p = np.linalg.qr(gen.cmat(rng, dim, k))[0].conj().T
    return sp.csr_matrix(p), p


def choose(rng, n, pairs=False):
    if rng.random() < 0.4:
        return None
    k = int(rng.integers(1, n + 3))
    s = rng.integers(0, n, k)
    return gen.pick(rng, [s, s.tolist()])


def sites(ctx):
    rng = ctx.rng
    m, ns, fmt, f, draw, gd = model(ctx, rng)
    n, dim = m.geometry.nsites, m.nstates
    parg, p = projector(ctx, rng, dim)
    d = p.shape[0]
    s, a = states(ctx, rng, d)
    kw = {} if parg is None and rng.random() < 0.5 else dict(projector=parg)
    if not (fmt == "fermion" and rng.random() < 0.4):  # the default
        kw["format"] = fmt
    # one site
    o, sp1 = draw(), int(rng.integers(ns))
    arg = choose(rng, n)
    got, ss = m.get_exp_vals_sites(s, o, sp1, arg, **kw)
    want_s = list(range(n)) if arg is None else list(arg)
    ctx.check(list(ss) == want_s, "sites of the site resolved averages")
    full = lambda i, s, o: p @ (f(n * s + i, o) @ p.conj().T)
    if fmt == "boson":
        w = np.array([[np.vdot(x, full(i, sp1, o) @ x).real for x in a.T] for i in want_s])
        ctx.close(got, w, "site resolved averages")
    else:
        w = np.array([[np.vdot(x, full(i, sp1, o) @ x).real for x in a.T] for i in want_s])
        ctx.close(got, w, "site resolved averages: fermionic")
    # pairs
    o1, o2, sa, sb = draw(), draw(), int(rng.integers(ns)), int(rng.integers(ns))
    if rng.random() < 0.4:
        s1 = s2 = None
        want_p = sorted((i, j) for i in range(n) for j in range(i + 1))
        ctx.event("all pairs")
    else:
        k = int(rng.integers(1, 5))
        s1, s2 = rng.integers(0, n, k), rng.integers(0, n, k)
        want_p = list(zip(s1.tolist(), s2.tolist()))
        if rng.random() < 0.5:
            s1, s2 = s1.tolist(), s2.tolist()
    got, r1, r2 = m.get_corr_sites(s, sa, sb, o1, o2, s1, s2, **kw)
    pr = [(int(i), int(j)) for i, j in zip(r1, r2)]
    ctx.check((sorted(pr) if s1 is None else pr) == want_p, "pairs of sites of the correlators")
    for q, (i, j) in enumerate(pr):
        op = p @ (f(n * sa + i, o1) @ f(n * sb + j, o2) @ p.conj().T)
        ctx.close(got[q], [np.vdot(x, op @ x).real for x in a.T], "two site correlator", tol=1e-8)
    ctx.seen(gd, fmt, dense(o), dense(o1), dense(o2), a)
    ctx.describe(model=gd, species=ns, format=fmt, projected=d)


def thermal(ctx):
    rng = ctx.rng
    m, ns, fmt, f, draw, gd = model(ctx, rng)
    n, dim = m.geometry.nsites, m.nstates
    parg, p = projector(ctx, rng, dim)
    d = p.shape[0]
    h = gen.hermitian(rng, d, real=rng.random() < 0.5)
    if rng.random() < 0.3:
        h = np.diag(np.round(np.diag(h)).real)
    e, v = m.diagH(sp.csr_matrix(h))
    if rng.random() < 0.3 and d > 1:  # only the lowest states are known
        k = int(rng.integers(1, d))
        e, v = e[:k], v[:, :k]
        ctx.event("truncated set of states")
    ts = [float(10 ** rng.uniform(-2, 2)) if rng.random() < 0.8 else int(rng.integers(1, 4)) for _ in range(int(rng.integers(1, 4)))]
    if np.sum(np.abs(e - e[0]) < 1e-7) == np.sum(np.abs(e - e[0]) < 1e-11) and rng.random() < 0.5:
        ts.insert(int(rng.integers(len(ts) + 1)), 0.0)
    rho = []
    for t in ts:
        w = oracle.boltzmann(e, t)
        rho.append((v * w) @ v.conj().T)
    kw = {} if parg is None and rng.random() < 0.5 else dict(projector=parg)
    kw["print_results"] = gen.flag(rng)
    if not (fmt == "fermion" and rng.random() < 0.4):  # the default
        kw["format"] = fmt
    o, sp1 = draw(), int(rng.integers(ns))
    arg = choose(rng, n)
    targ = gen.pick(rng, [np.array(ts), ts])
    got, ss = m.get_thermal_exp_sites(v, e, o, sp1, targ, arg, **kw)
    ctx.check(list(ss) == (list(range(n)) if arg is None else list(arg)), "sites of the thermal averages")
    for q, i in enumerate(ss):
        op = p @ (f(n * sp1 + i, o) @ p.conj().T)
        ctx.close(got[q], [np.trace(r @ op).real for r in rho], "thermal site average", tol=1e-8)
    o1, o2, sa, sb = draw(), draw(), int(rng.integers(ns)), int(rng.integers(ns))
    if rng.random() < 0.4 and n <= 5:
        s1 = s2 = None
        want_p = sorted((i, j) for i in range(n) for j in range(i + 1))
        ctx.event("all pairs")
    else:
        k = int(rng.integers(1, 4))
        s1, s2 = rng.integers(0, n, k), rng.integers(0, n, k)
        want_p = list(zip(s1.tolist(), s2.tolist()))
        if rng.random() < 0.5:
            s1, s2 = s1.tolist(), tuple(s2.tolist())
    got, r1, r2 = m.get_thermal_corr_sites(v, e, sa, sb, o1, o2, targ, s1, s2, **kw)
    pr = [(int(i), int(j)) for i, j in zip(r1, r2)]
    ctx.check((sorted(pr) if s1 is None else pr) == want_p, "pairs of sites of the thermal correlators")
    for q, (i, j) in enumerate(pr):
        op = p @ (f(n * sa + i, o1) @ f(n * sb + j, o2) @ p.conj().T)
        ctx.close(got[q], [np.trace(r @ op).real for r in rho], "thermal two site correlator", tol=1e-8)
    ctx.seen(gd, fmt, dense(o), dense(o1), dense(o2), e, ts)
    ctx.describe(model=gd, species=ns, format=fmt, projected=d, temps=ts)


def subspaces(ctx):
    """decomposition into the eigenspaces of an operator which is diagonal in the basis"""
    rng = ctx.rng
    n = int(gen.pick(rng, [1, 2, 4, 16, 60]))
    kind = gen.pick(rng, ["integers", "large", "close", "negative", "halves"])
    pool = dict(integers=np.arange(4.), large=1000 + np.arange(4) / 2., close=2 + np.arange(4) * 1e-7, negative=-np.arange(4.) - 0.25,
                halves=np.arange(-2, 2) + 0.5)[kind]
    m = gen.spinSystem(gen.Geometry.createSquareGeometry(2, 1))
    vals = rng.choice(pool, n)
    arg = sp.csr_matrix(np.diag(vals))
    uniq = np.unique(vals)
    r = rng.random()
    if r < 0.5:
        got, ev = m.get_subspace_projs(arg, print_results=gen.flag(rng)) if rng.random() < 0.5 else m.get_subspace_projs(arg, None)
        want = uniq
    elif r < 0.7:
        want = uniq[[int(rng.integers(len(uniq)))]]
        got, ev = m.get_subspace_projs(arg, eig_vals=float(want[0]))
    else:
        want = rng.permutation(uniq)[:int(rng.integers(1, len(uniq) + 1))]
        got, ev = m.get_subspace_projs(arg, eig_vals=want if rng.random() < 0.5 else want.tolist())
    ev = np.ravel(np.asarray(ev, float))
    got = got if isinstance(got, (list, tuple)) else [got]
    ctx.check(np.array_equal(np.sort(ev), np.sort(want)) if r < 0.5 else np.array_equal(ev, want), f"eigenspaces: values {ev} instead of {want}")
    ctx.check(len(got) == len(ev), "eigenspaces: one projector per value")
    s, a = states(ctx, rng, n)
    for p, v in zip(got, ev):
        rows = np.flatnonzero(vals == v)
        ctx.close(p, np.eye(n)[rows], "eigenspaces: rows are the basis states with this value")
    w = np.array([np.sum(np.abs(a[vals == v]) ** 2, 0) for v in ev])
    ctx.close(m.get_subspace_overlaps(s, list(got)), np.squeeze(w), "weight in subspace of an eigenvalue")
    ctx.seen(kind, vals, want)
    ctx.describe(kind=kind, dimension=n, values=want)


SCENARIOS = {"subspaces": (subspaces, 120, 1200), "inner": (inner, 160, 2500), "sites": (sites, 120, 1500), "thermal": (thermal, 100, 1200)}
