"""C01: operators built from on-site matrices."""
import numpy as np
import scipy.sparse as sp
from vmon import gen, oracle
from vmon.core import dense

ed_base = gen.M["ed_base"].ed_base
RULE = ("random models (1-3 species, up to 12 logical sites; spins 1/2 to 5/2), random sites/species and random on-site "
        "matrices; every operator matrix returned is compared element by element with an independent second-quantised "
        "construction. A case is non-trivial if the operator compared is not zero; distinct by model size, sites, "
        "species, format and operator matrices.")
ASSUMPTIONS = ["dimension <= 4096", "floating point comparison at 1e-9",
               "fermion format with parity string (1,-1), as documented in the class"]
REQUIRED = ["call:ed_base.get_single_site_op", "call:ed_base.get_two_site_op", "call:ed_base.get_sum_op",
            "call:ed_base.get_sum_op_q"]


def taps():
    return [(ed_base, n, None) for n in ("get_single_site_op", "get_two_site_op", "get_sum_op", "get_sum_op_q",
                                         "spinful2spinlessIndex", "spinless2spinfullIndex")]


def _fermion(ctx, max_logical):
    rng = ctx.rng
    ns = gen.pick(rng, [1, 2, 2, 3])
    geom, gd = gen.geometry(rng, max(1, max_logical // ns), twist=False)
    m = gen.fermions(geom, 0, 0, nspecies=ns)
    n = geom.nsites
    return m, n, ns, n * ns, gd


def single_fermion(ctx):
    rng = ctx.rng
    m, n, ns, nl, gd = _fermion(ctx, int(gen.pick(rng, [3, 6, 8, 10])))
    ctx.check(m.nstates == 2 ** nl, "number of states")
    for _ in range(4):
        i, s = int(rng.integers(n)), int(rng.integers(ns))
        op = gen.pick(rng, [m.cdag_op, m.c_op, m.n_op, gen.onsite(rng, 2)])
        fmt = gen.pick(rng, ["fermion", "boson"])
        l = n * s + i
        got = m.get_single_site_op(i, s, op, format=fmt) if rng.random() < 0.7 else \
            (m.get_single_site_op(i, s, op) if fmt == "fermion" else m.get_single_site_op(i, s, op, "boson"))
        if fmt == "fermion":
            # diag part carries the string as well in this format: op (x) P (x) P ..., i.e. for an odd operator the
            # fermionic one
            occ = oracle.fermion_occ(nl)
            par = sp.diags((-1.0) ** (occ[l + 1:].sum(0) if l + 1 < nl else np.zeros(2 ** nl)))
            want = oracle.site_op(2, nl, l, op) @ par
            if np.allclose(np.diag(op), 0):
                ctx.close(got, oracle.onsite_fermion(nl, l, op), "odd single site operator is fermionic")
        else:
            want = oracle.site_op(2, nl, l, op)
        ctx.close(got, want, "single site operator: fermion model, format " + fmt)
        ctx.seen(nl, l, fmt, np.asarray(op))
    ctx.describe(geom=gd, species=ns)


def car(ctx):
    """canonical anticommutation relations for all pairs, between all species"""
    rng = ctx.rng
    m, n, ns, nl, gd = _fermion(ctx, int(gen.pick(rng, [4, 6, 7])))
    cd = [m.get_single_site_op(l % n, l // n, m.cdag_op, format="fermion").tocsr() for l in range(nl)]
    c = [m.get_single_site_op(l % n, l // n, m.c_op, format="fermion").tocsr() for l in range(nl)]
    one = sp.eye(2 ** nl)
    for a in range(nl):
        num = m.get_single_site_op(a % n, a // n, m.n_op, format="boson")
        ctx.close(cd[a] @ c[a], num, "number operator is c+ c")
        ctx.close(cd[a], c[a].conj().T, "c+ is adjoint of c")
        for b in range(nl):
            ctx.close(cd[a] @ c[b] + c[b] @ cd[a], (a == b) * one, "anticommutator {c+,c}")
            ctx.close(c[a] @ c[b] + c[b] @ c[a], 0 * one, "anticommutator {c,c}")
    # documented ordering of creation operators in a basis state
    vac = np.zeros(2 ** nl)
    vac[0] = 1
    b = int(rng.integers(2 ** nl))
    v = vac
    for l in range(nl):
        if (b >> (nl - 1 - l)) & 1:
            v = cd[l] @ v
    want = np.zeros(2 ** nl)
    want[b] = 1
    ctx.close(v, want, "basis state is ordered product of creation operators")
    ctx.seen(nl, ns, gd["kind"], b)
    ctx.describe(geom=gd, species=ns, basis_state=b)


def two_site_fermion(ctx):
    rng = ctx.rng
    m, n, ns, nl, gd = _fermion(ctx, int(gen.pick(rng, [2, 4, 6, 8, 10, 12] if ctx.tier == "thorough" else [2, 4, 6, 8, 10])))
    for _ in range(4):
        i, j = int(rng.integers(n)), int(rng.integers(n))
        s, t = int(rng.integers(ns)), int(rng.integers(ns))
        l, k = n * s + i, n * t + j
        r = rng.random()
        if r < 0.5:
            o1, o2 = gen.pick(rng, [(m.cdag_op, m.c_op), (m.c_op, m.cdag_op), (m.cdag_op, m.cdag_op), (m.c_op, m.c_op)])
            fmt = "fermion"
        elif r < 0.7:  # general odd operators
            z = gen.cmat(rng, 2)
            w = gen.cmat(rng, 2)
            o1, o2 = z * [[0, 1], [1, 0]], w * [[0, 1], [1, 0]]
            fmt = "fermion"
        else:
            o1, o2, fmt = gen.onsite(rng, 2), gen.onsite(rng, 2), "boson"
        got = m.get_two_site_op(i, s, j, t, o1, o2, format=fmt)
        if fmt == "fermion":
            want = oracle.onsite_fermion(nl, l, o1) @ oracle.onsite_fermion(nl, k, o2)
        else:
            want = oracle.site_op(2, nl, l, o1) @ oracle.site_op(2, nl, k, o2)
        ctx.close(got, want, "two site operator is ordered product: fermion model, format " + fmt)
        ctx.seen(nl, l, k, fmt, np.asarray(o1), np.asarray(o2))
    ctx.describe(geom=gd, species=ns, sites=(i, s, j, t), format=fmt)


def spin_ops(ctx):
    rng = ctx.rng
    m, arr, d = gen.spin_model(rng, max_dim=int(gen.pick(rng, [30, 260, 1100])))
    n, dd = m.geometry.nsites, m.nbasis
    ctx.check(m.nstates == dd ** n, "number of states")
    for _ in range(4):
        i, j = int(rng.integers(n)), int(rng.integers(n))
        o1, o2 = gen.onsite(rng, dd), gen.onsite(rng, dd)
        if rng.random() < 0.3:
            o1, o2 = gen.pick(rng, [(m.splus, m.sminus), (m.sx, m.sy), (m.sz, m.sz), (m.sy, m.sminus)])
        w1, w2 = dense(o1), dense(o2)
        ctx.close(m.get_single_site_op(i, 0, o1, format="boson"), oracle.site_op(dd, n, i, w1),
                  "single site operator: spin model")
        ctx.close(m.get_two_site_op(i, 0, j, 0, o1, o2, format="boson"),
                  oracle.site_op(dd, n, i, w1) @ oracle.site_op(dd, n, j, w2),
                  "two site operator is ordered product: spin model")
        ctx.seen(dd, n, i, j, w1, w2)
    ctx.describe(model=d, sites=(i, j))


def sums(ctx):
    rng = ctx.rng
    pr = gen.flag(rng)
    if rng.random() < 0.6:
        m, n, ns, nl, gd = _fermion(ctx, int(gen.pick(rng, [3, 6, 8])))
        s = int(rng.integers(ns))
        fmt = gen.pick(rng, ["fermion", "boson"])
        if fmt == "fermion":
            op = gen.onsite(rng, 2) * np.array([[0, 1], [1, 0]])
            ops = [oracle.onsite_fermion(nl, n * s + i, op) for i in range(n)]
        else:
            op = gen.onsite(rng, 2)
            ops = [oracle.site_op(2, nl, n * s + i, op) for i in range(n)]
        got = m.get_sum_op(op, s, format=fmt, print_results=pr)
    else:
        m, arr, gd = gen.spin_model(rng, max_dim=260)
        n, s, fmt = m.geometry.nsites, 0, "boson"
        op = gen.onsite(rng, m.nbasis)
        ops = [oracle.site_op(m.nbasis, n, i, op) for i in range(n)]
        got = m.get_sum_op(op)
    ctx.close(got, sum(ops), "sum operator")
    q = rng.uniform(-7, 7, 2) if rng.random() < 0.7 else gen.pick(rng, [[0, 0], [np.pi, np.pi], (np.pi, 0)])
    g = m.geometry
    want = sum(np.exp(1j * (q[0] * g.xlocs[i] + q[1] * g.ylocs[i])) * ops[i] for i in range(n))
    ctx.close(m.get_sum_op_q(s, q, op, format=fmt, print_results=pr), want, "momentum space operator")
    ctx.seen(n, s, fmt, np.asarray(op), np.asarray(q))
    ctx.describe(model=gd, species=s, q=q, format=fmt)


def index_map(ctx):
    """the (site, species) numbering is a bijection, in both directions"""
    rng = ctx.rng
    n, ns = int(rng.integers(1, 40)), int(rng.integers(1, 6))
    m = gen.fermions(gen.Geometry.createSquareGeometry(1, 1), 0, 0, nspecies=1)
    seen = set()
    for s in range(ns):
        for i in range(n):
            l = m.spinful2spinlessIndex(i, n, s)
            ctx.check(0 <= l < n * ns, "logical index in range")
            seen.add(int(l))
            b = m.spinless2spinfullIndex(l, n)
            ctx.check(tuple(int(x) for x in b) == (i, s) and all(x == int(x) for x in b), "index maps are inverse")
            r = range(3)[b[1] % 3]  # must be usable as an index
    ctx.check(len(seen) == n * ns, "index map is a bijection")
    ctx.seen(n, ns)


def refused(ctx):
    """a statistics which does not exist is not treated as one which does"""
    rng = ctx.rng
    m, n, ns, nl, gd = _fermion(ctx, 6)
    bad = gen.pick(rng, ["anyon", "Fermion", "fermions", "", None, "bosonic", 1])
    i, j, s = int(rng.integers(n)), int(rng.integers(n)), int(rng.integers(ns))
    ctx.raises(lambda: m.get_single_site_op(i, s, m.c_op, format=bad), "unknown statistics is rejected: one site")
    if i != j:
        ctx.raises(lambda: m.get_two_site_op(i, s, j, s, m.cdag_op, m.c_op, format=bad), "unknown statistics is rejected: two sites")
    ctx.raises(lambda: m.get_sum_op(m.n_op, s, format=bad), "unknown statistics is rejected: sum")
    ctx.seen(n, ns, i, j, s, bad)
    ctx.describe(model=gd, format=bad)


def large(ctx):
    """many sites: operators far apart, long strings"""
    rng = ctx.rng
    ns = int(gen.pick(rng, [1, 2, 3, 4, 6]))
    n = int(rng.integers(11, 15)) // ns
    nl = n * ns
    geom = gen.Geometry.createSquareGeometry(n, 1)
    m = gen.fermions(geom, 0, 0, nspecies=ns)
    ctx.check(m.nstates == 2 ** nl, "number of states")
    for _ in range(2):
        i, j, s1, s2 = (int(x) for x in (rng.integers(n), rng.integers(n), rng.integers(ns), rng.integers(ns)))
        if rng.random() < 0.3:
            i, s1, j, s2 = 0, 0, n - 1, ns - 1
        o1, o2 = gen.pick(rng, [(m.cdag_op, m.c_op), (m.c_op, m.c_op), (m.c_op, m.cdag_op)])
        a, b = n * s1 + i, n * s2 + j
        w1, w2 = oracle.onsite_fermion(nl, a, o1), oracle.onsite_fermion(nl, b, o2)
        ctx.close(m.get_single_site_op(i, s1, o1), w1, "odd single site operator is fermionic")
        ctx.close(m.get_two_site_op(i, s1, j, s2, o1, o2), w1 @ w2, "two site operator is ordered product: fermion model")
        o1, o2 = gen.onsite(rng, 2), gen.onsite(rng, 2)
        ctx.close(m.get_two_site_op(i, s1, j, s2, o1, o2, format="boson"), oracle.site_op(2, nl, a, dense(o1)) @ oracle.site_op(2, nl, b, dense(o2)),
                  "two site operator is ordered product: commuting operators")
        ctx.seen(nl, a, b)
    ctx.close(m.get_sum_op(m.n_op, s1, format="boson"), sp.diags(oracle.fermion_occ(nl)[n * s1:n * (s1 + 1)].sum(0).astype(float)), "sum operator")
    ctx.describe(sites=n, species=ns)


SCENARIOS = {"large": (large, 6, 40), "refused": (refused, 8, 100), "single_fermion": (single_fermion, 60, 600), "car": (car, 16, 150), "two_site_fermion": (two_site_fermion, 100, 1500),
             "spin_ops": (spin_ops, 80, 1000), "sums": (sums, 60, 800), "index_map": (index_map, 10, 60)}
