"""C06: symmetry projectors."""
import numpy as np
import scipy.sparse as sp
from vmon import gen, oracle, symm
from vmon.core import dense

sym = gen.sym
RULE = ("uniform fermion and spin models on rings, tori (square, tilted, triangular, also twisted), open clusters, polygons "
        "and the 3x3 torus, in the full space and in number sectors; the projectors returned for Z_n, 2D translations, "
        "D2-D7 and C4v*(Z3xZ3) are compared with the group theoretical projectors made from independently constructed "
        "permutation operators. Distinct by group, geometry, model and sector.")
ASSUMPTIONS = ["dimension <= 1024", "transformations which map the cluster onto itself", "floating point tolerance 1e-8",
               "irreps in the documented order (Z_n, D2, D3, D4, 3x3) or in that of the character table (D5, D6, D7)"]
REQUIRED = ["call:ed_symmetry.getZnProjectors", "call:ed_symmetry.get2DTranslationProjectors",
            "call:ed_symmetry.getC4V_and_3byb3"] + [f"call:ed_symmetry.getD{n}Projectors" for n in range(2, 8)]


def taps():
    return [(sym, n, None) for n in ["getZnProjectors", "get2DTranslationProjectors", "getC4V_and_3byb3",
                                     "get_symmetry_projectors", "reduce_symm_projector", "validate_char_table"] +
            [f"getD{n}Projectors" for n in range(2, 8)]]


def complete(ctx, projs, dim, what):
    """orthonormal, mutually orthogonal, complete"""
    p = sp.vstack([sp.csr_matrix(q) for q in projs if q.shape[0] > 0]).tocsr()
    ctx.check(all(q.shape[1] == dim for q in projs), f"{what}: projectors act on the given space")
    ctx.check(p.shape[0] == dim, f"{what}: dimensions add up to {p.shape[0]} instead of {dim}")
    ctx.close(p @ p.conj().T, sp.eye(dim), f"{what}: projectors are orthonormal and mutually orthogonal", tol=1e-8)
    ctx.close(p.conj().T @ p, sp.eye(dim), f"{what}: projectors are complete", tol=1e-8)


def blocks(ctx, projs, h, what):
    hs = 1 + abs(h).max()
    for i, p in enumerate(projs):
        for j, q in enumerate(projs):
            if i < j and p.shape[0] and q.shape[0]:
                b = sp.csr_matrix(p) @ h @ sp.csr_matrix(q).conj().T
                ctx.check(b.nnz == 0 or abs(b).max() < 1e-8 * hs, f"{what}: hamiltonian does not couple sectors")


def setup(rng, geom, dim=512, allow=("fermion1", "fermion2", "spin")):
    """model, base space (full or number sector)"""
    m, k = symm.uniform_model(rng, geom, dim, allow)
    if m is None:
        m, k = symm.uniform_model(rng, geom, dim, ("fermion1",))
    base = None
    if isinstance(m, gen.fermions) and rng.random() < 0.5:
        n = geom.nsites
        ns = [int(rng.integers(0, n + 1)) for _ in range(m.nspecies)]
        base = gen.fermions(geom, 0, 1, ns=np.array(ns), nspecies=m.nspecies).n_projector
        k = f"{k}, ns={ns}"
    return m, k, base


def cycles_op(ctx, m, fn, base):
    cyc, n = sym.findSiteCycles(fn, m.geometry)
    t = m.get_xform_op(cyc)
    if base is not None:
        t = base @ t @ base.conj().T
    return sp.csr_matrix(t), n


def ham(m, base):
    return m.createH() if base is None else m.createH(projector=base)


def red(o, base):
    return sp.csr_matrix(o if base is None else base @ o @ base.conj().T)


def zn(ctx):
    rng = ctx.rng
    r = rng.random()
    if r < 0.4:
        g, v = symm.periodic_1d(rng)
        fn = sym.getTranslFn(np.array(v))
        perm = symm.site_perm(g, lambda x, y: (x + v[0], y + v[1]))
    elif r < 0.6:
        g, v1, v2, _ = symm.torus(rng)
        v = gen.pick(rng, [v1, v2])
        fn = sym.getTranslFn(v if rng.random() < 0.5 else v[:, None])
        perm = symm.site_perm(g, lambda x, y: (x + v[0], y + v[1]))
    elif r < 0.8:
        n = int(rng.integers(3, 9))
        g = gen.Geometry.createRegularPolygonGeometry(n)
        fn = sym.getRotFn(n)
        a = 2 * np.pi / n
        perm = symm.site_perm(g, lambda x, y: (np.cos(a) * x - np.sin(a) * y, np.sin(a) * x + np.cos(a) * y))
    else:
        g = gen.Geometry.createSquareGeometry(*gen.pick(rng, [(2, 1), (3, 1), (5, 1), (2, 3), (3, 3), (1, 4)]))
        cx, cy = g.get_center_of_mass()
        fn = sym.getInversionFn(cx, cy)
        perm = symm.site_perm(g, lambda x, y: (2 * cx - x, 2 * cy - y))
    m, k, base = setup(rng, g)
    t, n = cycles_op(ctx, m, fn, base)
    ctx.check(n == symm.order(perm), "order of the transformation")
    ctx.close(t, red(symm.op_of(m, perm), base), "transformation operator of a coordinate transformation")
    projs, ks = sym.getZnProjectors(t, n, print_results=gen.flag(rng))
    ctx.check(len(projs) == n and len(ks) == n, "one projector per momentum")
    ctx.close(ks, 2 * np.pi * np.arange(n) / n, "momenta")
    complete(ctx, projs, t.shape[0], "Zn")
    for p, q in zip(projs, ks):
        if p.shape[0]:
            ctx.close(t @ p.conj().T, np.exp(-1j * q) * p.conj().T, "Zn: states have the momentum of their sector", tol=1e-8)
    h = ham(m, base)
    ctx.check(abs(h @ t - t @ h).max() < 1e-8 * (1 + abs(h).max()) if h.nnz else True, "Zn: transformation is a symmetry of the model")
    blocks(ctx, projs, h, "Zn")
    ctx.seen("Zn", n, k, perm)
    ctx.describe(group=f"Z{n}", model=k, sites=g.nsites)


def transl2d(ctx):
    rng = ctx.rng
    g, v1, v2, kind = symm.torus(rng)
    m, k, base = setup(rng, g)
    p1 = symm.site_perm(g, lambda x, y: (x + v1[0], y + v1[1]))
    p2 = symm.site_perm(g, lambda x, y: (x + v2[0], y + v2[1]))
    t1, n1 = cycles_op(ctx, m, sym.getTranslFn(v1), base)
    t2, n2 = cycles_op(ctx, m, sym.getTranslFn(v2), base)
    ctx.check((n1, n2) == (symm.order(p1), symm.order(p2)), "order of the translations")
    projs, k1, k2 = sym.get2DTranslationProjectors(t1, n1, t2, n2, print_results=gen.flag(rng))
    ctx.check(len(projs) == len(k1) == len(k2), "one pair of momenta per projector")
    complete(ctx, projs, t1.shape[0], "2D translations")
    o1, o2 = red(symm.op_of(m, p1), base), red(symm.op_of(m, p2), base)
    for p, a, b in zip(projs, k1, k2):
        ctx.close(o1 @ p.conj().T, np.exp(-1j * a) * p.conj().T, "2D translations: momentum along direction 1", tol=1e-8)
        ctx.close(o2 @ p.conj().T, np.exp(-1j * b) * p.conj().T, "2D translations: momentum along direction 2", tol=1e-8)
    ctx.check(len({(round(a, 6), round(b, 6)) for a, b in zip(k1, k2)}) == len(projs), "2D translations: each momentum once")
    blocks(ctx, projs, ham(m, base), "2D translations")
    ctx.seen("T2", kind, k, g.nsites, p1, p2)
    ctx.describe(group="2D translations", lattice=kind, orders=(n1, n2), model=k, sectors=len(projs))


ORDER = {5: ["A1", "A2", "E2", "E1"], 6: ["A1", "A2", "B1", "B2", "E2", "E1"], 7: ["A1", "A2", "E1", "E2", "E3"]}


def char_projector(els, chars, d, ops):
    return sum(np.conj(c) * ops[e] for e, c in zip(els, chars)) * (d / len(els))


def class_check(ctx, projs, els, m, base, what):
    """each sector is a simultaneous eigenspace of all class sums, and different irreps differ in the eigenvalues"""
    ops = {e: red(symm.op_of(m, e), base) for e in els}
    rng = np.random.default_rng(7)
    cl = symm.classes(els)
    cs = sum(w * sum(ops[e] for e in c) for w, c in zip(rng.normal(size=len(cl)), cl))
    lam = []
    for p in projs:
        if p.shape[0] == 0:
            continue
        b = (p @ cs @ p.conj().T).toarray()
        l0 = b[0, 0]
        ctx.close(cs @ p.conj().T, l0 * p.conj().T, f"{what}: sector is made of a single irreducible representation", tol=1e-7)
        lam.append(l0)
    lam = np.array(lam)
    dist = np.abs(lam[:, None] - lam[None, :]) + np.eye(len(lam))
    ctx.check(dist.min() > 1e-6, f"{what}: no irreducible representation is spread over two sectors")
    return ops


def dihedral(ctx):
    rng = ctx.rng
    g, n, (cx, cy), axis = symm.dihedral(rng, 2 + ctx.index % 6)
    m, k, base = setup(rng, g, 512 if g.nsites == 9 else 256 if n < 7 else 128)
    if g.nsites <= 4 and rng.random() < 0.3:
        m, k, base = setup(rng, g, 256, ("spin", "spin1"))
    rot, nr = cycles_op(ctx, m, sym.getRotFn(n, cx, cy), base)
    ref, nf = cycles_op(ctx, m, sym.getReflFn(np.array(axis), cx, cy), base)
    a = 2 * np.pi / n
    pr = symm.site_perm(g, lambda x, y: (np.cos(a) * (x - cx) - np.sin(a) * (y - cy) + cx,
                                         np.sin(a) * (x - cx) + np.cos(a) * (y - cy) + cy))
    u = np.array(axis, float) / np.linalg.norm(axis)
    mat = 2 * np.outer(u, u) - np.eye(2)
    pf = symm.site_perm(g, lambda x, y: (mat[0, 0] * (x - cx) + mat[0, 1] * (y - cy) + cx,
                                         mat[1, 0] * (x - cx) + mat[1, 1] * (y - cy) + cy))
    ctx.close(rot, red(symm.op_of(m, pr), base), "rotation operator")
    ctx.close(ref, red(symm.op_of(m, pf), base), "reflection operator")
    projs = getattr(sym, f"getD{n}Projectors")(rot, ref, print_results=gen.flag(rng))
    what = f"D{n}"
    complete(ctx, projs, rot.shape[0], what)
    # abstract group: elements R^j, R^j s
    powers = [tuple(range(g.nsites))]
    for _ in range(n - 1):
        powers.append(symm.compose(pr, powers[-1]))
    rops = [red(symm.op_of(m, p), base) for p in powers]
    sops = [red(symm.op_of(m, symm.compose(p, pf)), base) for p in powers]
    js = np.arange(n)
    irreps = [("A1", 1, np.ones(n), np.ones(n)), ("A2", 1, np.ones(n), -np.ones(n))]
    if n % 2 == 0:
        irreps += [("B1", 1, (-1.0) ** js, (-1.0) ** js), ("B2", 1, (-1.0) ** js, -(-1.0) ** js)]
    irreps += [(f"E{q}", 2, 2 * np.cos(2 * np.pi * q * js / n), np.zeros(n)) for q in range(1, (n + 1) // 2)]
    ctx.check(len(projs) == len(irreps), f"{what}: one projector per irreducible representation")
    full = [(nm, d / (2 * n) * sum(c * o + e * s for c, o, e, s in zip(cr, rops, cs, sops))) for nm, d, cr, cs in irreps]
    # the order of the rows of the character table: documented for n <= 4, fixed by the table of the function for n > 4
    full = dict(full)
    for p, nm in zip(projs, ORDER.get(n) or list(full)):
        ctx.close(p.conj().T @ p, full[nm], f"{what}: sector has the irreducible representation of its row of the character table", tol=1e-8)
    blocks(ctx, projs, ham(m, base), what)
    ctx.seen(what, k, pr, pf)
    ctx.describe(group=what, model=k, sites=g.nsites, axis=axis, dims=[p.shape[0] for p in projs])


def c4v3x3(ctx):
    rng = ctx.rng
    g = gen.Geometry.createSquareGeometry(3, 3, 0, 0, bc1_open=False, bc2_open=False)
    if rng.random() < 0.5:
        g.permute_sites([int(x) for x in rng.permutation(9)])
    c = gen.pick(rng, [(1.0, 1.0), (0.0, 0.0), (2.0, 2.0), (1.0, 0.0)])
    m, k, base = setup(rng, g, 512, ("fermion1", "spin"))
    if base is None and rng.random() < 0.8 and isinstance(m, gen.fermions):
        ns = int(rng.integers(0, 10))
        base = gen.fermions(g, 0, 1, ns=ns, nspecies=1).n_projector
        k = f"{k}, ns={ns}"
    elif base is None and ctx.tier == "quick" and rng.random() < 0.7 and not isinstance(m, gen.fermions):
        j = gen.coupling(rng, False)
        m = gen.spinSystem(g, jx=j, jy=j, jz=gen.coupling(rng), hz=gen.coupling(rng))
        szs = m.get_sum_op(m.sz).tocsr()
        base = m.get_subspace_projs(szs, eig_vals=float(rng.integers(0, 10)) - 4.5)[0][0]
        k = f"spin, {base.shape[0]} states"
    axis = gen.pick(rng, [(0, 1)])
    rot, _ = cycles_op(ctx, m, sym.getRotFn(4, *c), base)
    ref, _ = cycles_op(ctx, m, sym.getReflFn(np.array(axis), *c), base)
    tx, _ = cycles_op(ctx, m, sym.getTranslFn(np.array([1, 0])), base)
    ty, _ = cycles_op(ctx, m, sym.getTranslFn(np.array([0, 1])), base)
    projs = sym.getC4V_and_3byb3(rot, ref, tx, ty, print_results=gen.flag(rng))
    complete(ctx, projs, rot.shape[0], "C4v and 3x3")
    gens = [symm.site_perm(g, f) for f in (lambda x, y: (x + 1, y), lambda x, y: (x, y + 1),
                                           lambda x, y: (c[0] - (y - c[1]), c[1] + (x - c[0])),
                                           lambda x, y: (2 * c[0] - x, y))]
    els = symm.group(gens)
    ctx.check(len(els) == 72, "C4v and 3x3: group has 72 elements")
    ops = class_check(ctx, projs, els, m, base, "C4v and 3x3")
    # documented characters: on E, reflections (x -> -x), R^2, diagonal reflections, R, Tx
    tx_, ty_, r_, s_ = gens
    chars = [(1, 1, 1, 1, 1), (-1, 1, -1, 1, 1), (-1, 1, 1, -1, 1), (1, 1, -1, -1, 1), (0, -2, 0, 0, 2),
             (-2, 0, 0, 0, 1), (0, 0, -2, 0, -2), (0, 0, 2, 0, -2), (2, 0, 0, 0, 1)]
    dims = (1, 1, 1, 1, 2, 4, 4, 4, 4)
    ctx.check(len(projs) == 9, "C4v and 3x3: one projector per irreducible representation")
    for p, ch, d in zip(projs, chars, dims):
        ctx.check(p.shape[0] % d == 0, "C4v and 3x3: sector dimension is a multiple of that of its irreducible representation")
        for c_, e in zip(ch, (s_, symm.compose(r_, r_), symm.compose(r_, s_), r_, tx_)):
            tr = (p @ ops[e] @ p.conj().T).diagonal().sum()
            ctx.close(tr, c_ * p.shape[0] / d, "C4v and 3x3: characters of the sector", tol=1e-8)
    blocks(ctx, projs, ham(m, base), "C4v and 3x3")
    ctx.seen("C4v3x3", k, c)
    ctx.describe(group="C4v and 3x3", model=k, dims=[p.shape[0] for p in projs])


def gauged(ctx):
    """the projectors for transformations combined with a change of the phases of the basis states (complex operators)"""
    rng = ctx.rng
    g, n, (cx, cy), axis = symm.dihedral(rng, 2 + ctx.index % 6)
    m, k, base = setup(rng, g, 512 if g.nsites > 7 else 128)
    rot, _ = cycles_op(ctx, m, sym.getRotFn(n, cx, cy), base)
    ref, _ = cycles_op(ctx, m, sym.getReflFn(np.array(axis), cx, cy), base)
    u = sp.diags(np.exp(1j * rng.uniform(0, 2 * np.pi, rot.shape[0]))).tocsr()
    fn = getattr(sym, f"getD{n}Projectors")
    want = fn(rot, ref)
    got = fn((u @ rot @ u.conj().T).tocsr(), (u @ ref @ u.conj().T).tocsr())
    what = f"D{n} with complex operators"
    ctx.check(len(got) == len(want), f"{what}: number of sectors")
    complete(ctx, got, rot.shape[0], what)
    for p, q in zip(got, want):
        q = sp.csr_matrix(q) @ u.conj().T
        ctx.check(p.shape == q.shape, f"{what}: dimension of the sector")
        ctx.close(p.conj().T @ p, q.conj().T @ q, f"{what}: same sector in the changed basis", tol=1e-8)
    blocks(ctx, got, (u @ ham(m, base) @ u.conj().T).tocsr(), what)
    ctx.seen(what, k, g.nsites)
    ctx.describe(group=what, model=k, sites=g.nsites, dims=[p.shape[0] for p in got])


def chartable(ctx):
    """character tables which violate orthogonality are refused, correct ones are accepted"""
    rng = ctx.rng
    n = int(rng.integers(2, 8))
    k = np.arange(n)
    tab = np.exp(-2j * np.pi * np.outer(k, k) / n)
    cls = [[0]] * n
    ctx.check(sym.validate_char_table(tab, cls), "valid character table is accepted")
    ctx.check(sym.validate_char_table(tab[rng.permutation(n)], cls), "valid character table is accepted: reordered")
    i, j = int(rng.integers(n)), int(rng.integers(n))
    bad = tab.copy()
    bad[i, j] = -bad[i, j]
    ctx.check(not sym.validate_char_table(bad, cls), "invalid character table is refused")
    g = gen.Geometry.createRegularPolygonGeometry(max(n, 3))
    m = gen.spinSystem(g)
    t = m.get_xform_op([list(range(g.nsites))])
    if n >= 3:
        ctx.raises(lambda: sym.get_symmetry_projectors(bad, [[t ** q] if q else [sp.eye(t.shape[0], format="csr")] for q in range(n)]),
                   "projectors for an invalid character table are refused")
    ctx.seen(n, i, j)


SCENARIOS = {"zn": (zn, 48, 600), "transl2d": (transl2d, 32, 300), "dihedral": (dihedral, 60, 600), "gauged": (gauged, 24, 300),
             "c4v3x3": (c4v3x3, 8, 60), "chartable": (chartable, 10, 40)}
