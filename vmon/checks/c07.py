"""C07: working sector by sector gives the results of the full space."""
import itertools

import numpy as np
import scipy.sparse as sp
from vmon import gen, oracle, symm
from vmon.checks import c06

sym = gen.sym
ed_base = gen.M["ed_base"].ed_base
RULE = ("uniform fermion and spin models are split into sectors in several ways (particle number, Z_n, 2D translations, D_n, "
        "C4v*3x3, and translations inside number sectors); spectra, partition functions and thermal averages of random "
        "observables obtained sector by sector are compared with traces over the full space. Distinct by decomposition, "
        "model and temperatures.")
ASSUMPTIONS = ["dimension <= 512", "hermitian observables", "floating point tolerance 1e-7"]
REQUIRED = ["call:ed_base.thermal_avg_combine_sectors", "call:ed_base.get_partition_fn_sectors",
            "oracle:union of sector spectra", "oracle:thermal average combined from sectors", "decomposition:number",
            "decomposition:Zn", "decomposition:T2", "decomposition:dihedral", "decomposition:number+Zn", "zero temperature"]


def taps():
    return [(ed_base, n, None) for n in ("thermal_avg_combine_sectors", "get_partition_fn_sectors", "get_exp_vals_thermal",
                                         "diagH")]


def number(m):
    n = m.geometry.nsites
    return [gen.fermions(m.geometry, 0, 1, ns=np.array(ns), nspecies=m.nspecies).n_projector
            for ns in itertools.product(range(n + 1), repeat=m.nspecies)]


def decompose(ctx, rng, kind):
    if kind == "number":
        g, _ = gen.geometry(rng, 8, nmin=2)
        while True:
            m, k = symm.uniform_model(rng, g, 256, ("fermion1", "fermion2"))
            if m is not None:
                return m, k, number(m)
    if kind in ("Zn", "number+Zn"):
        if rng.random() < 0.6:
            g, v = symm.periodic_1d(rng)
        else:
            g, v, _, _ = symm.torus(rng, 8)
        m, k, _ = c06.setup(rng, g, 256)
        cyc, n = sym.findSiteCycles(sym.getTranslFn(np.array(v)), g)
        t = m.get_xform_op(cyc)
        if kind == "Zn":
            return m, k, sym.getZnProjectors(t, n)[0]
        if not isinstance(m, gen.fermions):
            if np.any(np.imag(g.phase_mat) != 0):
                return None
            m = gen.fermions(g, 0, 1.0, us_same_species=gen.coupling(rng), nspecies=1)
            k, t = "fermion1", None
            t = m.get_xform_op(cyc)
        out = []
        for p in number(m):
            zs, _ = sym.getZnProjectors(sp.csr_matrix(p @ t @ p.conj().T), n)
            out += [z @ p for z in zs]
        return m, k, out
    if kind == "T2":
        g, v1, v2, _ = symm.torus(rng)
        m, k, _ = c06.setup(rng, g)
        t1, n1 = c06.cycles_op(None, m, sym.getTranslFn(v1), None)
        t2, n2 = c06.cycles_op(None, m, sym.getTranslFn(v2), None)
        return m, k, list(sym.get2DTranslationProjectors(t1, n1, t2, n2)[0])
    if kind == "dihedral":
        g, n, (cx, cy), axis = symm.dihedral(rng)
        m, k, _ = c06.setup(rng, g, 512 if g.nsites == 9 else 256)
        rot, _ = c06.cycles_op(None, m, sym.getRotFn(n, cx, cy), None)
        ref, _ = c06.cycles_op(None, m, sym.getReflFn(np.array(axis), cx, cy), None)
        return m, f"D{n} {k}", getattr(sym, f"getD{n}Projectors")(rot, ref)
    g = gen.Geometry.createSquareGeometry(3, 3, 0, 0, bc1_open=False, bc2_open=False)
    m, k, _ = c06.setup(rng, g, 512, ("fermion1", "spin"))
    ops = [c06.cycles_op(None, m, f, None)[0] for f in (sym.getRotFn(4, 1, 1), sym.getReflFn(np.array([0, 1]), 1, 1),
                                                        sym.getTranslFn(np.array([1, 0])), sym.getTranslFn(np.array([0, 1])))]
    return m, k, sym.getC4V_and_3byb3(*ops)


def run(kind):
    def fn(ctx):
        rng = ctx.rng
        out = None
        while out is None:
            out = decompose(ctx, rng, kind)
        m, k, projs = out
        projs = [p for p in projs if p.shape[0] > 0]
        h = m.createH().toarray()
        e, v = np.linalg.eigh(h)
        dim = len(e)
        if rng.random() < 0.4:
            i, s = int(rng.integers(m.geometry.nsites)), int(rng.integers(m.nspecies))
            op = m.get_single_site_op(i, s, gen.hermitian(rng, m.nbasis) if not isinstance(m, gen.fermions) else m.n_op,
                                      format="boson").tocsr()
        elif rng.random() < 0.5:
            op = sp.csr_matrix(np.diag(rng.normal(size=dim)))
        else:
            op = sp.random(dim, dim, 0.05, random_state=int(rng.integers(1 << 30)), format="csr") + sp.eye(dim)
            op = (op + op.T).tocsr()
        gap = max(e[-1] - e[0], 1e-3)
        temps = np.sort(np.concatenate([[0.0], gap * 10 ** rng.uniform(-2.5, 1, int(gen.pick(rng, [1, 3, 4])))]))
        if rng.random() < 0.3:
            temps = rng.permutation(temps)
        es, vals, tot = [], [], 0
        for p in projs:
            hs = m.createH(projector=p)
            ee, vv = m.diagH(sp.csr_matrix(hs))
            es.append(ee)
            tot += len(ee)
            vals.append(np.atleast_1d(m.get_exp_vals_thermal(vv, p @ op @ p.conj().T, ee, temps)))
        ctx.check(tot == dim, "sector dimensions add up")
        ctx.close(np.sort(np.concatenate(es)), e, "union of sector spectra is the full spectrum", tol=1e-8)
        got = m.thermal_avg_combine_sectors(np.array(vals), es, temps)
        diag = np.einsum("ij,ij->j", v.conj(), op @ v).real
        # a ground state gap which is not resolved at T=0 would make the T=0 average ambiguous
        low = e - e[0]
        amb = np.any((low > 1e-11) & (low < 1e-8))
        for ti, t in enumerate(temps):
            if t == 0:
                ctx.event("zero temperature")
                if amb:
                    continue
            w = oracle.boltzmann(e, t)
            ctx.close(np.ravel(got[ti])[0], w @ diag, f"thermal average combined from sectors: T={'0' if t == 0 else 'finite'}", tol=1e-7)
            z = np.asarray(m.get_partition_fn_sectors(es, t))
            zz = [np.sum(np.exp(-(x - e[0]) / t)) if t else np.sum(x - e[0] < 1e-9) for x in es]
            if not (t == 0 and amb):
                ctx.close(z, zz, "partition functions of the sectors", tol=1e-7)
            one = m.thermal_avg_combine_sectors(np.array([x[ti] for x in vals]), es, t)
            ctx.close(np.ravel(one), np.ravel(got[ti]), "one temperature at a time gives the same averages")
        # several observables at once
        extra = rng.normal(size=(len(projs), len(temps)) + gen.pick(rng, [(3,), (1,), (2, 3)]))
        g3 = m.thermal_avg_combine_sectors(extra, es, temps)
        for ti, t in enumerate(temps):
            if t == 0:
                continue
            zz = np.array([np.sum(np.exp(-(x - e[0]) / t)) for x in es])
            ctx.close(g3[ti], np.tensordot(zz, extra[:, ti], (0, 0)) / zz.sum(), "arrays of observables are averaged entry by entry", tol=1e-7)
        ctx.event("decomposition:" + kind)
        ctx.seen(kind, k, np.round(e, 5))
        ctx.describe(decomposition=kind, model=k, sectors=len(projs), temps=temps)
    return fn


SCENARIOS = {"number": (run("number"), 24, 250), "Zn": (run("Zn"), 30, 300), "number_Zn": (run("number+Zn"), 16, 200),
             "T2": (run("T2"), 24, 250), "dihedral": (run("dihedral"), 36, 400), "c4v3x3": (run("c4v3x3"), 6, 40)}
