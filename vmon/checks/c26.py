"""C26: calculations have no side effects: arguments are left alone and results do not depend on what was done before."""
import os

import numpy as np
import scipy.sparse as sp
from vmon import gen, poly
from vmon.core import Violation, dense

sym, nlce, fg, gf = gen.sym, gen.M["ed_nlce"], gen.M["fermi_gas"], gen.M["greens_fns"]
RULE = ("random histories of 6 to 16 calls drawn from 70 kinds (operators, Hamiltonians, expectation values, thermal averages, responses, "
        "projectors, geometry, clusters, free gas, Green's functions) on shared models; every argument is compared with a copy taken before "
        "the call, every result is overwritten by the caller, and the history is repeated in another order on newly built objects: each result "
        "must be the same. Distinct by history.")
ASSUMPTIONS = ["methods meant to change an object (relabelling, loading) are excluded", "results that share memory with the caller's own "
               "arguments are not overwritten", "eigenvectors are judged only through gauge independent quantities"]
REQUIRED = ["oracle:arguments", "oracle:result", "oracle:global state", "world:fermion", "world:spin", "spoiled results", "call:ed_base"]


def taps():
    out = []
    base = gen.M["ed_base"].ed_base
    for n in ("get_single_site_op", "get_two_site_op", "get_exp_vals_thermal", "get_corr_sites", "get_xform_op", "diagH"):
        out.append((base, n, None))
    return out


# ------------------------------------------------------------------ snapshots
def snap(x):
    if sp.issparse(x):
        return ("sparse", x.toarray().copy())
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (list, tuple)):
        return [snap(v) for v in x]
    if isinstance(x, gen.Geometry):
        return [snap(np.asarray(getattr(x, k))) for k in ("xlocs", "ylocs", "adjacency_mat", "phase_mat")]
    if isinstance(x, (int, float, complex, str, bool, type(None), np.generic)):
        return x
    return None


def same(a, b):
    if isinstance(a, tuple) or isinstance(a, list):
        return isinstance(b, type(a)) and len(a) == len(b) and all(same(p, q) for p, q in zip(a, b))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind in "fc")
    return a is b or a == b


def arrays(x):
    if sp.issparse(x):
        return [x.data] if hasattr(x, "data") and isinstance(x.data, np.ndarray) else []
    if isinstance(x, np.ndarray):
        return [x]
    if isinstance(x, (list, tuple)):
        return [a for v in x for a in arrays(v)]
    return []


def values(x):
    """results as plain arrays"""
    if sp.issparse(x):
        return [x.toarray().copy()]
    if isinstance(x, np.ndarray) and x.dtype == object:
        return [a for v in x.ravel() for a in values(v)]
    if isinstance(x, np.ndarray):
        return [x.copy()]
    if isinstance(x, (list, tuple)):
        return [a for v in x for a in values(v)]
    if isinstance(x, gen.Geometry):
        return values([np.asarray(x.xlocs), np.asarray(x.ylocs), np.asarray(x.adjacency_mat), np.asarray(x.phase_mat)])
    if isinstance(x, (int, float, complex, np.generic, bool)):
        return [np.asarray(x)]
    return []


def spoil(ctx, res, args):
    mine = [a for v in args for a in arrays(v)]
    for a in arrays(res):
        if a.size and a.flags.writeable and a.dtype.kind in "biufc" and not any(np.may_share_memory(a, b) for b in mine):
            a[...] = 77
            ctx.event("spoiled results")


class World:
    def __init__(self, ctx, seed):
        rng = np.random.default_rng(seed)
        self.ctx = ctx
        r = rng.random()
        kinds = ["chain", "square", "tilted", "cluster", "polygon", "triangle"]
        self.geom, self.gd = gen.geometry(rng, 4, nmin=3, kinds=kinds)
        self.fgeom = self.geom
        kw, arr = gen.fermion_params(rng, self.geom, 2)
        self.kw = kw
        self.f = gen.fermions(self.geom, **kw)
        g2, _ = gen.geometry(rng, 4, nmin=3, kinds=kinds, twist=False)
        n2 = g2.nsites
        self.sgeom = g2
        self.skw = dict(jx=rng.normal(size=n2), jy=float(rng.normal()), jz=(lambda a: a + a.T)(np.tril(rng.normal(size=(n2, n2)), -1)), hx=float(rng.normal()),
                        hz=rng.normal(size=n2))
        self.s = gen.spinSystem(g2, **self.skw)
        self.models = dict(f=self.f, s=self.s)
        self.data = {}
        for k, m in self.models.items():
            h = dense(m.createH())
            e, v = np.linalg.eigh((h + h.conj().T) / 2)
            d = len(e)
            herm = gen.hermitian(rng, d)
            p = sp.csr_matrix(np.eye(d)[np.sort(rng.choice(d, max(2, d // 3), replace=False))])
            self.data[k] = dict(h=sp.csr_matrix(h), e=e, v=v, op=sp.csr_matrix(herm), states=gen.cmat(rng, d, 3), proj=p, temps=np.array([0.0, 0.5, 2.0]),
                                onsite=gen.hermitian(rng, m.nbasis), onsite2=gen.cmat(rng, m.nbasis), cur=gen.hermitian(rng, d))
        self.xy = rng.normal(size=(2, 6)) * 3
        self.pos = rng.integers(-3, 4, (2, 5))
        self.cluster = poly.make(gen.polyomino(rng, int(rng.integers(2, 5))))
        self.betas, self.mus = rng.uniform(0.3, 3, 3), rng.normal(size=3)
        self.om, self.spec = np.linspace(-4.05, 4, 30), rng.normal(size=30)
        self.nl = int(rng.integers(2, 5))

    def call(self, what, fn, *args, **kw):
        allargs = list(args) + [kw[k] for k in sorted(kw)]
        before = [snap(a) for a in allargs]
        geo = [snap(self.geom), snap(self.sgeom), snap(self.cluster)]
        res = fn(*args, **kw)
        after = [snap(a) for a in allargs]
        for i, (a, b) in enumerate(zip(before, after)):
            self.ctx.check(same(a, b), f"arguments are left unchanged: {what} argument {i}")
        self.ctx.check(same(geo, [snap(self.geom), snap(self.sgeom), snap(self.cluster)]), f"arguments (geometries) are left unchanged: {what}")
        out = values(res)
        spoil(self.ctx, res, allargs + [self.xy, self.pos])
        return out


Q = {}


def q(fn):
    Q[fn.__name__] = fn
    return fn


def on_models(name, fn):
    """a query on either model"""
    for k in ("f", "s"):
        Q[f"{name}_{k}"] = (lambda k: lambda w, r: fn(w, w.models[k], w.data[k], r))(k)


on_models("createH", lambda w, m, d, r: w.call("createH", m.createH))
on_models("createH_projected", lambda w, m, d, r: w.call("createH", m.createH, projector=d["proj"]))
on_models("diagH", lambda w, m, d, r: [np.asarray(w.call("diagH", m.diagH, d["h"])[0])])
on_models("diagH_some", lambda w, m, d, r: [np.asarray(w.call("diagH", m.diagH, d["h"], neigs=2)[0])])
on_models("single", lambda w, m, d, r: w.call("get_single_site_op", m.get_single_site_op, int(r.integers(m.geometry.nsites)), 0, d["onsite"], format="boson"))
on_models("two", lambda w, m, d, r: w.call("get_two_site_op", m.get_two_site_op, int(r.integers(2)), 0, 2, 0, d["onsite"], d["onsite2"], format="boson"))
on_models("swap", lambda w, m, d, r: w.call("get_swap_op", m.get_swap_op, 0, int(r.integers(1, 3)), 0))
on_models("expvals", lambda w, m, d, r: w.call("get_exp_vals", m.get_exp_vals, d["states"], d["op"]))
on_models("overlaps", lambda w, m, d, r: w.call("get_overlaps", m.get_overlaps, d["states"], d["v"]))
on_models("norms", lambda w, m, d, r: w.call("get_norms", m.get_norms, d["states"]))
on_models("expsites", lambda w, m, d, r: w.call("get_exp_vals_sites", m.get_exp_vals_sites, d["states"], d["onsite"], 0, format="boson"))
on_models("thermalsites", lambda w, m, d, r: w.call("get_thermal_exp_sites", m.get_thermal_exp_sites, d["v"], d["e"], d["onsite"], 0, d["temps"], format="boson"))
on_models("corr", lambda w, m, d, r: w.call("get_corr_sites", m.get_corr_sites, d["states"], 0, 0, d["onsite"], d["onsite2"], [0, 1], [1, 2], format="boson"))
on_models("corrproj", lambda w, m, d, r: w.call("get_corr_sites", m.get_corr_sites, np.eye(d["proj"].shape[0])[:, :2].copy(), 0, 0, d["onsite"], d["onsite"],
                                               np.array([0, 1]), np.array([1, 2]), projector=d["proj"], format="boson"))
on_models("thermalcorr", lambda w, m, d, r: w.call("get_thermal_corr_sites", m.get_thermal_corr_sites, d["v"], d["e"], 0, 0, d["onsite"], d["onsite"], d["temps"],
                                                  [0, 2], [1, 1], format="boson"))
on_models("thermal", lambda w, m, d, r: w.call("get_exp_vals_thermal", m.get_exp_vals_thermal, d["v"], d["op"], d["e"], d["temps"]))
on_models("weights", lambda w, m, d, r: w.call("get_thermal_weights", m.get_thermal_weights, d["e"], d["temps"]))
on_models("partition", lambda w, m, d, r: w.call("get_partition_fn_hamiltonian", m.get_partition_fn_hamiltonian, d["h"], 0.3))
on_models("sectors", lambda w, m, d, r: w.call("thermal_avg_combine_sectors", m.thermal_avg_combine_sectors, np.array([[1.0, 2.0, 3.0], [0.5, 1.0, 1.5]]),
                                              [d["e"][:3].copy(), d["e"][3:].copy()], d["temps"]))
on_models("partsectors", lambda w, m, d, r: w.call("get_partition_fn_sectors", m.get_partition_fn_sectors, [d["e"][:3].copy(), d["e"][3:].copy()], 0.7))
on_models("matrix", lambda w, m, d, r: w.call("get_matrix_elems", m.get_matrix_elems, d["v"], d["op"]))
on_models("subspace", lambda w, m, d, r: w.call("get_subspace_overlaps", m.get_subspace_overlaps, d["states"], [d["proj"], d["proj"]]))
on_models("quench", lambda w, m, d, r: w.call("quench_time_evolve", m.quench_time_evolve, d["states"], d["v"], d["e"], np.array([0.0, 0.7, 3.0])))
on_models("labels", lambda w, m, d, r: w.call("get_state_vects", m.get_state_vects))


def _response(w, m, d, r):
    a, b = d["cur"], d["cur"].conj().T
    t = gen.pick(r, [0.0, 0.8])
    fn = m.get_response_fn_retarded(a, b, d["e"], t, gen.pick(r, ["boson", "fermion"]))
    out = w.call("retarded response", lambda a_, b_, e_, om: fn(om, 0.2), a, b, d["e"], 0.6)
    return out + w.call("get_response_fn_retarded", lambda a_, b_, e_: m.get_response_fn_retarded(a_, b_, e_, t, "boson")(0.4, 0.3), a, b, d["e"])


on_models("response", _response)


def _cycles(w, m, d, r):
    n = m.geometry.nsites
    cyc = [[0, 1], [2]] + [[i] for i in range(3, n)]
    return w.call("get_xform_op", m.get_xform_op, cyc)


on_models("xform", _cycles)


def _zn(w, m, d, r):
    n = m.geometry.nsites
    cyc = [[0, 1, 2]] + [[i] for i in range(3, n)]
    t = sp.csr_matrix(m.get_xform_op(cyc))
    ps = w.call("getZnProjectors", sym.getZnProjectors, t, 3)
    return [p.shape[0] * np.ones(1) for p in ps[:3]] + [np.abs(p.conj().T @ p) for p in ps[:3]]


on_models("zn", _zn)


def _subproj(w, m, d, r):
    diag = sp.diags(np.arange(d["e"].size) % 3).tocsr()
    return w.call("get_subspace_projs", m.get_subspace_projs, diag)


on_models("subprojs", _subproj)


@q
def fermion_ops(w, r):
    m = w.f
    n = m.geometry.nsites
    pot = np.arange(2.0 * n).reshape(n, 2)
    k = int(r.integers(7))
    if k == 0:
        return w.call("get_kinetic_op", m.get_kinetic_op)
    if k == 1:
        return w.call("get_kinetic_op", m.get_kinetic_op, direction_vect=np.array([1, 0]))
    if k == 2:
        return w.call("get_current_op", m.get_current_op, np.array([0.6, 0.8]))
    if k == 3:
        return w.call("get_potential_op", m.get_potential_op, pot)
    if k == 4:
        return w.call("get_chemical_pot_op", m.get_chemical_pot_op, np.array([0.3, -0.7]))
    if k == 5:
        return w.call("get_u_interspecies_op", m.get_u_interspecies_op, np.arange(1.0 * n))
    return w.call("get_u_samespecies_op", m.get_u_samespecies_op, np.ones((n, n, 2)))


@q
def fermion_two(w, r):
    m = w.f
    return w.call("get_two_site_op", m.get_two_site_op, int(r.integers(2)), int(r.integers(2)), 2, int(r.integers(2)), m.cdag_op, m.c_op, format="fermion")


@q
def fermion_sum(w, r):
    return w.call("get_sum_op", w.f.get_sum_op, w.f.n_op, 0, format="boson")


@q
def fermion_sum_q(w, r):
    return w.call("get_sum_op_q", w.f.get_sum_op_q, 0, np.array([np.pi, 0.5]), w.f.n_op, format="boson")


@q
def conductivity(w, r):
    d = w.data["f"]
    t = gen.pick(r, [0.0, 0.9])
    fn = w.f.get_optical_cond_fn(d["cur"], d["e"], t)
    return (w.call("get_optical_cond_fn", lambda j, e: fn(0.7, 0.3), d["cur"], d["e"]) +
            w.call("integrate_conductivity", w.f.integrate_conductivity, d["cur"], d["e"], t))


@q
def fermion_build(w, r):
    def make(geom, ts, us, vs, mus, pots):
        m = gen.fermions(geom, us_interspecies=us, ts=ts, us_same_species=vs, mus=mus, potentials=pots, nspecies=2)
        return dense(m.createH())
    k = w.kw
    return w.call("fermion model", make, w.geom, k["ts"], k["us_interspecies"], k["us_same_species"], k["mus"], k["potentials"])


@q
def fermion_sector(w, r):
    ns = [1, gen.pick(r, [None, 2])]
    def make(geom, ns):
        m = gen.fermions(geom, us_interspecies=2.0, ts=1.0, ns=ns, nspecies=2)
        return [dense(m.n_projector), dense(m.createH())]
    return w.call("fermion model in a number sector", make, w.geom, ns)


@q
def spin_build(w, r):
    def make(geom, jx, jy, jz, hx, hz):
        return dense(gen.spinSystem(geom, jx=jx, jy=jy, jz=jz, hx=hx, hz=hz, use_ryd_detunes=bool(r.integers(2))).createH())
    k = w.skw
    return w.call("spin model", make, w.sgeom, k["jx"], k["jy"], k["jz"], k["hx"], k["hz"])


@q
def spin_ops(w, r):
    m = w.s
    k = int(r.integers(7))
    if k == 0:
        return w.call("get_interaction_op", m.get_interaction_op)
    if k == 1:
        return w.call("get_field_op", m.get_field_op)
    if k == 2:
        return w.call("get_allsite_op", m.get_allsite_op, w.data["s"]["onsite"])
    if k == 3:
        return w.call("get_sum_op", m.get_sum_op, w.data["s"]["onsite"])
    if k == 4:
        return w.call("get_swap_up_down_op", m.get_swap_up_down_op)
    if k == 5:
        return w.call("get_state_parity", m.get_state_parity)
    return w.call("get_sx", lambda: [np.array(m.get_sx(1.0)), np.array(m.get_sy(1.5)), np.array(m.get_sz(0.5))])


@q
def spin_special(w, r):
    n = w.s.geometry.nsites
    return w.call("find_special_states", w.s.find_special_states, n, 1, False)


@q
def geometry_queries(w, r):
    g = gen.pick(r, [w.geom, w.sgeom])
    k = int(r.integers(4))
    if k == 0:
        return w.call("get_site_distance", g.get_site_distance)
    if k == 1:
        return w.call("get_sorting_permutation", g.get_sorting_permutation, gen.pick(r, ["top_alternating", "adjacency"]) if False else "adjacency")
    if k == 2:
        return w.call("get_center_of_mass", g.get_center_of_mass)
    return w.call("comparison", lambda a, b: [a == b, a.isequal_adjacency(b), a == a], w.geom, w.sgeom)


@q
def lattice_queries(w, r):
    g = w.geom if w.geom.lattice is not None else w.sgeom
    x, y = w.xy[0], w.xy[1]
    if g.lattice is None:
        return []
    k = int(r.integers(3))
    if k == 0:
        return w.call("get_reduced_distance", g.lattice.get_reduced_distance, x, y)
    if k == 1:
        return w.call("reduce_to_unit_cell", g.lattice.reduce_to_unit_cell, x, y)
    return w.call("get_unique_sites", g.lattice.get_unique_sites)


@q
def geometry_build(w, r):
    k = int(r.integers(4))
    if k == 0:
        return w.call("createSquareGeometry", gen.Geometry.createSquareGeometry, 3, 2, 0.3, 0.0, bc1_open=False, bc2_open=True)
    if k == 1:
        return w.call("createTriangleGeometry", gen.Geometry.createTriangleGeometry, 3, 3, 0.0, 0.2, bc1_open=False, bc2_open=False)
    n = w.sgeom.nsites
    x, y = np.arange(1.0 * n), np.zeros(n)
    adj = np.array(w.sgeom.adjacency_mat).astype(int)
    ph = np.ones((n, n), dtype=complex)

    def make(x, y, adj, ph):
        g = gen.Geometry.createNonPeriodicGeometry(x, y, adjacency_mat=adj, phase_mat=ph)
        g.permute_sites(list(range(1, n)) + [0])
        return g
    return w.call("createNonPeriodicGeometry", make, x, y, adj, ph)


@q
def coordinates(w, r):
    x, y = w.xy[0], w.xy[1]
    k = int(r.integers(4))
    f = [lambda a, b: sym.getRotFn(3, 0.5, 0.2)(a, b), lambda a, b: sym.getReflFn(np.array([1, 2]))(a, b), lambda a, b: sym.getInversionFn(1.0, 0.0)(a, b),
         lambda a, b: sym.getTranslFn(np.array([1.5, 2]))(a, b)][k]
    return w.call("coordinate transformation", f, x, y)


@q
def clusters(w, r):
    k = int(r.integers(4))
    s = bool(r.integers(2))
    if k == 0:
        return w.call("get_all_clusters", nlce.get_all_clusters, 3, use_symmetry=s)
    if k == 1:
        return w.call("get_reduced_subclusters", nlce.get_reduced_subclusters, w.cluster, use_symmetry=s)
    if k == 2:
        return w.call("get_all_clusters_with_subclusters", nlce.get_all_clusters_with_subclusters, 3, use_symmetry=s)
    return w.call("get_clusters_rel_by_symmetry", nlce.get_clusters_rel_by_symmetry, w.cluster)


@q
def series(w, r):
    m = sp.csr_matrix(np.array([[0., 0, 0], [2, 0, 0], [3, 2, 0]]))
    v = np.outer([1.0, 2.5, 3.0], [1.0, 2.0])
    return (w.call("get_nlce_exp_val", nlce.get_nlce_exp_val, v, m, np.array([1, 2, 2]), [0, 1, 2, 3], 1) + w.call("euler_resum", nlce.euler_resum, v, 1))


@q
def gas(w, r):
    k = int(r.integers(7))
    kw = dict(nsites=w.nl, dim=gen.pick(r, ["1d", "2d"]))
    fn = [fg.fg_density, fg.fg_compressibility, fg.fg_corr, fg.fg_density_response, fg.fg_realspace_gfn][k % 5]
    if k == 5:
        return w.call("fg_doubles_corr", fg.fg_doubles_corr, w.betas, w.mus, w.mus, (1, 0), **kw)
    if k == 6:
        return w.call("fg_mu", fg.fg_mu, w.betas, np.array([0.3, 0.5, 0.8]), **kw)
    return w.call(fn.__name__, fn, w.betas, w.mus, **kw)


@q
def gas_response(w, r):
    return w.call("fg_density_response", fg.fg_density_response, w.betas, w.mus, np.array([2 * np.pi / w.nl, 0.0]), omega=0.0, eta=gen.pick(r, [0.0, 0.1]),
                  nsites=w.nl, dim="2d")


@q
def occupation(w, r):
    b = np.array([0.0, 1.0, np.inf])
    e = np.array([0.5, -0.3, 0.2])
    return w.call("fermi", fg.fermi, b, 0.1, e) + w.call("fermi_derivatives", fg.fermi_derivatives, np.array([0.5, 1.0, 2.0]), 0.1, e)


@q
def green(w, r):
    k = int(r.integers(4))
    wn = np.array([-3, -1, 1, 3]) * np.pi / 1.3
    taus = np.linspace(0, 1.3, 7)
    g = np.arange(7.0)
    if k == 0:
        return w.call("get_grnfn_imagfrq_spectralfn", gf.get_grnfn_imagfrq_spectralfn, wn, w.om, w.spec)
    if k == 1:
        return w.call("get_grnfn_imagtime_spectralfn", gf.get_grnfn_imagtime_spectralfn, taus, 1.3, w.om, w.spec)
    if k == 2:
        return w.call("grnfn_imagtime_ft", gf.grnfn_imagtime_ft, wn, np.concatenate(([-0.5], taus)), np.concatenate(([9.], g)), 1.3)
    return w.call("grnfn_imagfrq_ft", gf.grnfn_imagfrq_ft, taus, wn, wn + 1j, 1.3)


@q
def defaults(w, r):
    """default arguments"""
    g = gen.Geometry.createSquareGeometry(3, 1)
    f, s = gen.fermions(g, 2.0, 1.0), gen.spinSystem(g)
    return w.call("defaults", lambda: [dense(f.createH()), dense(s.createH()), dense(f.get_current_op()), np.array(fg.fg_density(1.0, 0.3, nsites=4)),
                                       np.array(fg.fg_corr(1.0, 0.3, nsites=4)), np.array(fg.fg_density_response(1.0, 0.3, nsites=4)),
                                       np.array(nlce.get_all_clusters(2)[1])])


def run(ctx, world, name, seed):
    return Q[name](world, np.random.default_rng(seed))


def alike(a, b):
    if a.shape != b.shape:
        return False
    return bool(np.allclose(np.nan_to_num(a), np.nan_to_num(b), rtol=1e-8, atol=1e-9))


def history(ctx):
    rng = ctx.rng
    seed = int(rng.integers(1 << 40))
    names = [gen.pick(rng, sorted(Q)) for _ in range(int(rng.integers(6, 17)))]
    if rng.random() < 0.5:  # repetitions of the same call
        names += [gen.pick(rng, names) for _ in range(3)]
    steps = [(n, int(rng.integers(1 << 40))) for n in names]
    if rng.random() < 0.5:
        steps += [steps[int(rng.integers(len(steps)))] for _ in range(2)]
    rs, err, cwd = np.random.get_state(), np.geterr(), os.getcwd()
    w = World(ctx, seed)
    first = [run(ctx, w, *s) for s in steps]
    st = np.random.get_state()
    ctx.check(np.geterr() == err and os.getcwd() == cwd and st[2] == rs[2] and np.array_equal(st[1], rs[1]), "global state is left alone")
    w2 = World(ctx, seed)
    second = [None] * len(steps)
    for i in (rng.permutation(len(steps)) if rng.random() < 0.7 else range(len(steps) - 1, -1, -1)):
        second[i] = run(ctx, w2, *steps[i])
    # alone, on a new world
    alone = int(rng.integers(len(steps)))
    third = run(ctx, World(ctx, seed), *steps[alone])
    for i, s in enumerate(steps):
        others = [second[i]] + ([third] if i == alone else [])
        for o in others:
            ctx.check(len(o) == len(first[i]), f"result does not depend on the history: {s[0]}")
            for a, b in zip(first[i], o):
                ctx.check(alike(a, b),
                          f"result does not depend on the history: {s[0]}")
    ctx.event("world:fermion")
    ctx.event("world:spin")
    ctx.seen([s[0] for s in steps], seed)
    ctx.describe(history=[s[0] for s in steps], geometry=w.gd)


def each(ctx):
    """every kind of call twice in a row and after every result was overwritten"""
    names = sorted(Q)
    name = names[ctx.index % len(names)]
    seed = int(ctx.rng.integers(1 << 40))
    sub = int(ctx.rng.integers(1 << 40))
    w = World(ctx, seed)
    a = run(ctx, w, name, sub)
    b = run(ctx, w, name, sub)
    c = run(ctx, World(ctx, seed), name, sub)
    for x in (b, c):
        ctx.check(len(a) == len(x) and all(alike(p, s) for p, s in zip(a, x)),
                  f"result does not depend on the history: {name} repeated")
    ctx.seen(name, seed)
    ctx.describe(call=name, geometry=w.gd)


SCENARIOS = {"history": (history, 120, 2500), "each": (each, 3 * len(Q), 20 * len(Q))}
