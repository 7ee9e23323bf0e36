"""C09: thermal weights, partition functions and thermal averages."""
import numpy as np
import scipy.linalg as sl
import scipy.sparse as sp
from vmon import gen, oracle
from vmon.core import dense

ed_base = gen.M["ed_base"].ed_base
RULE = ("random spectra (sorted; degenerate ground states, shifted by large offsets, 1-200 levels) and random models; weights, "
        "partition functions and averages at temperatures from 0 to far above the band width, for scalar and array "
        "temperatures, are compared with the Gibbs distribution. Distinct by spectrum/model and temperatures.")
ASSUMPTIONS = ["non-negative temperatures", "hermitian observables", "degeneracies at T=0 are exact to 1e-11 or split by 1e-8"]
REQUIRED = ["call:ed_base.get_thermal_weights", "call:ed_base.get_exp_vals_thermal", "call:ed_base.get_partition_fn_hamiltonian",
            "call:ed_base.get_partition_fn_sectors", "T=0 degenerate", "low temperature", "high temperature"]


def taps():
    return [(ed_base, n, None) for n in ("get_thermal_weights", "get_exp_vals_thermal", "get_partition_fn_hamiltonian",
                                         "get_partition_fn_sectors", "thermal_avg_combine_sectors")]


SPIN = None


def anymodel():
    global SPIN
    if SPIN is None:
        SPIN = gen.spinSystem(gen.Geometry.createSquareGeometry(2, 1))
    return SPIN


def spectrum(rng):
    n = int(gen.pick(rng, [1, 2, 3, 10, 60, 200]))
    e = np.sort(rng.normal(size=n) * 10 ** rng.uniform(-1, 1))
    deg = 1
    if n > 1 and rng.random() < 0.5:
        deg = int(rng.integers(2, n + 1))
        e[:deg] = e[0] + rng.uniform(-1, 1, deg) * 1e-13
        if deg < n:
            e[deg:] = e[deg:] - e[deg] + e[:deg].max() + 0.1
        e = np.sort(e)
    e = e + gen.pick(rng, [0.0, float(rng.normal() * 5), float(rng.normal() * 40)])
    return e, deg


def temperatures(rng, e, k=3):
    w = max(e[-1] - e[0], 0.1)
    k = int(gen.pick(rng, [2, k, k, 5]))
    return [gen.pick(rng, [0.0, 0.0, 1, 2]) if rng.random() < 0.35 else float(w * 10 ** rng.uniform(-4, 4)) for _ in range(k)]


def note(ctx, e, t):
    if t == 0:
        return
    w = max(e[-1] - e[0], 0.1)
    if t < 1e-2 * w:
        ctx.event("low temperature")
    if t > 1e2 * w:
        ctx.event("high temperature")


def weights(ctx):
    rng = ctx.rng
    m = anymodel()
    e, deg = spectrum(rng)
    ts = temperatures(rng, e)
    w, z = m.get_thermal_weights(e, gen.pick(rng, [np.array(ts), ts, tuple(ts)]), True)
    ctx.check(np.shape(w) == (len(e), len(ts)) and np.shape(z) == (len(ts),), "thermal weight shapes")
    for i, t in enumerate(ts):
        p = oracle.boltzmann(e, t, tol=1e-10)
        ctx.close(w[:, i] / z[i], p, "weights divided by the partition function are probabilities")
        ctx.close(w[:, i].sum(), z[i], "partition function is the sum of the weights")
        ts_arg = gen.pick(rng, [t, np.float64(t), np.array(t), np.array([t])])
        w1, z1 = m.get_thermal_weights(e.tolist() if rng.random() < 0.3 else e, ts_arg, use_energies_offset=True)
        ctx.close(np.ravel(w1), w[:, i], "single temperature agrees with an array of them")
        sh = float(rng.normal() * 10)
        w2, z2 = m.get_thermal_weights(e + sh, t, use_energies_offset=True)
        ctx.close(np.ravel(w2) / z2, p, "probabilities do not depend on the zero of energy", tol=1e-7)
        if t and np.max(np.abs(e)) / t < 300:
            w3, z3 = m.get_thermal_weights(e, t)
            ctx.close(np.ravel(w3) / np.exp(-e / t), np.ones(len(e)), "weights without offset are Boltzmann factors")
            ctx.close(np.ravel(z3) / np.exp(-e / t).sum(), [1.0], "partition function without offset")
        if t == 0:
            ctx.check(abs(z[i] - deg) < 1e-12, "T=0 partition function counts the degenerate ground states")
            if deg > 1:
                ctx.event("T=0 degenerate")
        note(ctx, e, t)
    ctx.seen(e, ts)
    ctx.describe(levels=len(e), degeneracy=deg, temps=ts)


def averages(ctx):
    rng = ctx.rng
    m, h, d, st = gen.any_model(rng, int(gen.pick(rng, [8, 64, 256])))
    if rng.random() < 0.5:  # many degeneracies
        h = sp.csr_matrix(np.round(h.toarray(), 0))
    ha = h.toarray()
    ha = (ha + ha.conj().T) / 2
    e, v = m.diagH(sp.csr_matrix(ha))
    low = e - e[0]
    amb = bool(np.any((low > 1e-11) & (low < 1e-8)))
    op = gen.hermitian(rng, len(e)) if rng.random() < 0.7 else np.diag(rng.normal(size=len(e)))
    if rng.random() < 0.5:
        op = sp.csr_matrix(op)
    ts = [t for t in temperatures(rng, e, 4) if not (t == 0 and amb)]
    if len(ts) < 2:
        ts = ts + [1.0, 2.0]
    if rng.random() < 0.25 and len(e) > 2:  # only the lowest states are known
        k = int(rng.integers(2, len(e)))
        e, v = e[:k], v[:, :k]
        low = low[:k]
        ha = (v * e) @ v.conj().T
        ctx.event("truncated set of states")
    got = m.get_exp_vals_thermal(v, op, e, gen.pick(rng, [np.array(ts), ts]), print_results=gen.flag(rng))
    ctx.check(np.shape(got) == (len(ts),), "one average per temperature")
    for i, t in enumerate(ts):
        if t == 0:
            p = v[:, low < 1e-9]
            rho = p @ p.conj().T / p.shape[1]
        else:
            x, u = (e, v) if len(e) < len(ha) else np.linalg.eigh(ha)
            wt = np.exp(-(x - x[0]) / t)
            rho = (u * (wt / wt.sum())) @ u.conj().T
        want = np.trace(rho @ dense(op)).real
        ctx.close(got[i], want, f"thermal average is the trace with the Gibbs state: T {'= 0' if t == 0 else '> 0'}", tol=1e-7)
        one = m.get_exp_vals_thermal(v, op, e, gen.pick(rng, [t, np.array([t]), [t]]))
        ctx.close(np.ravel(one), [got[i]], "single temperature agrees with an array of them")
        note(ctx, e, t)
        if t == 0 and np.sum(low < 1e-9) > 1:
            ctx.event("T=0 degenerate")
    # energy: bounded by the spectrum, increasing with temperature
    hot = np.sort(np.abs(np.array([t for t in ts if t > 0])))
    if len(hot) > 1:
        en = m.get_exp_vals_thermal(v, sp.csr_matrix(ha), e, hot)
        ctx.check(np.all(np.diff(en) > -1e-8 * (1 + np.abs(e).max())), "thermal energy increases with temperature")
        ctx.check(e[0] - 1e-8 <= en.min() and en.max() <= e.mean() + 1e-8 * (1 + np.abs(e).max()), "thermal energy is between ground state and mean")
    ctx.seen(np.round(e, 6), ts)
    ctx.describe(model=d, temps=ts)


def partition(ctx):
    rng = ctx.rng
    n = int(gen.pick(rng, [1, 2, 5, 20, 60]))
    a = gen.hermitian(rng, n, real=rng.random() < 0.5)
    e = np.linalg.eigvalsh(a)
    beta = gen.pick(rng, [0, 0.0, 1, -1, 2, float(rng.uniform(0, 5)), float(10 ** rng.uniform(-4, 0.5)), -float(rng.uniform(0, 2))])
    arg = gen.pick(rng, [a, sp.csr_matrix(a), sp.csc_matrix(a)])
    z = anymodel().get_partition_fn_hamiltonian(arg, beta)
    ctx.close(z, np.sum(np.exp(-beta * e)), "partition function of a hamiltonian is Tr exp(-beta H)", tol=1e-8)
    ctx.seen(a, beta)
    ctx.describe(n=n, beta=beta)


def sectors(ctx):
    """random decomposition of a spectrum into sectors"""
    rng = ctx.rng
    m = anymodel()
    e, deg = spectrum(rng)
    k = int(rng.integers(1, min(6, len(e)) + 1))
    lab = np.concatenate([np.arange(k), rng.integers(0, k, len(e) - k)])
    rng.shuffle(lab)
    es = [e[lab == q] for q in range(k)]
    ts = temperatures(rng, e)
    for t in ts:
        z = m.get_partition_fn_sectors(es, t)
        w, z0 = m.get_thermal_weights(e, t, True)
        ctx.close(np.sum(z), z0, "partition functions of the sectors add up to the full one")
        p = oracle.boltzmann(e, t, tol=1e-10)
        ctx.close(np.asarray(z) / np.sum(z), [p[lab == q].sum() for q in range(k)], "weight of each sector")
        x = rng.normal(size=len(e))
        xs = []
        for q in range(k):
            pq = oracle.boltzmann(es[q], t, tol=1e-10)
            xs.append(pq @ x[lab == q])
        got = m.thermal_avg_combine_sectors(np.array(xs), es, t)
        ctx.close(np.ravel(got), [p @ x], "average over sectors is the full average", tol=1e-8)
    multi = m.get_partition_fn_sectors(es, np.array(ts))
    ctx.check(len(multi) == len(ts), "one set of partition functions per temperature")
    for t, z in zip(ts, multi):
        ctx.close(z, m.get_partition_fn_sectors(es, t), "array of temperatures agrees with single ones")
    ctx.seen(e, lab, ts)
    ctx.describe(levels=len(e), sectors=k, temps=ts)


SCENARIOS = {"weights": (weights, 150, 2500), "averages": (averages, 120, 1500), "partition": (partition, 60, 600),
             "sectors": (sectors, 120, 1500)}
