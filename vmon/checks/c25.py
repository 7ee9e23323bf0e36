"""C25: the distributed linked cluster calculation gives the direct result, whatever the order of its jobs."""
import contextlib
import importlib.util
import io
import os
import pickle
import subprocess
import sys
from math import comb

import numpy as np
from vmon import gen, load, oracle, poly
from vmon.core import dense
from vmon.scratch import scratch

nlce = gen.M["ed_nlce"]
RULE = ("the job scripts for cluster generation, subcluster search, diagonalization and aggregation are run in scratch directories with random "
        "orders of the jobs, repeated, missing and concurrent jobs (as functions and as processes); cluster energies, entropies, specific "
        "heats, correlations and the final sums are compared with an independent calculation. Distinct by order and job schedule.")
ASSUMPTIONS = ["file names contain no other digits than the cluster number (documented by the scripts)", "orders up to 5 (21 clusters) for complete runs, 7 for single jobs"]
REQUIRED = ["oracle:number of clusters", "oracle:repeated generation", "oracle:subcluster counts", "oracle:cluster energies", "oracle:cluster entropies",
            "oracle:cluster specific heats", "oracle:cluster correlations", "oracle:series of energies", "oracle:series of entropies",
            "oracle:series of specific heats", "oracle:series of correlations", "oracle:resummed", "oracle:missing job", "schedule:shuffled",
            "schedule:repeated", "oracle:single job", "mode:process", "mode:function"]
SCRIPTS = ("generate_clusters_no_subs", "generate_clusters", "find_subclusters", "aggregate_subclusters", "diag_cluster", "aggregate_results")
_cache = {}


def taps():
    return [(nlce, n, None) for n in ("get_all_clusters", "get_reduced_subclusters", "map_between_cluster_bases", "get_nlce_exp_val", "euler_resum")]


def script(name):
    if name not in _cache:
        spec = importlib.util.spec_from_file_location("vmon_cluster_" + name, os.path.join(load.REPO, "cluster", name + ".py"))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        _cache[name] = getattr(m, name)
    return _cache[name]


def start(name, *args):
    env = dict(os.environ, PYTHONPATH=load.REPO, PYTHONWARNINGS="ignore", PYTHONDONTWRITEBYTECODE="1")
    return subprocess.Popen([sys.executable, os.path.join(load.REPO, "cluster", name + ".py"), *map(str, args)], env=env, stdout=subprocess.PIPE,
                            stderr=subprocess.PIPE, text=True)


def finish(ctx, p):
    out, err = p.communicate(timeout=220)
    ctx.check(p.returncode == 0, f"job succeeds: {err[-300:]}")
    return out


def heisenberg(c, temps):
    """thermodynamics of the Heisenberg model (J = 1 times S.S) on a cluster, and the sum of sigma_z correlations"""
    n = len(c)
    bond = np.array([[float(abs(a[0] - b[0]) + abs(a[1] - b[1]) == 1) for b in c] for a in c])
    h = oracle.spin_h(n, 0.5, bond / 2, bond / 2, bond / 2, np.zeros(n), np.zeros(n), np.zeros(n)).toarray()
    e, v = np.linalg.eigh(h)
    sz = np.diag([1.0, -1.0])
    zz = np.zeros(2 ** n)
    for a in range(n):
        for b in range(a + 1, n):
            zz += (oracle.site_op(2, n, a, sz) @ oracle.site_op(2, n, b, sz)).diagonal().real
    zd = np.real(np.sum(np.abs(v) ** 2 * zz[:, None], 0))
    out = []
    for t in temps:
        p = oracle.boltzmann(e, t)
        en = p @ e
        out.append([en, -np.sum(p[p > 0] * np.log(p[p > 0])), (p @ e ** 2 - en ** 2) / t ** 2, p @ zd])
    return np.array(out).T  # 4 x temperatures


NAMES = ("energies", "entropies", "specific heats", "correlations")


def reference(ctx, clusters, temps, mult, inds):
    shapes = [poly.cells(c) for c in clusters]
    vals = np.array([heisenberg(c, temps) for c in shapes])
    pos = {poly.canon(c, True): i for i, c in enumerate(shapes)}
    w = vals.copy()
    for i, c in enumerate(shapes):
        for lev in poly.subsets(c)[:len(c) - 1]:
            for s in lev:
                w[i] -= w[pos[poly.canon(s, True)]]
    orders = np.array([sum(len(oracle.d4_images(shapes[i])) * w[i] for i in range(inds[k], inds[k + 1])) for k in range(len(inds) - 1)])
    return vals, w, orders


def judge(ctx, order, clusters_file, results_file):
    with open(clusters_file, "rb") as f:
        data = pickle.load(f)
    clusters, inds, mat = data[1], data[2], dense(data[5])
    shapes = [poly.cells(c) for c in clusters]
    pos = {poly.canon(c, True): i for i, c in enumerate(shapes)}
    want = np.zeros((len(shapes),) * 2)
    for i, c in enumerate(shapes):
        for lev in poly.subsets(c)[:len(c) - 1]:
            for s in lev:
                want[i, pos[poly.canon(s, True)]] += 1
    ctx.close(mat, want, f"subcluster counts: order {order}")
    ctx.close(np.ravel(data[4]), [len(oracle.d4_images(c)) for c in shapes], "multiplicities of the clusters")
    with open(results_file, "rb") as f:
        res = pickle.load(f)
    temps = np.ravel(res[21])
    vals, w, orders = reference(ctx, clusters, temps, data[4], inds)
    ctx.check(len(res[0]) == len(clusters) and all(poly.cells(a) == s for a, s in zip(res[0], shapes)), "clusters of the results are in order")
    for k, name in enumerate(NAMES):
        allv, tot, ords, wts, eul = res[1 + 5 * k:6 + 5 * k]
        ctx.close(allv, vals[:, k], f"cluster {name}", tol=1e-7)
        ctx.close(wts, w[:, k], f"cluster {name} weights", tol=1e-6)
        ctx.close(ords, orders[:, k], f"series of {name}: order {order}", tol=1e-6)
        ctx.close(tot, orders[:, k].sum(0), f"series of {name} total", tol=1e-6)
        terms = [sum(comb(m, j) * orders[j, k] for j in range(m + 1)) / 2 ** (m + 1) for m in range(order)]
        ctx.close(eul, np.sum(terms, 0), f"resummed {name}", tol=1e-6)


def functions(ctx):
    rng = ctx.rng
    ctx.event("mode:function")
    order = int(gen.pick(rng, [1, 2, 3, 4] if rng.random() < 0.7 else [5]))
    with scratch(), contextlib.redirect_stdout(io.StringIO()):
        n = script("generate_clusters_no_subs")("clusters.dat", order)
        ctx.check(n == {1: 1, 2: 2, 3: 4, 4: 9, 5: 21}[order], f"number of clusters: {n} at order {order}")
        stamp = os.stat("clusters.dat").st_mtime_ns, open("clusters.dat", "rb").read()
        ctx.check(script("generate_clusters_no_subs")("clusters.dat", order + 1) == n, "repeated generation reports the existing clusters")
        ctx.check((os.stat("clusters.dat").st_mtime_ns, open("clusters.dat", "rb").read()) == stamp, "repeated generation keeps the file")
        jobs = [("find_subclusters", i, f"subcluster={i + 1}.dat") for i in range(n)] + [("diag_cluster", i, f"diag={i + 1}.dat") for i in range(n)]
        if rng.random() < 0.8:
            ctx.event("schedule:shuffled")
            jobs = [jobs[i] for i in rng.permutation(len(jobs))]
        if rng.random() < 0.5:
            ctx.event("schedule:repeated")
            jobs = jobs + [jobs[i] for i in rng.integers(0, len(jobs), 2)]
        missing = rng.random() < 0.5 and n > 1
        late = []
        if missing:  # aggregation too early has to fail and write nothing
            a = int(rng.integers(n))
            late = [j for j in jobs if j[1] == a]
            jobs = [j for j in jobs if j[1] != a]
        for f, i, out in jobs:
            script(f)(i, out, "clusters.dat")
        if missing:
            ctx.raises(lambda: script("aggregate_subclusters")("subcluster*.dat", "all.dat", "clusters.dat"), "missing job is detected by subcluster aggregation")
            ctx.check(not os.path.exists("all.dat"), "missing job leaves no subcluster file")
            for f, i, out in late:
                if f == "find_subclusters":
                    script(f)(i, out, "clusters.dat")
        script("aggregate_subclusters")("subcluster*.dat", "all.dat", "clusters.dat")
        if missing:
            ctx.raises(lambda: script("aggregate_results")("diag*.dat", "all.dat", "results.dat"), "missing job is detected by result aggregation")
            ctx.check(not os.path.exists("results.dat"), "missing job leaves no results file")
            for f, i, out in late:
                if f == "diag_cluster":
                    script(f)(i, out, "clusters.dat")
        script("aggregate_results")("diag*.dat", "all.dat", "results.dat")
        judge(ctx, order, "all.dat", "results.dat")
    ctx.seen(order, [j[:2] for j in jobs], missing)
    ctx.describe(order=order, clusters=n, schedule=[f"{j[0]}:{j[1]}" for j in jobs[:8]], missing=missing)


def combined(ctx):
    """the single step generation script"""
    rng = ctx.rng
    ctx.event("mode:function")
    order = int(rng.integers(1, 5))
    with scratch(), contextlib.redirect_stdout(io.StringIO()):
        n = script("generate_clusters")("c.dat", order)
        ctx.check(script("generate_clusters")("c.dat", order) == n, "repeated generation reports the existing clusters")
        with open("c.dat", "rb") as f:
            d = pickle.load(f)
    shapes = [poly.cells(c) for c in d["cluster_list"]]
    ctx.check(n == len(shapes) and d["max_cluster_order"] == order, "number of clusters is that of the file")
    ctx.check({poly.canon(s, True) for s in shapes} == {poly.canon(s, True) for k in range(1, order + 1) for s in oracle.fixed_polyominoes(k)} and
              len({poly.canon(s, True) for s in shapes}) == n, "number of clusters: each shape once")
    ctx.close(np.ravel(d["cluster_multiplicities"]), [len(oracle.d4_images(s)) for s in shapes], "multiplicities of the clusters")
    pos = {poly.canon(c, True): i for i, c in enumerate(shapes)}
    want = np.zeros((n, n))
    for i, c in enumerate(shapes):
        for lev in poly.subsets(c)[:len(c) - 1]:
            for s in lev:
                want[i, pos[poly.canon(s, True)]] += 1
    ctx.close(d["sub_cluster_mult"], want, "subcluster counts of the single step")
    ctx.close(list(d["order_start_indices"]), [sum(len(s) <= k for s in shapes) for k in range(order + 1)], "order boundaries of the single step")
    ctx.seen(order, "combined")
    ctx.describe(order=order, clusters=n)


def processes(ctx):
    """the scripts as concurrent processes with one-based arguments, as a batch system runs them"""
    rng = ctx.rng
    ctx.event("mode:process")
    order = int(gen.pick(rng, [2, 3]))
    with scratch():
        out = finish(ctx, start("generate_clusters_no_subs", "clusters.dat", order))
        n = int(out.split()[-1])
        ctx.check(n == {2: 2, 3: 4}[order], f"number of clusters is printed: {n}")
        jobs = [("find_subclusters", i + 1, f"subcluster={i + 1}.dat") for i in range(n)] + [("diag_cluster", i + 1, f"diag={i + 1}.dat") for i in range(n)]
        ctx.event("schedule:shuffled")
        jobs = [jobs[i] for i in rng.permutation(len(jobs))]
        step = int(rng.integers(1, 5))
        for k in range(0, len(jobs), step):
            ps = [start(f, i, o, "clusters.dat") for f, i, o in jobs[k:k + step]]
            for p in ps:
                finish(ctx, p)
        finish(ctx, start("aggregate_subclusters", "subcluster*.dat", "all.dat", "clusters.dat"))
        finish(ctx, start("aggregate_results", "diag*.dat", "all.dat", "results.dat"))
        judge(ctx, order, "all.dat", "results.dat")
        ctx.check(int(finish(ctx, start("generate_clusters", "other.dat", order)).split()[-1]) == n, "number of clusters is printed")
    ctx.seen(order, jobs, step)
    ctx.describe(order=order, concurrent=step, schedule=[f"{j[0]}:{j[1]}" for j in jobs])


def single(ctx):
    """single jobs of larger expansions"""
    rng = ctx.rng
    ctx.event("mode:function")
    order = 6 if rng.random() < 0.7 else 7
    with scratch(), contextlib.redirect_stdout(io.StringIO()):
        if order not in _cache:
            script("generate_clusters_no_subs")("clusters.dat", order)
            _cache[order] = open("clusters.dat", "rb").read()
        else:
            open("clusters.dat", "wb").write(_cache[order])
        with open("clusters.dat", "rb") as f:
            data = pickle.load(f)
        shapes = [poly.cells(c) for c in data[1]]
        n = len(shapes)
        ctx.check(n == {6: 56, 7: 164}[order] and len({poly.canon(s, True) for s in shapes}) == n, f"number of clusters: {n} at order {order}")
        k = int(rng.integers(0, n) if rng.random() < 0.3 else rng.integers(data[2][5], n))
        script("find_subclusters")(k, "subcluster.dat", "clusters.dat")
        script("diag_cluster")(k, "diag.dat", "clusters.dat")
        with open("subcluster.dat", "rb") as f:
            sub = pickle.load(f)
        with open("diag.dat", "rb") as f:
            res = pickle.load(f)
    ctx.check(sub[0] == k and poly.cells(sub[2]) == shapes[k] and poly.cells(res[0]) == shapes[k], "single job: works on its own cluster")
    pos = {poly.canon(c, True): i for i, c in enumerate(shapes)}
    levels = poly.subsets(shapes[k])
    rows = {k} | {pos[poly.canon(s, True)] for lev in levels[:-1] for s in lev}
    want = np.zeros((n, n))
    for i in rows:
        for lev in poly.subsets(shapes[i])[:len(shapes[i]) - 1]:
            for s in lev:
                want[i, pos[poly.canon(s, True)]] += 1
    ctx.close(sub[1], want, "single job: subcluster counts")
    ref = heisenberg(shapes[k], np.ravel(res[6]))
    for name, got, w in zip(NAMES, res[2:6], ref):
        ctx.close(np.ravel(got), w, f"single job: cluster {name}", tol=1e-7)
    ctx.seen(order, k)
    ctx.describe(order=order, cluster=shapes[k])


SCENARIOS = {"single": (single, 12, 200), "functions": (functions, 32, 240), "combined": (combined, 12, 40), "processes": (processes, 6, 40)}
