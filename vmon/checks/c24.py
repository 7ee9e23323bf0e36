"""C24: saved models come back the same."""
import os
import pickle
import subprocess
import sys

import numpy as np
from vmon import gen, load, symm
from vmon.core import dense, quiet
from vmon.scratch import scratch

base = gen.M["ed_base"].ed_base
sym = gen.sym
RULE = ("random fermion and spin models (number sectors, spins above 1/2, twisted and relabelled geometries, complex couplings) are saved, "
        "loaded into models built with other parameters, and loaded in a new process; geometry, Hamiltonian, spectrum and observables must be "
        "identical to those of the saved model. Truncated files must not damage the model loaded into. Distinct by model.")
ASSUMPTIONS = ["the pickle format (the MATLAB format does not store geometries)", "file system without faults other than truncated files"]
REQUIRED = ["oracle:loaded model", "oracle:loaded Hamiltonian", "oracle:loaded geometry", "oracle:other process", "oracle:damaged file",
            "oracle:unsupported extension", "model:fermion", "model:spin", "oracle:default file name", "oracle:saving"]
CHILD = r"""
import sys, pickle, io, contextlib
sys.path.insert(0, sys.argv[1])
import numpy as np
import exact_diag.ed_fermions, exact_diag.ed_spins
with open(sys.argv[2], 'rb') as f:
    m = pickle.load(f)
with contextlib.redirect_stdout(io.StringIO()):
    h = m.createH()
np.save(sys.argv[3], h.toarray())
"""


def taps():
    return [(base, n, None) for n in ("save", "load")]


def model(ctx):
    rng = ctx.rng
    if rng.random() < 0.5:
        ctx.event("model:fermion")
        nsp = gen.pick(rng, [1, 2, 2])
        ns = None
        m, arr, d = gen.fermion_model(rng, max_logical=6, nspecies=nsp, nmin=2)
        if rng.random() < 0.4:
            kw = dict(us_interspecies=1.5 if nsp == 2 else 0, ts=0.7, mus=0.2, nspecies=nsp)
            ns = [gen.pick(rng, [None, 1, 1, m.geometry.nsites]) for _ in range(nsp)]
            m = gen.fermions(m.geometry, ns=ns, **kw)
        return m, dict(d, ns=ns)
    ctx.event("model:spin")
    m, arr, d = gen.spin_model(rng, max_dim=81, nmin=2)
    return m, d


def other(rng, m):
    """a model of the same class with nothing in common"""
    g = gen.Geometry.createSquareGeometry(2, 1, 0, 0, bc1_open=True, bc2_open=True)
    if isinstance(m, gen.fermions):
        return gen.fermions(g, ts=-3.0, us_interspecies=9.0, nspecies=2)
    return gen.spinSystem(g, jx=7.0, jy=-1.0, jz=0.3, hx=0.2, spin=gen.pick(rng, [0.5, 1.0]))


def facts(m):
    """everything a user can compute from the model, as arrays"""
    g = m.geometry
    h = dense(m.createH())
    out = dict(h=h, x=np.asarray(g.xlocs), y=np.asarray(g.ylocs), adj=np.asarray(g.adjacency_mat), ph=np.asarray(g.phase_mat),
               nsites=np.array(g.nsites), nspecies=np.array(m.nspecies), nbasis=np.array(m.nbasis), nstates=np.array(m.nstates))
    if g.lattice is not None:
        out["periodicity"] = np.concatenate([np.ravel(np.asarray(v, float)) for v in (g.lattice.periodicity_vect1, g.lattice.periodicity_vect2)])
    op = np.diag(np.arange(m.nbasis).astype(float))
    out["op"] = dense(m.get_single_site_op(g.nsites - 1, 0, op, format="boson"))
    return out


def same(ctx, a, b, what):
    ctx.check(set(a) == set(b), f"{what} has the same parts")
    for k in a:
        ctx.check(a[k].shape == b[k].shape and np.array_equal(a[k], b[k]), ("loaded Hamiltonian" if k == "h" else "loaded geometry"
                  if k in ("x", "y", "adj", "ph", "periodicity") else "loaded model") + f" is the same: {k} {what}")


def roundtrip(ctx):
    rng = ctx.rng
    m, d = model(ctx)
    extra = {}
    if rng.random() < 0.5:  # results kept with the model
        e, v = m.diagH(m.createH())
        extra = dict(eigvals=e, eigvects=v, notes="run 1", user_data=[1, 2.5, None])
        for k, x in extra.items():
            setattr(m, k, x)
        extra["user_data"] = np.array(extra["user_data"], dtype=object)
    before = facts(m)
    with scratch() as tmp:
        name = gen.pick(rng, [os.path.join(tmp, "model.pkl"), "model.pkl", os.path.join(tmp, "a b.c=1.pkl")])
        if rng.random() < 0.2:
            ret = m.save()
            ctx.check(os.path.isfile(ret) and os.path.splitext(ret)[1] == ".pkl", "default file name is returned and written")
            name = ret
        else:
            ctx.event("oracle:default file name", 0)
            ret = m.save(name)
            ctx.check(ret == name and os.path.isfile(name), "saving returns the name of the file it wrote")
        same(ctx, facts(m), before, "saved model itself")
        o = other(rng, m)
        if extra or rng.random() < 0.5:
            o.stale_results = np.arange(3)
            o.user_data = "previous"
        ret = o.load(name)
        ctx.check(set(vars(o)) == set(vars(m)) == set(vars(ret)), "loaded model has exactly the attributes of the saved one")
        for k, v in extra.items():
            ctx.check(np.array_equal(getattr(o, k), v), "loaded model has the results stored with it")
        same(ctx, facts(o), before, "model loaded into")
        same(ctx, facts(ret), before, "model returned by loading")
        # the spectrum, and the next generation
        ctx.close(o.diagH(o.createH())[0], np.linalg.eigvalsh(before["h"]), "loaded model has the same spectrum", tol=1e-8)
        o.save(os.path.join(tmp, "second.pkl"))
        p = other(rng, m)
        p.load(os.path.join(tmp, "second.pkl"))
        same(ctx, facts(p), before, "model saved and loaded twice")
        # failures
        with open(name, "rb") as f:
            data = f.read()
        cut = int(rng.integers(0, len(data) - 1))
        with open("cut.pkl", "wb") as f:
            f.write(data[:cut])
        q = other(rng, m)
        fq = facts(q)
        ctx.raises(lambda: q.load("cut.pkl"), "damaged file is rejected")
        ctx.raises(lambda: q.load("missing.pkl"), "damaged file (missing) is rejected")
        same(ctx, facts(q), fq, "model after a failed load")
        ctx.check(all(np.array_equal(facts(q)[k], fq[k]) for k in fq), "damaged file leaves the model as it was")
        for ext in ("model.txt", "model"):
            ctx.raises(lambda: m.save(ext), "unsupported extension is rejected", exc=ValueError)
            ctx.check(not os.path.exists(ext), "unsupported extension writes nothing")
        ctx.raises(lambda: q.load("model.txt"), "unsupported extension is rejected")
    ctx.seen(d, before["h"])
    ctx.describe(model=d, bytes=len(data))


def process(ctx):
    rng = ctx.rng
    m, d = model(ctx)
    h = dense(m.createH())
    with scratch() as tmp:
        m.save(os.path.join(tmp, "m.pkl"))
        env = dict(os.environ, PYTHONPATH=load.REPO, PYTHONWARNINGS="ignore")
        r = subprocess.run([sys.executable, "-B", "-c", CHILD, load.REPO, os.path.join(tmp, "m.pkl"), os.path.join(tmp, "h.npy")],
                           capture_output=True, text=True, env=env, timeout=200)
        ctx.check(r.returncode == 0, f"other process can load the model: {r.stderr[-300:]}")
        got = np.load(os.path.join(tmp, "h.npy"))
        ctx.check(np.array_equal(got, h), "other process gets the same Hamiltonian")
    ctx.seen(d, h)
    ctx.describe(model=d)


def geometries(ctx):
    rng = ctx.rng
    g, d = gen.geometry(rng, 14)
    h = pickle.loads(pickle.dumps(g, int(rng.integers(2, 6))))
    ctx.check(h == g and h.isequal_adjacency(g), "loaded geometry compares equal")
    for k in ("xlocs", "ylocs", "adjacency_mat", "phase_mat"):
        ctx.check(np.array_equal(np.asarray(getattr(g, k)), np.asarray(getattr(h, k))), f"loaded geometry has the same {k}")
    p = rng.permutation(g.nsites).tolist()
    a0 = np.array(g.adjacency_mat)
    h.permute_sites(p)
    ctx.check(np.array_equal(np.asarray(g.adjacency_mat), a0), "loaded geometry is independent of the original")
    g.permute_sites(p)
    ctx.check(np.array_equal(np.asarray(h.adjacency_mat), np.asarray(g.adjacency_mat)), "loaded geometry behaves like the original")
    ctx.seen(d, p)
    ctx.describe(geometry=d)


SCENARIOS = {"roundtrip": (roundtrip, 150, 2000), "process": (process, 16, 120), "geometries": (geometries, 100, 1500)}
