"""C08: diagonalisation."""
import numpy as np
import scipy.sparse as sp
from vmon import gen, oracle

ed_base = gen.M["ed_base"].ed_base
RULE = ("random hermitian matrices (real, complex, diagonal, degenerate, tiny and huge scales, dimension 1 to 300, different "
        "sparse formats) and Hamiltonians of random models; eigenvalues and eigenvectors returned are checked against the "
        "matrix itself. Distinct by matrix.")
ASSUMPTIONS = ["hermitian input", "iterative mode: claimed eigenpairs are true, distinct (orthonormal) and sorted; for spectra within "
               "+-40 and well separated they are those with the largest eigenvalues, for other spectra which part is returned is not claimed"]
REQUIRED = ["call:ed_base.diagH", "mode:dense", "mode:sparse", "oracle:iterative mode", "degenerate spectrum"]


def taps():
    return [(ed_base, "diagH", None)]


def verify(ctx, h, e, v, k, tol=1e-8, ortho=True):
    ha = h.toarray()
    sc = 1 + np.max(np.abs(ha))
    ctx.check(e.shape == (k,) and v.shape == (ha.shape[0], k), f"eigenvalue and eigenvector shapes {e.shape} {v.shape}")
    ctx.check(np.isrealobj(e), "eigenvalues are real")
    ctx.check(np.all(np.diff(e) >= 0), "eigenvalues are sorted in ascending order")
    ctx.check(np.max(np.abs(ha @ v - v * e)) < tol * sc, "columns are eigenvectors of the eigenvalue in the same position")
    gram = v.conj().T @ v
    if not ortho:  # the iterative complex solver only promises independent vectors inside a degenerate eigenspace
        near = np.abs(e[:, None] - e[None, :]) < 1e-6 * sc
        ctx.close(np.diag(gram), np.ones(k), "eigenvectors are normalized", tol=tol)
        ctx.check(np.linalg.eigvalsh(gram)[0] > 1e-6, "eigenvectors are linearly independent")
        gram = np.where(near, np.eye(k), gram)
    ctx.close(gram, np.eye(k), "eigenvectors are orthonormal", tol=tol)


def matrix(rng, n):
    kind = gen.pick(rng, ["real", "complex", "diagonal", "degenerate", "sparse", "blocks"])
    if kind == "diagonal":
        a = np.diag(rng.normal(size=n))
    elif kind == "degenerate":
        q, _ = np.linalg.qr(gen.cmat(rng, n))
        a = (q * rng.integers(-2, 3, n)) @ q.conj().T
    elif kind == "sparse":
        a = sp.random(n, n, 0.1, random_state=int(rng.integers(1 << 30))).toarray()
    elif kind == "blocks":
        a = np.kron(np.eye(2), gen.hermitian(rng, (n + 1) // 2))[:n, :n]
    else:
        a = gen.cmat(rng, n, kind="real" if kind == "real" else None)
    a = (a + a.conj().T) / 2
    a = a * 10.0 ** rng.integers(-3, 4) + (rng.random() < 0.3) * float(rng.normal() * 50) * np.eye(n)
    return a, kind


def dense_mode(ctx):
    rng = ctx.rng
    m = gen.spinSystem(gen.Geometry.createSquareGeometry(2, 1))
    for _ in range(3):
        a, kind = matrix(rng, int(gen.pick(rng, [1, 2, 3, 10, 40, 100])))
        h = gen.pick(rng, [sp.csr_matrix, sp.csc_matrix, sp.coo_matrix])(a)
        keep = a.copy()
        e, v = m.diagH(h, print_results=gen.flag(rng))
        verify(ctx, h, e, v, len(a))
        ctx.close(e, np.sort(np.linalg.eigvalsh(a)), "all eigenvalues are found")
        ctx.close(h, keep, "the hamiltonian is left unchanged")
        if kind in ("degenerate", "blocks"):
            ctx.event("degenerate spectrum")
        ctx.event("mode:dense")
        ctx.seen(a)
    ctx.describe(kind=kind, n=len(a))


def models(ctx):
    rng = ctx.rng
    m, h, d, st = gen.any_model(rng, 256)
    e, v = m.diagH(m.createH())
    verify(ctx, h.tocsr(), e, v, m.nstates)
    ctx.close(e, np.linalg.eigvalsh(h.toarray()), "spectrum of a model", tol=1e-8)
    ctx.event("mode:dense")
    ctx.seen(np.round(e, 6))
    ctx.describe(model=d)


def sparse_mode(ctx):
    rng = ctx.rng
    n = int(rng.integers(20, 300))
    r = rng.random()
    if r < 0.4:  # known, well separated spectrum somewhere in the range
        q, _ = np.linalg.qr(gen.cmat(rng, n, kind=gen.pick(rng, ["real", None])))
        lo = float(rng.uniform(-40, 20))
        ev = np.linspace(lo, lo + float(rng.uniform(5, 40 - lo if lo < 30 else 6)), n)
        a = (q * ev) @ q.conj().T
        h, kind = sp.csr_matrix((a + a.conj().T) / 2), "separated"
        m = gen.spinSystem(gen.Geometry.createSquareGeometry(2, 1))
    elif r < 0.7:
        a, kind = matrix(rng, n)
        a = a / (1 + np.max(np.abs(a)))
        h = sp.csr_matrix(a)
        m = gen.spinSystem(gen.Geometry.createSquareGeometry(2, 1))
    else:
        g, _ = gen.geometry(rng, 8, nmin=5, twist=False)
        m = gen.spinSystem(g, *rng.normal(size=3), *rng.normal(size=3))
        h, kind = m.createH().tocsr(), "spins"
    k = int(rng.integers(1, min(12, h.shape[0] // 2)))
    e, v = m.diagH(h, neigs=k, use_sparse=True, print_results=gen.flag(rng))
    verify(ctx, h, e, v, k, tol=1e-6, ortho=np.isrealobj(h.toarray()))
    if "separated" in kind:
        ctx.close(e, np.sort(np.linalg.eigvalsh(h.toarray()))[-k:], "iterative mode: the largest eigenvalues are found", tol=1e-6)
    ctx.event("mode:sparse")
    ctx.seen(kind, np.round(e, 6))
    ctx.describe(kind=kind, n=h.shape[0], neigs=k)


SCENARIOS = {"dense": (dense_mode, 80, 800), "models": (models, 80, 800), "sparse": (sparse_mode, 40, 400)}
