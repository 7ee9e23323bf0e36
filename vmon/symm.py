"""Symmetric models and independent group theory, shared by C06 and C07."""
import numpy as np
import scipy.sparse as sp

from . import gen, oracle

sym = gen.sym
G = gen.Geometry
fermions, spinSystem = gen.fermions, gen.spinSystem


def op_of(m, perm):
    if isinstance(m, fermions):
        return oracle.permute_fermions(m.geometry.nsites, m.nspecies, perm)
    return oracle.permute_spins(m.nbasis, m.geometry.nsites, perm)


def site_perm(geom, fn):
    """independent: which site does each site move to, by the coordinate map fn and the periodicity of the lattice"""
    x, y = np.asarray(geom.xlocs, float), np.asarray(geom.ylocs, float)
    fx, fy = fn(x, y)
    vs = []
    if geom.lattice is not None:
        for v in (geom.lattice.periodicity_vect1, geom.lattice.periodicity_vect2):
            v = np.asarray(v, float).ravel()
            if np.linalg.norm(v) > 0:
                vs.append(v)
    perm = []
    for i in range(geom.nsites):
        hit = []
        for j in range(geom.nsites):
            d = np.array([fx[i] - x[j], fy[i] - y[j]])
            if not vs:
                ok = np.linalg.norm(d) < 1e-6
            elif len(vs) == 1:
                k = round(float(d @ vs[0] / (vs[0] @ vs[0])))
                ok = np.linalg.norm(d - k * vs[0]) < 1e-6
            else:
                c = np.linalg.solve(np.array(vs).T, d)
                ok = np.max(np.abs(c - np.round(c))) < 1e-6
            if ok:
                hit.append(j)
        if len(hit) != 1:
            return None
        perm.append(hit[0])
    if sorted(perm) != list(range(geom.nsites)):
        return None
    return tuple(perm)


def compose(p, q):
    """first q, then p"""
    return tuple(p[q[i]] for i in range(len(p)))


def group(gens):
    n = len(gens[0])
    els = {tuple(range(n))}
    front = list(els)
    while front:
        new = []
        for e in front:
            for g in gens:
                c = compose(g, e)
                if c not in els:
                    els.add(c)
                    new.append(c)
        front = new
    return sorted(els)


def classes(els):
    left, out = set(els), []
    inv = {e: tuple(np.argsort(e).tolist()) for e in els}
    while left:
        e = min(left)
        c = {compose(g, compose(e, inv[g])) for g in els}
        out.append(sorted(c))
        left -= c
    return out


def order(p):
    e, k, q = tuple(range(len(p))), 1, p
    while q != e:
        q, k = compose(p, q), k + 1
    return k


def uniform_model(rng, geom, dim=512, allow=("fermion1", "fermion2", "spin")):
    """a model whose parameters are the same on all sites and bonds"""
    n = geom.nsites
    kinds = [k for k, d in (("fermion1", 2 ** n), ("fermion2", 4 ** n), ("spin", 2 ** n), ("spin1", 3 ** n))
             if d <= dim and k.rstrip("1") in [a.rstrip("1") for a in allow] or (k in allow and d <= dim)]
    kinds = [k for k in kinds if {"fermion1": 2 ** n, "fermion2": 4 ** n, "spin": 2 ** n, "spin1": 3 ** n}[k] <= dim]
    k = gen.pick(rng, kinds)
    c = lambda: gen.coupling(rng)
    tw = not np.allclose(np.imag(geom.phase_mat), 0)
    if k == "fermion1":
        return fermions(geom, 0, gen.coupling(rng, False), mus=c(), us_same_species=c(), nspecies=1), k
    if k == "fermion2":
        kw = dict(mus=[c(), c()] if rng.random() < 0.3 else c())
        return fermions(geom, c(), gen.coupling(rng, False), us_same_species=c() if rng.random() < 0.3 else 0, **kw), k
    if tw:
        return None, None
    j = gen.coupling(rng, False)
    js = (j, j, j) if rng.random() < 0.4 else (c(), c(), c())
    return spinSystem(geom, *js, c(), c() if rng.random() < 0.3 else 0.0, c(), spin=1.0 if k == "spin1" else 0.5), k


def periodic_1d(rng, nmax=8, twist=True):
    n = int(rng.integers(3, nmax + 1))
    phi = gen.phase(rng, twist)
    if rng.random() < 0.5:
        g = G.createSquareGeometry(n, 1, phi, 0, bc1_open=False, bc2_open=True)
        v = (1, 0)
    else:
        g = G.createSquareGeometry(1, n, 0, phi, bc1_open=True, bc2_open=False)
        v = (0, 1)
    return g, v


def torus(rng, nmax=9, twist=True):
    while True:
        kind = gen.pick(rng, ["square", "tilted", "triangle"] if nmax >= 9 else ["square", "tilted"])
        p1, p2 = gen.phase(rng, twist), gen.phase(rng, twist)
        if kind == "square" or kind == "triangle":
            a, b = int(rng.integers(2, 5)), int(rng.integers(2, 5))
            if a * b > nmax:
                continue
            f = G.createSquareGeometry if kind == "square" else G.createTriangleGeometry
            if kind == "square" and 2 in (a, b):
                p1, p2 = (0.0 if a == 2 else p1), (0.0 if b == 2 else p2)
            if kind == "triangle" and 2 in (a, b):
                continue
            g = f(a, b, p1, p2, bc1_open=False, bc2_open=False)
        else:
            a, b = int(rng.integers(1, 4)), int(rng.integers(1, 3))
            if not 4 < a * a + b * b <= nmax:
                continue
            g = G.createTiltedSquareGeometry(a, b, p1, p2, bc1_open=False, bc2_open=False)
        v1 = np.asarray(g.lattice.lattice_vect1).ravel()
        v2 = np.asarray(g.lattice.lattice_vect2).ravel()
        return g, v1, v2, kind


def dihedral(rng, n=None):
    """(geometry, n, rotation fn args, reflection fn args)"""
    n = n or int(rng.integers(2, 8))
    if n in (2, 4) and rng.random() < 0.6:
        if n == 4:
            a = b = int(rng.integers(2, 4))
        else:
            a, b = gen.pick(rng, [(2, 3), (3, 2), (4, 2), (2, 4), (1, 5), (3, 1), (4, 1), (2, 1)])
        g = G.createSquareGeometry(a, b)
        if rng.random() < 0.5:
            g = G.createNonPeriodicGeometry(np.asarray(g.xlocs) - 3, np.asarray(g.ylocs) + 2)
        axis = gen.pick(rng, [(0, 1), (1, 0), (0, -2.0)] + ([(1, 1), (-1, 1)] if n == 4 else []))
    elif n == 2:
        g = G.createSquareGeometry(*gen.pick(rng, [(2, 3), (3, 2), (4, 2)]))
        axis = gen.pick(rng, [(0, 1), (1, 0)])
    else:
        g = G.createRegularPolygonGeometry(n)
        k = int(rng.integers(2 * n))
        axis = (float(np.sin(np.pi * k / n)), float(np.cos(np.pi * k / n)))
    if rng.random() < 0.3:
        g.permute_sites([int(x) for x in rng.permutation(g.nsites)])
    cx, cy = np.mean(g.xlocs), np.mean(g.ylocs)
    return g, n, (cx, cy), axis
