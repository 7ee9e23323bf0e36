"""Bridge between cluster geometries and sets of lattice cells."""
import numpy as np
from . import gen, oracle


def cells(g, off=(0, 0)):
    """cells of a cluster on the square lattice displaced by off, in the order of the site labels"""
    x, y = np.ravel(g.xlocs) - off[0], np.ravel(g.ylocs) - off[1]
    xi, yi = np.round(x).astype(int), np.round(y).astype(int)
    if not (np.allclose(x, xi, atol=1e-9) and np.allclose(y, yi, atol=1e-9)):
        return None
    return list(zip(xi.tolist(), yi.tolist()))


def canon(c, symmetric):
    return oracle.canon_d4(c) if symmetric else oracle.norm_shape(c)


def multiplicity(c, symmetric):
    return len(oracle.d4_images(c)) if symmetric else 1


def make(c, sort=True, dtype=int, off=(0, 0)):
    x, y = np.array([p[0] for p in c], dtype=dtype), np.array([p[1] for p in c], dtype=dtype)
    if any(off):
        x, y = x + off[0], y + off[1]
    g = gen.Geometry.createNonPeriodicGeometry(x, y)
    if sort:
        g.permute_sites(g.get_sorting_permutation())
    return g


def subsets(c):
    """connected subsets of a set of cells, by size: list of sets of frozensets of cells"""
    c = list(c)
    adj = np.array([[abs(a[0] - b[0]) + abs(a[1] - b[1]) == 1 for b in c] for a in c])
    return [{frozenset(c[i] for i in s) for s in lev} for lev in oracle.connected_subsets(adj)]


def check_cluster(ctx, g, what, off=(0, 0)):
    c = cells(g, off)
    ctx.check(c is not None, f"{what} lies on lattice sites")
    ctx.check(g.nsites == len(c) == len(set(c)), f"{what} has distinct sites: {c}")
    want = np.array([[abs(a[0] - b[0]) + abs(a[1] - b[1]) == 1 for b in c] for a in c]).astype(int)
    ctx.close(g.adjacency_mat, want, f"{what} has the bonds of the lattice")
    return c
