"""Independent reference for the free Fermi gas: single particle matrices and small Fock spaces."""
import numpy as np
from . import oracle


def hop_matrix(n, dim):
    """tight binding matrix of an n (x n) periodic lattice; a bond which closes on itself through both sides counts twice"""
    if dim == "1d":
        h = np.zeros((n, n))
        for i in range(n):
            h[i, (i + 1) % n] -= 1
            h[(i + 1) % n, i] -= 1
        return h
    h1 = hop_matrix(n, "1d")
    return np.kron(h1, np.eye(n)) + np.kron(np.eye(n), h1)  # site = n * x + y


def site(n, dim, r):
    return r[0] % n if dim == "1d" else n * (r[0] % n) + r[1] % n


def fermi(beta, x):
    x = np.asarray(x, float)
    if np.isinf(beta):
        return np.where(x < 0, 1.0, np.where(x > 0, 0.0, 0.5))
    z = np.clip(beta * x, -700, 700)
    return np.where(z > 0, np.exp(-z) / (1 + np.exp(-z)), 1 / (1 + np.exp(z)))


def density_matrix(n, dim, beta, mu):
    """<c+_i c_j>"""
    h = hop_matrix(n, dim)
    e, v = np.linalg.eigh(h)
    return (v * fermi(beta, e - mu)) @ v.T


def levels(n, dim):
    return np.linalg.eigvalsh(hop_matrix(n, dim))


class Fock:
    """Thermal state of free fermions in the full Fock space."""

    def __init__(self, n, dim, beta, mu):
        self.n, self.dim = n, dim
        self.nl = n if dim == "1d" else n * n
        h1 = hop_matrix(n, dim)
        self.cd = [oracle.cdag(self.nl, l).toarray() for l in range(self.nl)]
        occ = oracle.fermion_occ(self.nl)
        h = np.zeros((2 ** self.nl,) * 2)
        for i in range(self.nl):
            for j in range(self.nl):
                if h1[i, j]:
                    h += h1[i, j] * (self.cd[i] @ self.cd[j].T)
        h -= mu * np.diag(occ.sum(0))
        # block diagonalize by particle number for accuracy
        self.e = np.zeros(2 ** self.nl)
        self.v = np.zeros((2 ** self.nl,) * 2)
        p = 0
        for k in range(self.nl + 1):
            ix = np.nonzero(occ.sum(0) == k)[0]
            ee, vv = np.linalg.eigh(h[np.ix_(ix, ix)])
            self.e[p:p + len(ix)] = ee
            self.v[ix, p:p + len(ix)] = vv
            p += len(ix)
        self.beta = beta
        w = np.exp(-beta * (self.e - self.e.min()))
        self.p = w / w.sum()
        self.rho = (self.v * self.p) @ self.v.T
        self.occ = occ.astype(float)
        self.diag = np.diag(self.rho)

    def nn(self, i, j):
        return float(self.diag @ (self.occ[i] * self.occ[j]))

    def dens(self, i):
        return float(self.diag @ self.occ[i])

    def hop(self, i, j):
        """<c+_i c_j>"""
        return float(np.sum(self.rho * (self.cd[i] @ self.cd[j].T).T))
