"""Independent reference constructions (bit manipulation / first principles), never calling exact_diag."""
import itertools

import numpy as np
import scipy.sparse as sp


# ------------------------------------------------------------------ fermions
def fermion_occ(nl):
    """occupations of logical site l in basis state b: nl x 2**nl; state 1 has the last site occupied."""
    b = np.arange(2 ** nl)
    return np.array([(b >> (nl - 1 - l)) & 1 for l in range(nl)]).reshape(nl, 2 ** nl)


def cdag(nl, l):
    """Creation operator. Basis states are ordered products with larger logical index further to the left, so
    the sign counts the particles on later sites."""
    occ = fermion_occ(nl)
    b = np.arange(2 ** nl)
    cols = b[occ[l] == 0]
    rows = cols | (1 << (nl - 1 - l))
    sign = (-1.0) ** (occ[l + 1:, cols].sum(0) if l + 1 < nl else np.zeros(cols.size))
    return sp.csr_matrix((sign, (rows, cols)), shape=(2 ** nl, 2 ** nl))


def num(nl, l):
    return sp.diags(fermion_occ(nl)[l].astype(float), format="csr")


def onsite_fermion(nl, l, op):
    """Operator sum_ab op[a,b] |a><b| on logical site l, in terms of c, c^dag (odd elements carry the string)."""
    cd = cdag(nl, l)
    c = cd.T.conj().tocsr()
    n = num(nl, l)
    one = sp.eye(2 ** nl, format="csr")
    op = np.asarray(op)
    return (op[0, 0] * (one - n) + op[1, 1] * n + op[1, 0] * cd + op[0, 1] * c).tocsr()


def fermion_h(nl_sites, nspecies, hop, u_inter, v_same, mus, pots):
    """H = -sum_{i != j} hop[i,j,s] c+_is c_js (off-diagonal, hermitian) + sum_i U_i n_i0 n_i1
       + sum_{i>=j} V_ijs n_i n_j - mu_s N_s + pot n"""
    nl = nl_sites * nspecies
    cds = [cdag(nl, l) for l in range(nl)]
    cs = [c.T.conj().tocsr() for c in cds]
    occ = fermion_occ(nl).astype(float)
    h = sp.csr_matrix((2 ** nl, 2 ** nl), dtype=complex)
    diag = np.zeros(2 ** nl)
    for s in range(nspecies):
        for i in range(nl_sites):
            li = nl_sites * s + i
            diag += (pots[i, s] - mus[s]) * occ[li]
            for j in range(nl_sites):
                lj = nl_sites * s + j
                if i != j and hop[i, j, s] != 0:
                    h = h - hop[i, j, s] * (cds[li] @ cs[lj])
                if i >= j and v_same[i, j, s] != 0:
                    diag += v_same[i, j, s] * occ[li] * occ[lj]
    if nspecies >= 2:
        for i in range(nl_sites):
            diag += u_inter[i] * occ[i] * occ[nl_sites + i]
    return (h + sp.diags(diag)).tocsr()


def permute_fermions(nsites, nspecies, perm):
    """Unitary with T c+_{i,s} T^-1 = c+_{perm[i],s} and T|0> = |0>."""
    nl = nsites * nspecies
    occ = fermion_occ(nl)
    dim = 2 ** nl
    rows = np.zeros(dim, dtype=int)
    vals = np.zeros(dim)
    for b in range(dim):
        sites = [l for l in range(nl) if occ[l, b]]
        # |b> = prod_{largest l first} c+_l |0>
        img = [nsites * (l // nsites) + perm[l % nsites] for l in reversed(sites)]
        # sort img into descending order, counting transpositions
        sgn = 1
        arr = list(img)
        for i in range(len(arr)):
            for j in range(len(arr) - 1 - i):
                if arr[j] < arr[j + 1]:
                    arr[j], arr[j + 1] = arr[j + 1], arr[j]
                    sgn = -sgn
        rows[b] = sum(1 << (nl - 1 - l) for l in img)
        vals[b] = sgn
    return sp.csr_matrix((vals, (rows, np.arange(dim))), shape=(dim, dim))


# ------------------------------------------------------------------ spins
def spin_mats(s):
    m = np.arange(s, -s - 0.5, -1)
    d = len(m)
    sz = np.diag(m)
    spl = np.zeros((d, d))
    for k in range(1, d):  # S+|m_k> = sqrt(s(s+1)-m(m+1)) |m_{k-1}>
        spl[k - 1, k] = np.sqrt(s * (s + 1) - m[k] * (m[k] + 1))
    sm = spl.T
    return (spl + sm) / 2, (spl - sm) / 2j, sz, spl, sm


def site_op(d, n, i, op):
    return sp.kron(sp.kron(sp.eye(d ** i), sp.csr_matrix(op)), sp.eye(d ** (n - i - 1)), format="csr")


def spin_h(n, s, jx, jy, jz, hx, hy, hz):
    sx, sy, sz, _, _ = spin_mats(s)
    d = sx.shape[0]
    ops = [[site_op(d, n, i, o) for i in range(n)] for o in (sx, sy, sz)]
    h = sp.csr_matrix((d ** n, d ** n), dtype=complex)
    for a, (j, f) in enumerate(((jx, hx), (jy, hy), (jz, hz))):
        for i in range(n):
            if f[i] != 0:
                h = h - f[i] * ops[a][i]
            for k in range(i):
                if j[i, k] != 0:
                    h = h + 2 * j[i, k] * (ops[a][i] @ ops[a][k])
    return h.tocsr()


def permute_spins(d, n, perm):
    """T |m_0 ... m_{n-1}> = |m'> with m'_{perm[i]} = m_i."""
    dim = d ** n
    dig = np.array(np.unravel_index(np.arange(dim), (d,) * n))
    new = np.zeros_like(dig)
    for i in range(n):
        new[perm[i]] = dig[i]
    rows = np.ravel_multi_index(tuple(new), (d,) * n)
    return sp.csr_matrix((np.ones(dim), (rows, np.arange(dim))), shape=(dim, dim))


# ------------------------------------------------------------------ thermodynamics
def boltzmann(e, t, tol=1e-8):
    e = np.asarray(e, float)
    e = e - e.min()
    if t == 0:
        w = (e < tol).astype(float)
    else:
        w = np.exp(-e / t)
    return w / w.sum()


def free_fermion_corr(h, beta):
    """<c+_i c_j> for H = sum c+_i h_ij c_j."""
    e, v = np.linalg.eigh(h)
    f = 1 / (np.exp(np.clip(beta * e, -700, 700)) + 1)
    return (v.conj() * f) @ v.T


# ------------------------------------------------------------------ polyominoes
NBR = ((1, 0), (-1, 0), (0, 1), (0, -1))


def norm_shape(cells):
    mx = min(x for x, y in cells)
    my = min(y for x, y in cells)
    return tuple(sorted((x - mx, y - my) for x, y in cells))


def d4_images(cells):
    out = set()
    for sx, sy, sw in itertools.product((1, -1), (1, -1), (0, 1)):
        out.add(norm_shape([(sx * (y if sw else x), sy * (x if sw else y)) for x, y in cells]))
    return out


def canon_d4(cells):
    return min(d4_images(cells))


def fixed_polyominoes(n):
    """All connected n-site subsets of the square lattice up to translation."""
    cur = {((0, 0),)}
    for _ in range(n - 1):
        nxt = set()
        for c in cur:
            cs = set(c)
            for x, y in c:
                for dx, dy in NBR:
                    p = (x + dx, y + dy)
                    if p not in cs:
                        nxt.add(norm_shape(cs | {p}))
        cur = nxt
    return cur


def is_connected(cells):
    cells = set(cells)
    start = next(iter(cells))
    stack, seen = [start], {start}
    while stack:
        x, y = stack.pop()
        for dx, dy in NBR:
            p = (x + dx, y + dy)
            if p in cells and p not in seen:
                seen.add(p)
                stack.append(p)
    return len(seen) == len(cells)


def connected_subsets(adj, k=None):
    """All connected vertex subsets of a graph (frozensets), optionally of size k only."""
    n = len(adj)
    nb = [set(np.nonzero(adj[i])[0].tolist()) for i in range(n)]
    cur = {frozenset([i]) for i in range(n)}
    out = [cur]
    for _ in range(n - 1):
        nxt = set()
        for s in cur:
            for i in s:
                for j in nb[i]:
                    if j not in s:
                        nxt.add(s | {j})
        cur = nxt
        out.append(cur)
    if k is not None:
        return out[k - 1]
    return out
