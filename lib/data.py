"""Data matrices in every storage the losses and solvers accept."""
import numpy as np
from scipy import sparse

DENSE = ("dense", "fortran", "strided")
SPARSE_ANY = ("csr", "csc", "coo", "lil", "bsr", "dok", "csr64", "csr-unsorted", "csr-dup", "csr-zeros", "csr-array",
              "csc-unsorted")


def store(rng, A, fmt):
    """The dense array A in the storage fmt."""
    A = np.asarray(A, dtype=float)
    if fmt == "dense":
        return A.copy()
    if fmt == "int":
        return A.astype(int)
    if fmt == "readonly":
        B = A.copy()
        B.flags.writeable = False
        return B
    if fmt == "fortran":
        return np.asfortranarray(A)
    if fmt == "strided":
        B = np.zeros((A.shape[0], 2 * A.shape[1]))
        B[:, ::2] = A
        return B[:, ::2]
    if fmt == "csr64":
        B = sparse.csr_matrix(A)
        B.indices, B.indptr = B.indices.astype(np.int64), B.indptr.astype(np.int64)
        return B
    if fmt == "csr-array":
        return sparse.csr_array(A)
    if fmt in ("csr-unsorted", "csc-unsorted"):
        B = sparse.csr_matrix(A) if fmt.startswith("csr") else sparse.csc_matrix(A)
        for i in range(len(B.indptr) - 1):
            s = slice(B.indptr[i], B.indptr[i + 1])
            p = rng.permutation(B.indptr[i + 1] - B.indptr[i])
            B.indices[s], B.data[s] = B.indices[s][p], B.data[s][p]
        B.has_sorted_indices = False
        return B
    if fmt == "csr-dup":       # entries split in two halves stored separately
        B = sparse.coo_matrix(A)
        row, col = np.concatenate((B.row, B.row)), np.concatenate((B.col, B.col))
        data = np.concatenate((B.data / 2, B.data / 2))
        order = np.lexsort((col, row))
        indptr = np.concatenate(([0], np.cumsum(np.bincount(row, minlength=A.shape[0]))))
        return sparse.csr_matrix((data[order], col[order], indptr), shape=A.shape)
    if fmt == "csr-zeros":     # explicitly stored zeros
        indptr = np.arange(0, A.size + 1, A.shape[1])
        return sparse.csr_matrix((A.ravel().copy(), np.tile(np.arange(A.shape[1]), A.shape[0]), indptr),
                                 shape=A.shape)
    return getattr(sparse, fmt + "_matrix")(A)


MATS = ("gauss", "sparse", "int", "big", "wide", "tall", "emptyrow", "emptycol", "rank1", "tiny", "onesample",
        "onefeature", "dupcols")


def matrix(rng, kind, n=None, d=None):
    n = n or int(rng.integers(2, 7))
    d = d or int(rng.integers(1, 6))
    if kind == "wide":
        n, d = 2, 6
    elif kind == "tall":
        n, d = 9, 2
    elif kind == "long":
        n, d = 1100, 2
    elif kind == "flat":
        n, d = 3, 300
    elif kind == "broad":
        n, d = 150, 30
    elif kind == "onesample":
        n = 1
    elif kind == "onefeature":
        d = 1
    A = rng.normal(size=(n, d))
    if kind in ("sparse", "broad"):
        A *= rng.random((n, d)) < 0.4
    elif kind == "int":
        A = rng.integers(-2, 3, size=(n, d)).astype(float)
    elif kind == "big":
        A *= 200
    elif kind == "emptyrow":
        A[rng.integers(n)] = 0
    elif kind == "emptycol":
        A[:, rng.integers(d)] = 0
    elif kind == "rank1":
        A = np.outer(rng.normal(size=n), rng.normal(size=d))
    elif kind == "tiny":
        A *= 1e-5
    elif kind == "dupcols":
        A[:, -1] = A[:, 0]
    return A


def targets(rng, kind, n, mode):
    if kind == "log":
        if mode == "labels":
            return rng.integers(0, 2, size=n).astype(float)
        if mode == "zeros":
            return np.zeros(n)
        if mode == "ones":
            return np.ones(n)
        return rng.choice([0.0, 0.25, 1.0, 0.9], size=n)
    if mode == "labels":
        return rng.integers(-2, 3, size=n).astype(float)
    if mode == "zeros":
        return np.zeros(n)
    return rng.normal(size=n) * (10 if mode == "ones" else 1)


TMODES = ("labels", "zeros", "ones", "real")


def make_loss(kind, A, b, alpha, delta=1.0):
    import copt.loss as lo
    if kind == "log":
        return lo.LogLoss(A, b, alpha)
    if kind == "square":
        return lo.SquareLoss(A, b, alpha)
    return lo.HuberLoss(A, b, alpha, delta)


def floss(kind, A, b, alpha, delta=1.0):
    """The loss as the record F of Losses.tla."""
    A = np.asarray(A, dtype=float)
    return {"t": kind, "A": [list(r) for r in A], "b": list(np.asarray(b, dtype=float)), "alpha": float(alpha),
            "delta": float(delta), "n": A.shape[1]}
