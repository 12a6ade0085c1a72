"""Recorders of the variance-reduced solvers (spec/VarianceReduced.tla, spec/Vrtos.tla)."""
import numpy as np
from scipy import sparse
from lib import data, gen
from lib.core import vec


def blocks_of(rng, kind, n, alpha):
    """(block prox, blocks, penalty record, full prox, penalty groups) of a separable penalty of the library"""
    import copt.penalty as pe
    if kind == "l1":
        p = pe.L1Norm(alpha)
        return (*p.prox_factory(n), {"t": "l1", "a": alpha}, p.prox)
    if kind.startswith("group"):
        groups = gen.random_groups(rng, n, {"group": "all", "group-gaps": "gaps", "group-one": "one"}[kind])
        p = pe.GroupL1(alpha, groups)
        return (*p.prox_factory(n), {"t": "group", "a": alpha, "g": gen.one_based(groups)}, p.prox)
    if kind == "fused1":
        return (*pe.FusedLasso(alpha).prox_1_factory(n), {"t": "other"}, None)
    if kind == "fused2":
        return (*pe.FusedLasso(alpha).prox_2_factory(n), {"t": "other"}, None)
    if kind == "identity":      # a block prox of the user's that does nothing, blocks of any size
        groups = gen.random_groups(rng, n, "all")
        indptr = np.cumsum([0] + [len(g) for g in groups])
        B = sparse.csr_matrix((np.ones(n), np.arange(n), indptr), shape=(len(groups), n))
        return (lambda x, i, indices, ptr, d, s: None), B, {"t": "zero", "a": 0.0}, (lambda x, s: x)
    raise ValueError(kind)


KINDS = ("l1", "group", "group-gaps", "group-one", "fused1", "fused2", "identity")


def touched(A, B):
    """Blocks in which each sample stores an entry"""
    A = sparse.csr_matrix(A)
    of = {}
    B = B.tocsr()
    for h in range(B.shape[0]):
        for j in B.indices[B.indptr[h]:B.indptr[h + 1]]:
            of[int(j)] = h
    return [sorted({of[int(j)] for j in A.indices[A.indptr[i]:A.indptr[i + 1]]}) for i in range(A.shape[0])]


def problem(rng, loss, mat, fmt, alpha):
    A0 = data.matrix(rng, mat)
    if loss == "log":
        A0 = A0 * (0.02 if mat == "big" else 1.0)
    n, d = A0.shape
    b = data.targets(rng, loss, n, str(rng.choice(["labels", "real", "ones"])))
    A = data.store(rng, A0, fmt)
    if loss == "huber":      # the user's own derivative
        deriv = lambda p, y: np.clip(p - y, -1.0, 1.0)  # noqa: E731
    elif loss == "hinge":    # flat on one side, so that a sample's derivative becomes exactly zero again and again
        deriv = lambda p, y: np.minimum(p - y, 0.0)  # noqa: E731
    else:
        deriv = data.make_loss(loss, A0, b, alpha).partial_deriv
    L = (0.25 if loss == "log" else 1.0) * max(float((A0 ** 2).sum(1).max()), 1e-3) + alpha
    return A0, A, b, deriv, L


class Recorder:
    """Observes one block operator through the calls the solver makes to it."""

    def __init__(self, prox, keep):
        self._prox, self.keep, self.events = prox, keep, []

    def prox(self, x, i, indices, indptr, d, step):
        v = np.array(x)
        self._prox(x, i, indices, indptr, d, step)
        if len(self.events) < self.keep:
            self.events.append({"k": "step", "i": int(i), "v": vec(v), "z": vec(x), "s": float(step), "d": vec(d),
                                "listed": [int(h) for h in indices[indptr[i]:indptr[i + 1]]]})

    def callback(self, dl):
        if len(self.events) < self.keep:
            k = "epoch" if any(e["k"] == "step" for e in self.events) else "cb0"
            self.events.append({"k": k, "x": vec(dl["x"])})


def config(method, loss, A0, A, b, alpha, B, step, x0, tol, maxit):
    B = B.tocsr()
    return {"method": method, "F": data.floss(loss, A0, b, alpha), "sup": touched(A, B),
            "indptr": [int(v) for v in B.indptr], "step": float(step), "x0": vec(x0), "tol": float(tol),
            "maxit": int(maxit), "ftol": 1e-11}


def reference(A0, b, alpha, deriv, full_prox, L):
    """Minimizer and subgradient of the penalty by plain proximal gradient (a witness)."""
    n = len(A0)
    x = np.zeros(A0.shape[1])
    s = 1.0 / max(L, 1e-12)
    for _ in range(100000):
        v = x - s * (A0.T.dot(deriv(A0.dot(x), b)) / n + alpha * x)
        old, x = x, np.array(full_prox(v.copy(), s))
        if np.abs(x - old).max() < 1e-16 + 1e-15 * np.abs(x).max():
            break
    v = x - s * (A0.T.dot(deriv(A0.dot(x), b)) / n + alpha * x)
    z = np.array(full_prox(v.copy(), s))
    return z, (v - z) / s


def far(rng, sizes, N):
    """Start of each run of the given sizes among N features: in order, around the ends of the 8- and 16-bit numbers"""
    near = [0, 120, 250, 32760, 65530, 36000, 40000, 66000, 1000, N - sizes[-1]]
    picked = sorted(near[k] for k in rng.choice(len(near) - 1, len(sizes) - 1, replace=False))
    return [p + int(rng.integers(3)) for p in picked] + [N - sizes[-1]]


def spread(rng, method, fmt):
    """Features that no sample touches change nothing: a small problem with its features at far positions of a wide one,
    from the same seed, has the same iterates there and stays at 0 elsewhere."""
    import copt
    import copt.penalty as pe
    sizes = [int(v) for v in rng.integers(1, 4, size=5)]
    n, d, N = int(rng.integers(4, 8)), sum(sizes), 70000 + int(rng.integers(1000))
    A0 = rng.normal(size=(n, d)) * (rng.random((n, d)) < 0.6)
    A0[int(rng.integers(n))] = rng.normal(size=d)
    A0[:, -1] += A0[:, -1] == 0
    starts = far(rng, sizes, N)
    small, wide, k = [], [], 0
    for s, p in zip(sizes, starts):
        small.append(list(range(k, k + s)))
        wide.append(list(range(p, p + s)))
        k += s
    pos = np.concatenate(wide)
    W = sparse.csr_matrix(A0)
    W = sparse.csr_matrix((W.data, pos[W.indices].astype(W.indices.dtype), W.indptr), shape=(n, N))
    b, alpha, x0 = rng.normal(size=n), float(rng.choice([0.0, 0.3])), rng.normal(size=d) * (rng.random() < 0.7)
    step = 0.3 / (float((A0 ** 2).sum(1).max()) + alpha)
    seed, evs = int(rng.integers(1 << 30)), []
    for pen in ("l1", "group", "fused"):
        out = []
        for g, A, start, m in ((small, sparse.csr_matrix(A0), x0, d), (wide, W, np.zeros(N), N)):
            if m == N:
                start[pos] = x0
            A, hist = A.asformat(fmt), []
            l1, gl = pe.L1Norm(0.05).prox_factory(m), pe.GroupL1(0.05, g).prox_factory(m)
            np.random.seed(seed)
            kw = dict(max_iter=3, tol=0, callback=lambda dl: hist.append(np.array(dl["x"])))
            deriv = lambda p, y: p - y  # noqa: E731
            if method == "sfw":
                variant = {"l1": "SAG", "group": "SAGA", "fused": "MHK"}[pen]
                r = copt.minimize_sfw(deriv, A, b, start, copt.constraint.L1Ball(1.5).lmo, batch_size=2, variant=variant, **kw)
            elif method == "vrtos":
                q1, q2 = {"l1": (l1, l1), "group": (gl, l1), "fused": (l1, gl)}[pen]
                r = copt.minimize_vrtos(deriv, A, b, start, step, prox_1=q1, prox_2=q2, alpha=alpha, **kw)
            else:
                r = getattr(copt, "minimize_" + method)(deriv, A, b, start, step, prox=l1 if pen != "group" else gl,
                                                        alpha=alpha, **kw)
            out.append(hist + [np.array(r.x)])
        evs.append({"k": "match", "what": "wide-number-of-epochs", "want": [float(len(out[0]))], "got": [float(len(out[1]))],
                    "tol": 0.0})
        for u, v in zip(*out):
            rest = np.delete(v, pos)
            evs.append({"k": "match", "what": "wide-other-features", "want": [0.0], "got": [float(np.count_nonzero(rest))],
                        "tol": 0.0})
            evs.append({"k": "match", "what": "wide-iterate", "want": vec(u), "got": vec(v[pos]), "tol": 1e-9})
    return gen.fn_trace(evs)


def supports(rng, method):
    """More stored entries than fit into 16 bits: every step lists the blocks of its sample"""
    import copt
    import copt.penalty as pe
    n, d, size = 420, 190, 1 + int(rng.integers(2))
    A0 = rng.normal(size=(n, d)) * (rng.random((n, d)) < 0.95)
    groups = [list(range(k, min(k + size, d))) for k in range(0, d, size)]
    prox, B = pe.GroupL1(0.01, groups).prox_factory(d)
    want = [set(h) for h in touched(A0, B)]
    wrong, steps = [0, 0], [0]

    def op(q):
        def run(x, i, indices, indptr, w, s):
            got = [int(h) for h in indices[indptr[i]:indptr[i + 1]]]
            wrong[q] += len(got) != len(want[i]) or set(got) != want[i]
            steps[0] += 1
            prox(x, i, indices, indptr, w, s)
        return run

    kw = dict(max_iter=1, tol=0)
    args = (lambda p, y: p - y, sparse.csr_matrix(A0), rng.normal(size=n), np.zeros(d), 1e-3)
    if method == "vrtos":
        copt.minimize_vrtos(*args, prox_1=(op(0), B), prox_2=(op(1), B), **kw)
    else:
        getattr(copt, "minimize_" + method)(*args, prox=(op(0), B), **kw)
    return gen.fn_trace([{"k": "match", "what": "vr-support", "want": [0.0, 1.0],
                          "got": [float(sum(wrong)), float(steps[0] >= n)], "tol": 0.0}])
