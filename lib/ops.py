"""Every operation of the library that takes a vector, with the other objects the caller owns."""
import hashlib
import numpy as np
from scipy import sparse
from lib import data

D, N = 4, 6


def digest(v):
    """Contents of anything the caller may hold, as a string"""
    if isinstance(v, np.ndarray):
        return "%s%s:%s" % (v.dtype, v.shape, hashlib.sha1(np.ascontiguousarray(v).tobytes()).hexdigest()[:16])
    if sparse.issparse(v):
        parts = [digest(getattr(v, k)) for k in ("data", "indices", "indptr") if hasattr(v, k)]
        if not parts or v.format in ("lil", "coo", "dok"):
            parts = [digest(v.toarray())]
        return v.format + "|".join(parts)
    if isinstance(v, dict):
        return repr(sorted((str(k), float(w)) for k, w in v.items()))
    if isinstance(v, (list, tuple)):
        return "[" + ",".join(digest(w) for w in v) + "]"
    return repr(v)


class Op:
    """fn(x) returns the resulting arrays; owns are the caller's other objects; solver tells start points"""

    def __init__(self, name, fn, owns=(), solver=False, lists=True, ints=True):
        self.name, self.fn, self.owns, self.solver, self.lists, self.ints = name, fn, list(owns), solver, lists, ints


def arrays(r):
    """The arrays of a result"""
    if isinstance(r, (tuple, list)):
        return [a for v in r for a in arrays(v)]
    if sparse.issparse(r):
        return [r.toarray()]
    if isinstance(r, np.ndarray):
        return [r]
    if isinstance(r, (float, int, np.number)):
        return [np.array(float(r))]
    if hasattr(r, "x") and hasattr(r, "success"):
        return [r.x]
    return []


def catalogue(rng, fmt="dense"):
    import copt
    import copt.constraint as co
    import copt.loss as lo
    import copt.penalty as pe
    from copt import tv_prox, utils
    ops = []
    A0 = rng.normal(size=(N, D)) + 0.1
    if fmt == "int":
        A0 = np.round(3 * A0)
    A = data.store(rng, A0, fmt)
    b = rng.normal(size=N)
    y = (rng.random(N) < 0.5).astype(float)
    seed = int(rng.integers(1 << 30))
    L = float(np.linalg.norm(A0, 2) ** 2 / N + 0.1)
    groups = [[0, 1], [2], [3]]

    def add(name, fn, *owns, **kw):
        ops.append(Op(name, fn, owns, **kw))

    pens = {"l1": pe.L1Norm(0.1), "group": pe.GroupL1(0.1, groups), "fused": pe.FusedLasso(0.1),
            "trace": pe.TraceNorm(0.1, (2, 2)), "tv2": pe.TotalVariation2D(0.1, (2, 2))}
    sets = {"l1": co.L1Ball(1.0), "l2": co.L2Ball(1.0), "linf": co.LinfBall(0.7), "simplex": co.SimplexConstraint(1.0),
            "trace": co.TraceBall(1.0, (2, 2))}
    for k, p in pens.items():
        add("prox-" + k, lambda x, p=p: p.prox(x, 0.5), groups, lists=False)
        add("value-" + k, lambda x, p=p: p(x), groups, lists=False)
    for k, p in sets.items():
        add("projection-" + k, lambda x, p=p: p.prox(x, 0.5), lists=False)
        if hasattr(p, "lmo"):
            at = np.array([0.1, 0.2, 0.3, 0.4])
            add("lmo-" + k, lambda x, p=p, at=at: p.lmo(x, at)[0], at, lists=False)
            add("lmo-at-" + k, lambda x, p=p, at=at: p.lmo(at, x)[0], at, lists=False)
    act = {(1.0, 0): 0.25, (-1.0, 2): 0.75}
    at = np.array([0.25, 0, -0.75, 0])
    add("pairwise", lambda x: sets["l1"].lmo_pairwise(x, at, act)[0], at, act, lists=False)
    w = np.array([0.1, 0.7, 0.3, 0.2])
    add("tv1d", lambda x: tv_prox.prox_tv1d(x, 0.3), lists=False)
    add("tv2d", lambda x: tv_prox.prox_tv2d(x, 0.3, 2, 2), lists=False)
    add("simplex-projection", lambda x: co.euclidean_proj_simplex(x, 1.0), lists=False)
    add("l1-projection", lambda x: co.euclidean_proj_l1ball(x, 1.0), lists=False)
    csr = sparse.csr_matrix(A0)
    rows = np.array([2, 0, 2])
    add("csr-mv", lambda x: utils.fast_csr_mv(csr.data, csr.indptr, csr.indices, x, rows), csr, rows, lists=False)
    x3 = np.array([1.0, -2.0, 0.5])
    add("csr-vm", lambda x: utils.fast_csr_vm(x3 * x[0], csr.data, csr.indptr, csr.indices, D, rows), csr, rows, x3,
        lists=False)
    sp = sparse.csr_matrix(w)
    add("sparse-add", lambda x: utils.safe_sparse_add(x, sp), sp, lists=False)
    add("sparse-add-left", lambda x: utils.safe_sparse_add(sp, x), sp, lists=False)
    losses = {"log": lo.LogLoss(A, y, 0.1), "square": lo.SquareLoss(A, b, 0.1), "huber": lo.HuberLoss(A, b, 0.1)}
    for k, f in losses.items():
        t = y if k == "log" else b
        add("loss-" + k, lambda x, f=f: f(x), A, t, lists=False)
        add("gradient-" + k, lambda x, f=f: f.f_grad(x), A, t, lists=False)
        add("lipschitz-" + k, lambda x, f=f: [np.array(float(f.lipschitz))], A, t, lists=False)
        if hasattr(f, "max_lipschitz"):
            add("max-lipschitz-" + k, lambda x, f=f: [np.array(float(f.max_lipschitz))], A, t, lists=False)
        if hasattr(f, "partial_deriv"):
            add("derivative-" + k, lambda x, f=f, t=t: f.partial_deriv(x, t[:D]), A, t, lists=False)
    f = losses["log"]
    add("hessian", lambda x: f.hessian_mv(x)(w), A, y, w, lists=False)
    add("sigma", lambda x: f.expit_b(x, y[:D]), y, lists=False)
    add("logsig", lambda x: f.logsig(x), lists=False)

    def seeded(fn):
        def go(x):
            np.random.seed(seed)
            return fn(x)
        return go

    def solver(name, fn, *owns, lists=True):
        ops.append(Op(name, seeded(fn), owns, True, lists))

    sq = lo.SquareLoss(A0, b, 0.1)
    g = lambda x: sq.f_grad(x)[1]  # noqa: E731
    start = np.array([0.25, 0, -0.75, 0])
    del start
    for step in ("backtracking", "sublinear", "DR"):
        solver("fw-" + step, lambda x, s=step: copt.minimize_frank_wolfe(
            sq, x, co.L1Ball(5.0).lmo, jac=g, step=s, lipschitz=L, max_iter=4, tol=0), A0, b)
    for acc in (False, True):
        solver("pg-%s" % acc, lambda x, a=acc: copt.minimize_proximal_gradient(
            sq, x, prox=pens["l1"].prox, jac=g, accelerated=a, max_iter=4, tol=0), A0, b)
        solver("pg-%s-noprox" % acc, lambda x, a=acc: copt.minimize_proximal_gradient(
            sq, x, jac=g, accelerated=a, max_iter=4, tol=0), A0, b)
        solver("ts-%s" % acc, lambda x, a=acc: copt.minimize_three_split(
            sq.f_grad, x, pens["l1"].prox, pens["fused"].prox, step_size=0.5 / L, line_search=a, max_iter=4, tol=0), A0, b)
        solver("ts-%s-noprox" % acc, lambda x, a=acc: copt.minimize_three_split(
            sq.f_grad, x, step_size=0.5 / L, line_search=a, max_iter=4, tol=0), A0, b)
        Lop = np.diff(np.eye(D), axis=0)
        solver("pd-%s" % acc, lambda x, a=acc: copt.minimize_primal_dual(
            sq.f_grad, x, pens["l1"].prox, lambda v, s: v / (1 + s), L=Lop, step_size=0.3 / L, line_search=a, max_iter=4,
            tol=0), A0, b, Lop)
        solver("pd-%s-noprox" % acc, lambda x, a=acc: copt.minimize_primal_dual(
            sq.f_grad, x, step_size=0.3 / L, line_search=a, max_iter=4, tol=0), A0, b)
    deriv = losses["square"].partial_deriv
    for m in ("saga", "svrg"):
        solve = getattr(copt, "minimize_" + m)
        solver(m, lambda x, s=solve: s(deriv, A, b, x, 0.1 / L, alpha=0.1, max_iter=2, tol=0,
                                       prox=pens["l1"].prox_factory(D)), A, b, lists=False)
        solver(m + "-noprox", lambda x, s=solve: s(deriv, A, b, x, 0.1 / L, max_iter=2, tol=0), A, b, lists=False)
    solver("vrtos", lambda x: copt.minimize_vrtos(
        deriv, A, b, x, 0.1 / L, max_iter=2, prox_1=pens["l1"].prox_factory(D), prox_2=pens["group"].prox_factory(D)),
        A, b, groups, lists=False)
    solver("vrtos-noprox", lambda x: copt.minimize_vrtos(deriv, A, b, x, 0.1 / L, max_iter=2), A, b, lists=False)
    for v in ("SAG", "SAGA", "MHK", "LF"):
        solver("sfw-" + v, lambda x, v=v: copt.minimize_sfw(
            deriv, A, b, x, co.L1Ball(5.0).lmo, variant=v, batch_size=2, max_iter=2, tol=0), A, b, lists=False)
    return ops
