"""C21: sparse kernels and independence of the storage of the data."""
import warnings
import numpy as np
from scipy import sparse
from lib import data, gen
from lib.core import vec
from checks.c09 import FORMATS

# (bsr and csr-zeros store zeros, which the stochastic solvers take for entries of the sample)
SOLVER_FORMATS = ("fortran", "strided", "csr", "csc", "coo", "lil", "dok", "csr64", "csr-unsorted",
                  "csc-unsorted", "csr-array", "csr-dup", "readonly", "int")


def kernel_events(M, idx, n, x, y, scale, tol):
    """M: (data, indptr, indices), x of length n, y of the length of idx"""
    from copt import utils
    rec = {"indptr": [int(v) for v in M[1]], "indices": [int(v) for v in M[2]], "data": vec(M[0])}
    sel = [int(v) for v in idx]
    base = {"M": rec, "idx": sel, "n": n, "tol": tol, "scale": scale}
    return [dict(base, k="csrmv", x=vec(x), out=vec(utils.fast_csr_mv(*M, x.copy(), idx))),
            dict(base, k="csrvm", x=vec(y), out=vec(utils.fast_csr_vm(y.copy(), *M, n, idx)))]


def replay(rng, layouts):
    """The model's layouts and selections, with numbers for which sums are exact"""
    evs = []
    for t, c in enumerate(layouts):
        it = (np.int32, np.int64)[t % 2]
        M = (np.array([gen.num(v) for v in c["M"]["data"]]), np.array(c["M"]["indptr"], dtype=it),
             np.array(c["M"]["indices"], dtype=it))
        idx = np.array(c["idx"], dtype=(np.int64, np.int32)[t // 2 % 2])
        x = np.array([-0.5, 1.0, 2.5])[:2]
        evs += kernel_events(M, idx, 2, x, 2.0 * np.arange(1, len(idx) + 1) - 5, 1.0, 0.0)
    return gen.fn_trace(evs)


def kernels(rng, fmt, mode, large=False):
    evs = []
    for _ in range(1 if large else 8):
        n, d = (300, 40) if large else (int(rng.integers(1, 9)), int(rng.integers(1, 8)))
        A = rng.normal(size=(n, d)) * (rng.random((n, d)) < (0.2 if large else rng.choice([0.0, 0.3, 0.7, 1.0])))
        S = sparse.csr_matrix(data.store(rng, A, fmt))
        dt = {"csr32": np.float32}.get(fmt, float)
        M = (S.data.astype(dt), S.indptr, S.indices)
        idx = {"repeated": rng.integers(n, size=int(rng.integers(1, 12)) + 400 * large), "permuted": rng.permutation(n),
               "empty": np.zeros(0, dtype=int), "one": rng.integers(n, size=1), "ordered": np.arange(n),
               "reversed": np.arange(n)[::-1], "same": np.full(5, n - 1)}[mode]
        x, y = gen.vector(rng, d, "mixed"), gen.vector(rng, len(idx), "mixed")
        scale = 1.0 + float(np.abs(x).max() * np.abs(A).sum() + (np.abs(y).max() * np.abs(A).sum() if len(y) else 0)) * \
            max(1, len(idx))
        evs += kernel_events(M, idx, d, x, y, scale, 1e-12)
    return gen.fn_trace(evs)


def added(rng):
    from copt import utils
    evs = []
    for n in (1, 2, 3, 7):
        for fmt in ("csr", "csc", "coo", "lil", "dok", "bsr", "csr-array"):
            for shape in ((n,), (1, n), (n, 1)):
                for dense_first in (True, False, None):
                    a, b = gen.vector(rng, n, "normal"), gen.vector(rng, n, "sparse")
                    if dense_first is None and shape == (n,):
                        continue
                    va = a.reshape(shape)
                    # a vector goes with a sparse row or column
                    full = shape if len(shape) == 2 else ((1, n) if rng.random() < 0.7 else (n, 1))
                    vb = data.store(rng, b.reshape(full), fmt)
                    if dense_first is None:
                        va = data.store(rng, va, "csr")
                        out = utils.safe_sparse_add(va, vb)
                    else:
                        out = utils.safe_sparse_add(va, vb) if dense_first else utils.safe_sparse_add(vb, va)
                    arr = out.toarray() if sparse.issparse(out) else np.asarray(out)
                    evs.append({"k": "spadd", "a": vec(a), "b": vec(b), "out": vec(arr.ravel()),
                                "shape": str(arr.shape), "wantshape": str(shape)})
        a, b = gen.vector(rng, n, "normal"), gen.vector(rng, n, "normal")
        out = utils.safe_sparse_add(a, b)
        evs.append({"k": "spadd", "a": vec(a), "b": vec(b), "out": vec(out), "shape": str(out.shape),
                    "wantshape": str((n,))})
    return gen.fn_trace(evs)


def same(what, want, got, tol=1e-9):
    return {"k": "match", "what": what, "want": vec(want), "got": vec(got), "tol": tol}


def losses(rng, kind, mat):
    """The same loss on every storage of its data"""
    evs = []
    A = np.round(3 * data.matrix(rng, mat))
    if not A.any():
        A[0, 0] = 1.0
    n, d = A.shape
    b = data.targets(rng, kind, n, str(rng.choice(data.TMODES)))
    alpha = float(rng.choice([0.0, 0.5]))
    x, s = rng.normal(size=d), rng.normal(size=d)

    def all_of(S):
        f = data.make_loss(kind, S, b, alpha)
        v, g = f.f_grad(x.copy())
        out = [np.array([float(v), float(f(x.copy()))]), np.asarray(g), np.array([float(f.lipschitz)])]
        if kind == "log":
            out.append(f.hessian_mv(x.copy())(s.copy()))
        return out
    ref = all_of(A)
    for fmt in FORMATS[kind]:
        for r, o in zip(ref, all_of(data.store(rng, A, fmt))):
            evs.append(same("loss-on-" + fmt, r, o))
        if kind != "huber":
            evs.append(same("max-lipschitz-on-" + fmt, [float(data.make_loss(kind, A, b, alpha).max_lipschitz)],
                            [float(data.make_loss(kind, data.store(rng, A, fmt), b, alpha).max_lipschitz)]))
    return gen.fn_trace(evs)


def solver(rng, name, mat, loss):
    """The same run on every storage of its data"""
    import copt
    import copt.penalty as pe
    A = np.round(3 * data.matrix(rng, mat))
    n, d = A.shape
    b = data.targets(rng, loss, n, "labels")
    f = data.make_loss(loss, A, b, 0.0)
    L = max(float((A ** 2).sum(1).max()), 1.0)
    alpha = float(rng.choice([0.0, 0.3])) if name != "sfw" else 0.0
    x0 = rng.normal(size=d)
    x0 *= 0.9 / max(np.abs(x0).sum(), 1e-3)
    groups = gen.random_groups(rng, d, "all")
    seed = int(rng.integers(1 << 30))
    variant = str(rng.choice(["SAG", "SAGA", "MHK", "LF"]))
    pen = str(rng.choice(["l1", "group", "none"]))
    bs = int(rng.integers(1, n + 1))

    def smooth(u, x, act=None):      # an oracle that does not jump from vertex to vertex on rounding errors
        return u / (1.0 + np.linalg.norm(u)) - x, None, None, 1.0

    def go(S):
        np.random.seed(seed)
        block = {"l1": pe.L1Norm(0.1), "group": pe.GroupL1(0.1, groups), "none": None}[pen]
        block = None if block is None else block.prox_factory(d)
        seen = []
        kw = dict(max_iter=3, tol=0, callback=lambda dl: seen.append(np.array(dl["x"])))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if name in ("saga", "svrg"):
                r = getattr(copt, "minimize_" + name)(f.partial_deriv, S, b, x0.copy(), 0.3 / L, alpha=alpha, prox=block, **kw)
            elif name == "vrtos":
                r = copt.minimize_vrtos(f.partial_deriv, S, b, x0.copy(), 0.3 / L, alpha=alpha, prox_1=block,
                                        prox_2=None if d < 2 else pe.FusedLasso(0.1).prox_1_factory(d), **kw)
            else:
                r = copt.minimize_sfw(f.partial_deriv, S, b, x0.copy(), smooth, batch_size=bs,
                                      variant=variant, **kw)
        return [v for v in seen] + [r.x]
    ref = go(A)
    evs = []
    for fmt in SOLVER_FORMATS:
        out = go(data.store(rng, A, fmt))
        evs.append(same(name + "-number-of-callbacks-on-" + fmt, [float(len(ref))], [float(len(out))], 0.0))
        for r, o in zip(ref, out):
            evs.append(same(name + "-on-" + fmt, r, o, 1e-8))
    return gen.fn_trace(evs)


def run(ctx):
    ctx.mc("MC_Csr", ctx.scale("MC_Csr.cfg", "MC_Csr_big.cfg"))
    lay = ctx.generate("MC_Csr", "MC_Csr_gen.cfg")
    ctx.replayed = len(lay)
    cases = [("replay-%d" % i, replay, dict(layouts=lay[i::8])) for i in range(8)]
    for rep in range(ctx.scale(1, 8)):
        for fmt in ("csr", "csr64", "csr-unsorted", "csr-dup", "csr-zeros", "csr-array"):
            for mode in ("repeated", "permuted", "empty", "one", "ordered", "reversed", "same"):
                cases.append(("kernels-%s-%s-%d" % (fmt, mode, rep), kernels, dict(fmt=fmt, mode=mode)))
            for mode in ("repeated", "permuted"):
                cases.append(("kernels-large-%s-%s-%d" % (fmt, mode, rep), kernels, dict(fmt=fmt, mode=mode, large=True)))
        cases.append(("added-%d" % rep, added, {}))
        for mat in data.MATS + ("broad",):
            for kind in ("log", "square", "huber"):
                cases.append(("loss-%s-%s-%d" % (kind, mat, rep), losses, dict(kind=kind, mat=mat)))
            for name in ("saga", "svrg", "vrtos", "sfw"):
                loss = ("log", "square")[rep % 2 if mat != "emptycol" else (rep + 1) % 2]
                cases.append(("%s-%s-%s-%d" % (name, mat, loss, rep), solver, dict(name=name, mat=mat, loss=loss)))
    ctx.validate(ctx.run_cases(cases))
