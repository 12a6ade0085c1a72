"""C10: Hessian-vector products and Lipschitz constants."""
import numpy as np
from lib import gen, data
from lib.core import vec
from checks.c09 import points, scalar


LARGE = ("long", "flat", "broad")


def hess(rng, mat, fmt):
    out = []
    A = data.matrix(rng, mat) if mat != "zero" else np.zeros((3, 2))
    if mat == "big":
        A = A / 40
    A = np.round(A) if fmt == "int" else A
    n, d = A.shape
    for sub, alpha in enumerate((0.0, 0.3, 1.0 / n, 5)):
        if mat in LARGE and sub != 1:
            continue
        b = data.targets(rng, "log", n, data.TMODES[sub])
        f = data.make_loss("log", data.store(rng, A, fmt), b, alpha)
        evs = []
        for x in list(points(rng, A, d))[:2 if mat in LARGE else 9]:
            H = f.hessian_mv(x.copy())
            if sub == 1 and hasattr(f, "hessian_trace"):      # documented as the same product
                H = f.hessian_trace(x.copy())
            for s in (rng.normal(size=d), np.eye(d)[rng.integers(d)], rng.normal(size=d) * 1e4, np.zeros(d),
                      rng.integers(-3, 4, size=d))[:2 if mat in LARGE else 5]:
                evs.append({"k": "hess", "x": vec(x), "s": vec(s), "h": vec(H(s.copy())), "tol": 1e-11})
        out.append(gen.fn_trace(evs, data.floss("log", A, b, alpha), sub=sub))
    return out


def lips(rng, kind, mat, fmt):
    out = []
    for sub, alpha in enumerate((0.0, 0.4, 3, 0.0)):
        if mat in LARGE and sub != 1:
            continue
        A = data.matrix(rng, mat) if mat != "zero" else np.zeros((3, 2))
        if sub == 3:
            A = A * 10.0 ** int(rng.integers(-7, 6))
        n, d = A.shape
        b = data.targets(rng, kind, n, data.TMODES[sub % 3])
        f = data.make_loss(kind, data.store(rng, A, fmt), b, alpha, [1.0, 0.2, 50.0, 1.0][sub])
        F = data.floss(kind, A, b, alpha, [1.0, 0.2, 50.0, 1.0][sub])
        evs = []
        vs = [np.ones(d)] + [rng.normal(size=d) for _ in range(1 if mat in LARGE else 3)]
        v = np.linalg.svd(A)[2][0]
        # direction that extremal inputs of the gradient lie along: curvature is largest at margin 0 (log),
        # on the quadratic part (huber)
        L = f.lipschitz
        evs.append({"k": "lip", "L": scalar(L), "vs": [vec(v)] + [vec(w) for w in vs], "tol": 1e-9})
        if sub == 3:        # (the gradients of badly scaled data are too noisy for pairs of points)
            if kind != "huber":
                evs.append({"k": "maxlip", "L": scalar(f.max_lipschitz), "tol": 1e-9})
            out.append(gen.fn_trace(evs, F, sub=sub))
            continue
        x0 = np.zeros(d) if kind == "log" else np.linalg.lstsq(A, b, rcond=None)[0]
        for x, y in ((x0 + 1e-3 * v, x0 - 1e-3 * v), (rng.normal(size=d), rng.normal(size=d)),
                     (x0, x0 + rng.normal(size=d) * 100)):
            evs.append({"k": "gradpair", "x": vec(x), "y": vec(y), "gx": vec(f.f_grad(x.copy())[1]),
                        "gy": vec(f.f_grad(y.copy())[1]), "L": scalar(L), "tol": 1e-7})
        if kind != "huber":
            mls = [f.max_lipschitz]
            if kind == "log":
                from copt.utils import get_max_lipschitz
                mls.append(get_max_lipschitz(data.store(rng, A, "csr"), "logloss", *([alpha] if alpha else [])))
            for ml in mls:
                evs.append({"k": "maxlip", "L": scalar(ml), "tol": 1e-9})
                i = int(np.argmax((A ** 2).sum(1)))
                one = data.make_loss(kind, data.store(rng, A[[i]], fmt), b[[i]], alpha)
                for sc in (1e-3, 1.0):
                    x, y = sc * A[i], -sc * A[i]
                    if np.abs(x).max() > 0:
                        evs.append({"k": "gradpair", "x": vec(x), "y": vec(y), "gx": vec(one.f_grad(x.copy())[1]),
                                    "gy": vec(one.f_grad(y.copy())[1]), "L": scalar(ml), "tol": 1e-7})
        out.append(gen.fn_trace(evs, F, sub=sub))
    return out


LF = {"log": ("dense", "fortran", "csr", "csc", "coo", "lil", "csr-unsorted", "csr-dup", "csr64",
              "bsr", "dok", "csr-array", "csr-zeros"),
      "square": ("dense", "fortran", "csr", "csc", "coo", "lil", "csr-unsorted", "csr-dup", "csr64",
              "bsr", "dok", "csr-array", "csr-zeros"),
      "huber": ("dense", "fortran", "csr", "csc", "csr-unsorted", "csr-zeros")}


def run(ctx):
    ctx.mc("MC_Losses")
    cases = []
    hf = data.DENSE + data.SPARSE_ANY + ("int",)
    for rep in range(ctx.scale(2, 3)):
        for i, mat in enumerate(LARGE if rep == 0 or ctx.scale(0, 1) else ()):
            fmt = ("dense", "csr", "csc")[(i + rep) % 3]
            cases.append(("hess-%s-%s-%d" % (mat, fmt, rep), hess, dict(mat=mat, fmt=fmt)))
            for kind in ("log", "square", "huber"):
                cases.append(("lips-%s-%s-%s-%d" % (kind, mat, fmt, rep), lips, dict(kind=kind, mat=mat, fmt=fmt)))
        for i, mat in enumerate(data.MATS + ("zero",)):
            for j in range(ctx.scale(3, len(hf))):
                fmt = hf[(i * 3 + j + 5 * rep) % len(hf)]
                cases.append(("hess-%s-%s-%d" % (mat, fmt, rep), hess, dict(mat=mat, fmt=fmt)))
            for kind in ("log", "square", "huber"):
                for j in range(ctx.scale(2, len(LF[kind]))):
                    fmt = LF[kind][(i * 2 + j + 3 * rep) % len(LF[kind])]
                    cases.append(("lips-%s-%s-%s-%d" % (kind, mat, fmt, rep), lips,
                                  dict(kind=kind, mat=mat, fmt=fmt)))
    ctx.validate(ctx.run_cases(cases))
