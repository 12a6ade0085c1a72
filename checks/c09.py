"""C09: values and gradients of the losses."""
import numpy as np
from lib import gen, data
from lib.core import vec

FORMATS = {"log": data.DENSE + data.SPARSE_ANY + ("int",), "square": data.DENSE + data.SPARSE_ANY + ("int",),
           "huber": data.DENSE + ("csr", "csc", "lil", "csr64", "csr-unsorted", "csr-dup", "csr-zeros", "csr-array",
                                  "csc-unsorted")}


def scalar(v):
    a = np.asarray(v)
    return float(a) if a.ndim == 0 else "shape-%s" % (a.shape,)


def loss_event(f, x, tol):
    x0 = x.copy()
    val, grad = f.f_grad(x)
    return {"k": "loss", "x": vec(x0), "val": scalar(val), "valonly": scalar(f.f_grad(x, return_gradient=False)),
            "call": scalar(f(x)), "grad": vec(grad) if np.ndim(grad) == 1 else "gradient-shape", "tol": tol}


def points(rng, A, d):
    for mode in ("normal", "zeros", "ints", "tiny", "mixed", "sparse"):
        yield gen.vector(rng, d, mode)
    # margins of a prescribed size, of both signs, across the branches of the implementation
    for m in (1.0, 18.0, 33.0, 37.0, 40.0, 750.0, 3000.0):
        x = rng.normal(size=d)
        z = np.abs(A.dot(x)).max()
        if z > 0:
            yield x * (m / z)
            yield -x * (m / z)


def case(rng, kind, mat, fmt):
    out = []
    A = np.round(data.matrix(rng, mat)) if fmt == "int" else data.matrix(rng, mat)
    n, d = A.shape
    for sub, (alpha, delta) in enumerate(((0.0, 1.0), (0.3, 0.5), (1.0 / max(n, 1), 2), (2, 10.0))):
        if mat in ("long", "flat") and sub != 1:
            continue
        b = data.targets(rng, kind, n, data.TMODES[(sub + rng.integers(4)) % 4])
        S = data.store(rng, A, fmt)
        f = data.make_loss(kind, S, b, alpha, delta)
        evs = []
        pts = list(points(rng, A, d))
        pts = [pts[i] for i in rng.permutation(len(pts))[:3 if mat in ("long", "flat") else 8]]
        if kind == "huber":   # residuals exactly on and near the kink
            x, res, *_ = np.linalg.lstsq(A, b + rng.choice([-1, 1], size=n) * delta, rcond=None)
            pts += [x, x * (1 + 1e-9)]
        if sub == 0:
            pts.append(np.arange(d))      # an integer point
        for x in pts:
            evs.append(loss_event(f, x, 1e-11))
        out.append(gen.fn_trace(evs, data.floss(kind, A, b, alpha, delta), sub=sub))
    return out


def identity(rng, kind):
    """A=None stands for the identity."""
    b = data.targets(rng, kind, 4, "real")
    f = data.make_loss(kind, None, b, 0.2)
    evs = [loss_event(f, x, 1e-11) for x in points(rng, np.eye(4), 4)]
    return gen.fn_trace(evs, data.floss(kind, np.eye(4), b, 0.2))


MARGINS = np.concatenate((np.linspace(-5, 5, 11), [-1000, -800, -746, -710, -700, -300, -40, -37.0001, -37, -36.9, -34,
                                                   -33.00001, -33, -32.9, -20, -18.00001, -18, -17.9, -1e-8, 1e-300],
                          [1000, 800, 746, 710, 700, 300, 40, 37.0001, 37, 36.9, 34, 33, 20, 18, 17.9, 1e-8, 1e-16]))


def derivs(rng, kind, rep):
    A = np.eye(2)
    b = np.array([0.0, 1.0])
    f = data.make_loss(kind, A, b, 0.0)
    evs = []
    fs = [f.partial_deriv] + ([f.expit_b] if kind == "log" else [])
    for g in fs:
        for y in ((0.0, 1.0, 0.25, 0.999) if kind == "log" else (0.0, -3.0, 1e3)):
            p = MARGINS if not rep else MARGINS * rng.uniform(0.9, 1.1, size=len(MARGINS))
            ys = np.full(len(p), y)
            evs.append({"k": "deriv", "p": vec(p), "y": vec(ys), "d": vec(g(p.copy(), ys.copy())), "tol": 1e-12,
                        "f32": False})
        p = rng.normal(size=20) * 30
        ys = data.targets(rng, kind, 20, "labels")
        evs.append({"k": "deriv", "p": vec(p), "y": vec(ys), "d": vec(g(p.copy(), ys.copy())), "tol": 1e-12,
                    "f32": False})
        # whole numbers as an integer array
        p = rng.integers(-40, 41, size=20)
        evs.append({"k": "deriv", "p": vec(p), "y": vec(ys), "d": vec(g(p.copy(), ys.copy())), "tol": 1e-12,
                    "f32": False})
        # scalar batches, as the solvers pass them
        for i in range(6):
            evs.append({"k": "deriv", "p": vec(p[i:i + 1]), "y": vec(ys[i:i + 1]), "tol": 1e-12, "f32": False,
                        "d": vec(g(p[i:i + 1].copy(), ys[i:i + 1].copy()))})
    if kind == "log":
        for t in (MARGINS, MARGINS * rng.uniform(0.9, 1.1, size=len(MARGINS)), rng.normal(size=30) * 20,
                  rng.integers(-40, 41, size=20)):
            evs.append({"k": "logsig", "ts": vec(t), "v": vec(f.logsig(t.copy())), "tol": 1e-12})
    return gen.fn_trace(evs, data.floss(kind, A, b, 0.0))


def run(ctx):
    ctx.mc("MC_Losses")
    cases = []
    for rep in range(ctx.scale(1, 8)):
        for kind in ("log", "square", "huber"):
            for i, mat in enumerate(data.MATS):
                fs = FORMATS[kind]
                for j in range(ctx.scale(3, len(fs))):
                    fmt = fs[(i * 3 + j + rep) % len(fs)]
                    cases.append(("%s-%s-%s-%d" % (kind, mat, fmt, rep), case, dict(kind=kind, mat=mat, fmt=fmt)))
        for i, kind in enumerate(("log", "square", "huber")):
            for j, mat in enumerate(("long", "flat", "broad")):
                fmt = ("dense", "csr", "csc")[(i + j + rep) % 3]
                cases.append(("%s-%s-%s-%d" % (kind, mat, fmt, rep), case, dict(kind=kind, mat=mat, fmt=fmt)))
        for kind in ("log", "square"):
            cases.append(("identity-%s-%d" % (kind, rep), identity, dict(kind=kind)))
            cases.append(("derivs-%s-%d" % (kind, rep), derivs, dict(kind=kind, rep=rep)))
    ctx.validate(ctx.run_cases(cases))
