"""C05: projections of the constraint sets, and their indicators."""
import numpy as np
from lib import gen
from lib.core import vec


def make(kind, r, shape=None):
    import copt.constraint as c
    return {"l1": lambda: c.L1Ball(r), "l2": lambda: c.L2Ball(r), "linf": lambda: c.LinfBall(r),
            "simplex": lambda: c.SimplexConstraint(*([] if r == 1 else [r])), "trace": lambda: c.TraceBall(r, shape)}[kind]()


def S(kind, r, shape=None):
    d = {"t": kind, "r": float(r)}
    if shape:
        d.update(m=shape[0], n=shape[1])
    return d


def points(rng, kind, r, shape, large):
    n = int(np.prod(shape)) if shape else 0
    sizes = [n] if shape else [large] if large else [1, 2, 3, 5, 8, 17]
    for n in sizes:
        for mode in ("normal", "dup", "sparse", "positive") if large else gen.MODES + (gen.GIANT if kind != "trace" else ()):
            for sc in (0.3, 1.0, 4.0):
                yield mode, gen.vector(rng, n, mode) * (sc if mode in ("normal", "dup", "halves", "equal") else 1.0)
        # vertices, points on and near the boundary, points that are exactly feasible
        e = np.zeros(n)
        e[rng.integers(n)] = r
        yield "vertex", e.copy()
        yield "negvertex", -e
        yield "outside-vertex", e * (1 + 1e-3)
        yield "inside-vertex", e * (1 - 1e-3)
        yield "uniform", np.full(n, r / n)
        w = rng.integers(0, 5, size=n).astype(float)
        w[0] += 1
        yield "exact", w * (r / w.sum())
        yield "near", w * (r / w.sum()) * (1 + 1e-9)
        yield "signed", w * (r / w.sum()) * rng.choice([-1, 1], size=n)


def case(rng, kind, r, shape=None, f32=False, large=None, ints=False):
    c = make(kind, r, shape)
    evs, k = [], 0
    tol = 1e-4 if f32 else 1e-12
    for mode, x in points(rng, kind, r, shape, large):
        if f32:
            x = x.astype(np.float32)
            if np.abs(x).max() > 1e3:
                continue
        if ints:
            x = gen.as_ints(rng, x)
        ev = {"k": "proj", "S": S(kind, r, shape), "x": vec(x), "tol": tol, "Wp": gen.NOW, "Wr": gen.NOW, "ind": "none"}
        p = c.prox(x.copy(), 0.7) if k % 2 else c.prox(x.copy(), None)
        k += 1
        ev["p"] = vec(p)
        if shape and len(ev["p"]) == x.size:
            ev["Wp"] = gen.svdw(p, shape)
            ev["Wr"] = gen.svdw(x.astype(float) - np.asarray(p, dtype=float), shape)
        if callable(c) and not f32:
            ev["ind"] = float(c(p))
            iev = {"k": "ind", "S": ev["S"], "x": vec(x), "Wx": gen.svdw(x, shape) if shape else gen.NOW,
                   "ind": float(c(x))}
            evs.append(iev)
        evs.append(ev)
    return gen.fn_trace(evs)


def direct(rng, fname):
    """The module-level projection functions, with their default and explicit radius."""
    import copt.constraint as c
    f = getattr(c, fname)
    kind = "l1" if fname.endswith("l1ball") else "simplex"
    evs = []
    for n in (1, 2, 4, 7, 30):
        for mode in gen.MODES + gen.GIANT:
            x = gen.vector(rng, n, mode)
            for s in (None, 1, 3, 0.25):
                p = f(x.copy()) if s is None else f(x.copy(), s)
                evs.append({"k": "proj", "S": S(kind, 1.0 if s is None else s), "x": vec(x), "p": vec(p),
                            "tol": 1e-12, "Wp": gen.NOW, "Wr": gen.NOW, "ind": "none"})
    return gen.fn_trace(evs)


def run(ctx):
    ctx.mc("MC_Sets")
    cases = []
    reps = ctx.scale(1, 8)
    for rep in range(reps):
        for kind in ("l1", "l2", "linf", "simplex"):
            for r in (1, 1.0, 0.1, 2.5, 100.0):
                cases.append(("%s-r%r-%d" % (kind, r, rep), case, dict(kind=kind, r=r)))
            cases.append(("%s-f32-%d" % (kind, rep), case, dict(kind=kind, r=1.5, f32=True)))
            cases.append(("%s-ints-%d" % (kind, rep), case, dict(kind=kind, r=(1.5, 4)[rep % 2], ints=True)))
            cases.append(("%s-large-%d" % (kind, rep), case, dict(kind=kind, r=2.5, large=900)))
        cases.append(("trace-ints-%d" % rep, case, dict(kind="trace", r=1.5, shape=(3, 2), ints=True)))
        cases.append(("trace-large-%d" % rep, case, dict(kind="trace", r=2.5, shape=(20, 12), large=1)))
        for shape in ((1, 1), (2, 2), (3, 2), (2, 4), (1, 3), (3, 1), (4, 4)):
            for r in (1.0, 3.5):
                cases.append(("trace-%dx%d-r%r-%d" % (*shape, r, rep), case, dict(kind="trace", r=r, shape=shape)))
        cases += [("%s-%d" % (f, rep), direct, dict(fname=f)) for f in ("euclidean_proj_simplex",
                                                                        "euclidean_proj_l1ball")]
    ctx.validate(ctx.run_cases(cases))
