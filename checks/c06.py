"""C06: proximal operators and values of the L1, group-lasso and trace norms."""
import numpy as np
from lib import gen
from lib.core import vec

STEPS = (1e-3, 0.5, 1, 7.0)


def prox_event(pen, P, x, step, tol, shape=None):
    x0 = x.copy()
    z = pen.prox(x, step)
    ev = {"k": "prox", "P": P, "x": vec(x0), "step": float(step), "z": vec(z), "Wz": gen.NOW, "WG": gen.NOW,
          "tol": tol}
    if shape and len(ev["z"]) == x0.size:
        ev["Wz"] = gen.svdw(z, shape)
        ev["WG"] = gen.svdw(x0.astype(float) - np.asarray(z, dtype=float), shape)
    return ev


def value_event(pen, P, x, shape=None, tol=1e-12):
    return {"k": "value", "P": P, "x": vec(x), "val": float(pen(x.copy())),
            "Wx": gen.svdw(x, shape) if shape else gen.NOW, "tol": tol}


def inputs(rng, n, lams, large=False):
    for mode in ("normal", "dup", "sparse", "negative") if large else gen.MODES + gen.GIANT:
        yield gen.vector(rng, n, mode)
    for lam in lams[1:3] if large else lams:   # exactly at, just above and just below the threshold
        for f in (1.0, 1 + 1e-9, 1 - 1e-9, -1.0):
            e = np.zeros(n)
            e[rng.integers(n)] = lam * f
            yield e
            yield np.full(n, lam * f)
        v = rng.normal(size=n)
        yield v * (lam / np.linalg.norm(v)) * 1.0000001
        yield v * (lam / np.linalg.norm(v)) * 3


def case(rng, kind, alpha, f32=False, shape=None, large=None, ints=False):
    import copt.penalty as pe
    evs = []
    for n in ([int(np.prod(shape))] if shape else [large] if large else (1, 2, 3, 7, 16)):
        if kind == "l1":
            pens = [(pe.L1Norm(alpha), {"t": "l1", "a": float(alpha)})]
        elif kind == "group":
            pens = []
            for gk in ("all", "singletons", "one", "gaps", "gaps2"):
                g = gen.random_groups(rng, n, gk)
                arg = [np.array(b) for b in g] if gk == "gaps2" else g
                pens.append((pe.GroupL1(alpha, arg), {"t": "group", "a": float(alpha), "g": gen.one_based(g)}))
        else:
            pens = [(pe.TraceNorm(alpha, shape), {"t": "trace", "a": float(alpha), "m": shape[0], "n": shape[1]})]
        for pen, P in pens:
            for i, x in enumerate(inputs(rng, n, [alpha * s for s in STEPS], large)):
                tol = 1e-12
                if f32:
                    x, tol = x.astype(np.float32), 2e-6
                if ints:
                    x = gen.as_ints(rng, x)
                step = STEPS[i % 4] if rng.random() < 0.7 else float(rng.uniform(0.01, 3))
                evs.append(prox_event(pen, P, x, step, tol, shape))
                if i % 2:
                    evs.append(value_event(pen, P, x, shape, tol))
    return gen.fn_trace(evs)


def replay(rng, cases):
    import copt.penalty as pe
    evs = []
    pens = [(pe.L1Norm(a), {"t": "l1", "a": a}) for a in (0.5, 1.0)]
    for g in ([[0], [1, 2]], [[1]], [[0, 1, 2]], [[0, 1], [2]]):
        for a in (0.5, 1.0):
            pens.append((pe.GroupL1(a, g), {"t": "group", "a": a, "g": gen.one_based(g)}))
    for a in (0.5, 1.0):
        pens.append((pe.TraceNorm(a, (1, 3)), {"t": "trace", "a": a, "m": 1, "n": 3}))
        pens.append((pe.TraceNorm(a, (3, 1)), {"t": "trace", "a": a, "m": 3, "n": 1}))
    for c in cases:
        x = np.array([gen.num(v) for v in c["x"]])
        for pen, P in pens:
            sh = (P["m"], P["n"]) if P["t"] == "trace" else None
            evs.append(prox_event(pen, P, x.copy(), 1.0, 1e-12, sh))
            evs.append(value_event(pen, P, x, sh))
    return gen.fn_trace(evs)


def run(ctx):
    ctx.mc("MC_Prox", ctx.scale("MC_Prox.cfg", "MC_Prox_big.cfg"))
    grid = ctx.generate("MC_Prox", "MC_Prox_gen.cfg")
    ctx.replayed = len(grid)
    cases = [("replay-%d" % i, replay, dict(cases=grid[i::8])) for i in range(8)]
    for rep in range(ctx.scale(2, 12)):
        for alpha in (1, 0.1, 2.5, 0.0):
            for kind in ("l1", "group"):
                cases.append(("%s-a%r-%d" % (kind, alpha, rep), case, dict(kind=kind, alpha=alpha)))
            for shape in ((1, 1), (2, 2), (3, 2), (2, 4), (1, 5), (4, 1), (4, 4)):
                cases.append(("trace-%dx%d-a%r-%d" % (*shape, alpha, rep), case,
                              dict(kind="trace", alpha=alpha, shape=shape)))
        for kind, shape in (("l1", None), ("group", None), ("trace", (18, 12))):
            cases.append(("%s-large-%d" % (kind, rep), case, dict(kind=kind, alpha=0.7, shape=shape, large=600)))
        for kind in ("l1", "group"):
            cases.append(("%s-f32-%d" % (kind, rep), case, dict(kind=kind, alpha=0.7, f32=True)))
            cases.append(("%s-ints-%d" % (kind, rep), case, dict(kind=kind, alpha=(0.7, 2)[rep % 2], ints=True)))
        cases.append(("trace-ints-%d" % rep, case, dict(kind="trace", alpha=0.7, ints=True, shape=(3, 2))))
        cases.append(("trace-f32-%d" % rep, case, dict(kind="trace", alpha=0.7, f32=True, shape=(3, 2))))
    ctx.validate(ctx.run_cases(cases))
