"""C07: total variation in one and two dimensions."""
import warnings
from fractions import Fraction
import numpy as np
from lib import gen
from lib.core import vec
from checks.c06 import prox_event, value_event


def P(t, a, m=None, n=None):
    d = {"t": t, "a": float(a)}
    if m:
        d.update(m=m, n=n)
    return d


def prox1(f, Pd, x, step, tol):
    """one call of a prox function f(x, step) as an event"""
    x0 = x.copy()
    z = f(x, step)
    return {"k": "prox", "P": Pd, "x": vec(x0), "step": float(step), "z": vec(z), "Wz": gen.NOW, "WG": gen.NOW,
            "tol": tol}


STEPS = (1e-3, 0.25, 1.0, 2, 40.0)


def signals(rng, n):
    for mode in gen.MODES + gen.GIANT:
        yield gen.vector(rng, n, mode)
    yield np.repeat(rng.normal(size=(n + 2) // 3), 3)[:n]            # piecewise constant
    yield np.cumsum(rng.choice([-1.0, 0.0, 1.0], size=n))
    yield np.cumsum(rng.normal(size=n))


def oned(rng, f32=False):
    import copt.penalty as pe
    from copt import tv_prox
    evs = []
    for n in (1, 2, 3, 4, 5, 8, 13, 24):
        for x in signals(rng, n):
            tol = 1e-11
            if f32:
                x, tol = x.astype(np.float32), 3e-6
            s = STEPS[rng.integers(len(STEPS))]
            a = float(rng.choice([0.3, 1.0, 2.0]))
            evs.append(prox1(tv_prox.prox_tv1d, P("tv", 1), x, s, tol))
            pen = pe.FusedLasso(a)
            evs.append(prox_event(pen, P("tv", a), x, s, tol))
            evs.append(value_event(pen, P("tv", a), x, None, tol))
    return gen.fn_trace(evs)


def long(rng, width):
    """Signals with tens of thousands of entries, constant on runs."""
    import copt.penalty as pe
    from copt import tv_prox
    evs = []
    for k in range(2):
        lens = np.concatenate((rng.integers(1, 4, size=4), rng.multinomial(width - 20, np.ones(5) / 5), rng.integers(1, 4, size=3)))
        lens = rng.permutation(lens)
        w = rng.integers(-40, 41, size=len(lens)) / 8.0
        x = np.repeat(w, lens)
        lam = float(rng.choice([0.75, 20.0, 3000.0]))
        z = tv_prox.prox_tv1d(x, lam) if k else pe.FusedLasso(0.5).prox(x, 2 * lam)
        at = np.concatenate(([0], np.cumsum(lens)[:-1]))
        ok = z.shape == x.shape
        evs.append({"k": "tvrun", "lens": [int(v) for v in lens], "w": vec(w), "lam": lam, "tol": 1e-11,
                    "lo": vec(np.minimum.reduceat(z, at)) if ok else [], "hi": vec(np.maximum.reduceat(z, at)) if ok else []})
    return gen.fn_trace(evs)


def colsrows(rng):
    from copt import tv_prox
    evs = []
    for m, n in ((1, 1), (1, 4), (4, 1), (2, 3), (3, 2), (4, 4), (5, 3)):
        for x in signals(rng, m * n):
            s = float(STEPS[rng.integers(len(STEPS))])
            evs.append(prox1(lambda v, st: tv_prox.prox_tv1d_cols(st, v, m, n), P("tvcols", 1, m, n), x, s, 1e-11))
            evs.append(prox1(lambda v, st: tv_prox.prox_tv1d_rows(st, v, m, n), P("tvrows", 1, m, n), x, s, 1e-11))
    return gen.fn_trace(evs)


def dual2d(w, lam, m, n):
    """A dual point of 2-D total variation: entries per vertical and per horizontal difference."""
    from scipy.optimize import lsq_linear
    rows, where = [], []
    for i in range(m):
        for j in range(n):
            for di, dj, t in ((1, 0, "v"), (0, 1, "h")):
                if i + di < m and j + dj < n:
                    r = np.zeros(m * n)
                    r[i * n + j], r[(i + di) * n + j + dj] = -1, 1
                    rows.append(r)
                    where.append((t, i, j))
    qv, qh = np.zeros((m - 1, n)), np.zeros((m, n - 1))
    if rows:
        r = lsq_linear(np.array(rows).T, w, (-lam, lam), method="bvls", tol=1e-15, max_iter=20000)
        for (t, i, j), v in zip(where, np.clip(r.x, -lam, lam)):
            (qv if t == "v" else qh)[i, j] = v
    return [list(r) for r in qv], [list(r) for r in qh]


def exact2d(w, lam, m, n, qv, qh):
    """The dual point in exact arithmetic, given which of its entries are at the bound; None if that fails."""
    edges = [((i, j), (i + 1, j), float(qv[i][j])) for i in range(m - 1) for j in range(n)]
    edges += [((i, j), (i, j + 1), float(qh[i][j])) for i in range(m) for j in range(n - 1)]
    top = float(lam) * (1 - 1e-9)
    q = [Fraction(v) if abs(v) < top else lam * (1 if v > 0 else -1) for _, _, v in edges]
    root = {(i, j): (i, j) for i in range(m) for j in range(n)}

    def find(v):
        while root[v] != v:
            v = root[v]
        return v

    tree = []                      # free entries that connect pixels of equal value
    for e, (s, t, v) in enumerate(edges):
        if abs(v) < top and find(s) != find(t):
            root[find(s)] = find(t)
            tree.append(e)
    z = {(i, j): Fraction(float(w[i * n + j])) for i in range(m) for j in range(n)}
    for e, (s, t, _) in enumerate(edges):
        if e not in tree:
            z[s] += q[e]
            z[t] -= q[e]
    parts = {}
    for v in z:
        parts.setdefault(find(v), []).append(v)
    level = {v: sum(z[u] for u in part) / len(part) for part in parts.values() for v in part}
    left = list(tree)
    while left:                    # a pixel with one undetermined entry determines it
        deg = {}
        for e in left:
            for v in edges[e][:2]:
                deg.setdefault(v, []).append(e)
        v, (e,) = next((v, es) for v, es in deg.items() if len(es) == 1)
        s, t, _ = edges[e]
        q[e] = level[v] - z[v] if v == s else z[v] - level[v]
        z[s] += q[e]
        z[t] -= q[e]
        left.remove(e)
    if any(abs(v) > lam for v in q) or any(lam * abs(z[t] - z[s]) != q[e] * (z[t] - z[s]) for e, (s, t, _) in enumerate(edges)):
        return None
    cut = (m - 1) * n
    return ([q[i * n:(i + 1) * n] for i in range(m - 1)],
            [q[cut + i * (n - 1):cut + (i + 1) * (n - 1)] for i in range(m)])


def twod(rng, shape):
    import copt.penalty as pe
    from copt import tv_prox
    m, n = shape
    evs = []
    for k, x in enumerate(signals(rng, m * n)):
        if np.abs(x).max() > 1e3:
            continue
        a, step = float(rng.choice([0.5, 1.0])), float(rng.choice([0.1, 0.6, 2.0]))
        tol, mi = [(1e-6, 100), (1e-8, 20000), (1e-7, 7), (1e-12, 50000)][k % 4]
        pen = pe.TotalVariation2D(a, shape, max_iter=mi, tol=tol)
        evs.append(value_event(pen, P("tv2", a, m, n), x))
        for f in (lambda: pen.prox(x.copy(), step),
                  lambda: tv_prox.prox_tv2d(x.copy(), a * step, m, n, max_iter=mi, tol=tol)):
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                z = f()
            if any("converged" in str(w.message) for w in ws):
                continue
            qv, qh = dual2d(x, float(np.nextafter(a * step, 0)), m, n)
            best = exact2d(x, Fraction(a) * Fraction(step), m, n, qv, qh)
            acc = max(100 * tol, 3e-6 if best is None else 1e-10 * max(1.0, float(np.abs(x).max())))
            qv, qh = best or (qv, qh)
            evs.append({"k": "tv2prox", "P": P("tv2", a, m, n), "x": vec(x), "step": step, "z": vec(z),
                        "qv": qv, "qh": qh, "acc": acc})
    return gen.fn_trace(evs)


def operator(rng):
    from copt import tv_prox
    evs = []
    for m in range(1, 6):
        for n in range(1, 6):
            L = np.asarray(tv_prox.tv2d_linear_operator(m, n), dtype=float)
            xs = [gen.vector(rng, m * n, mode) for mode in ("normal", "ints", "ramp", "alternating")]
            xs += list(np.eye(m * n))
            evs.append({"k": "tvop", "P": P("tv2", 1, m, n), "L": [list(r) for r in L], "xs": [list(x) for x in xs]})
    return gen.fn_trace(evs)


def replay(rng, cases):
    import copt.penalty as pe
    from copt import tv_prox
    evs = []
    for c in cases:
        w = np.array([gen.num(v) for v in c["w"]])
        lam = gen.num(c["lam"])
        evs.append({"k": "match", "what": "taut-string", "want": c["x"], "got": vec(tv_prox.prox_tv1d(w, lam)),
                    "tol": 1e-12})
        evs.append({"k": "match", "what": "taut-string", "want": c["x"],
                    "got": vec(pe.FusedLasso(2.0).prox(w, lam / 2)), "tol": 1e-12})
        evs.append({"k": "match", "what": "taut-string-cols", "want": c["x"] * 2,
                    "got": vec(tv_prox.prox_tv1d_rows(lam, np.concatenate((w, w)), 2, len(w))), "tol": 1e-12})
        two = np.array([w, -w]).T.copy()
        got = np.asarray(tv_prox.prox_tv1d_cols(lam, two.ravel(), len(w), 2)).reshape(two.shape)
        evs.append({"k": "match", "what": "taut-string-cols", "want": c["x"], "got": vec(got[:, 0].copy()), "tol": 1e-12})
        evs.append({"k": "match", "what": "taut-string-cols", "want": c["x"], "got": vec(-got[:, 1]), "tol": 1e-12})
    return gen.fn_trace(evs)


def run(ctx):
    ctx.mc("MC_Prox")
    spec = ctx.generate("MC_Tv", ctx.scale("MC_Tv.cfg", "MC_Tv_big.cfg"))
    ctx.replayed = len(spec)
    cases = [("replay-%d" % i, replay, dict(cases=spec[i::8])) for i in range(8)]
    for rep in range(ctx.scale(4, 24)):
        cases += [("oned-%d" % rep, oned, {}), ("oned-f32-%d" % rep, oned, dict(f32=True)),
                  ("colsrows-%d" % rep, colsrows, {})]
        cases.append(("long-%d" % rep, long, dict(width=(40000, 2000, 300, 70000)[rep % 4])))
        for shape in ((1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (4, 2), (3, 3), (4, 5), (5, 5)):
            cases.append(("twod-%dx%d-%d" % (*shape, rep), twod, dict(shape=shape)))
    cases.append(("operator", operator, {}))
    ctx.validate(ctx.run_cases(cases))
