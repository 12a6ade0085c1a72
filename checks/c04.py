"""C04: linear minimization oracles (L1 ball vanilla and pairwise, simplex, trace ball)."""
import numpy as np
from lib import gen
from lib.core import vec
from checks.c05 import make, S
from fractions import Fraction


EXTREME = ("vast", "minute", "close")


def sample_sets(rng, kind, r, shape, n):
    """A point of the set and an arbitrary point."""
    w = rng.dirichlet(np.ones(n)) * r
    yield w
    if kind != "simplex":
        yield w * rng.choice([-1, 1], size=n) * 0.7
        yield np.zeros(n)
    yield gen.vector(rng, n, str(rng.choice(gen.MODES[:9]))) % 1e5


def lmo_event(rng, c, kind, r, shape, u, x, tol):
    u0, x0 = u.copy(), x.copy()
    d, rep, away, smax = c.lmo(u, x) if rng.random() < 0.5 else c.lmo(u, x, {})
    ev = {"k": "lmo", "S": S(kind, r, shape), "u": vec(u0), "x": vec(x0), "d": vec(d), "smax": float(smax),
          "Ws": gen.NOW, "Wu": gen.NOW, "rep": {"ok": False}, "tol": tol}
    if kind == "l1":
        ev["rep"] = {"ok": True, "sign": float(rep[0]), "i": int(rep[1]) + 1}
    elif kind == "simplex":
        ev["rep"] = {"ok": True, "sign": 1.0, "i": int(rep) + 1}
    elif len(ev["d"]) == len(x0):
        ev["Ws"] = gen.svdw(np.asarray(d, dtype=float) + x0.astype(float), shape)
        ev["Wu"] = gen.svdw(u0, shape)
    return ev


def vanilla(rng, kind, r, shape=None, f32=False, large=None, ints=False):
    c = make(kind, r, shape)
    evs = []
    for n in ([int(np.prod(shape))] if shape else [large] if large else [1, 2, 3, 6, 20]):
        for mode in ("normal", "dup", "sparse", "negative") if large else gen.MODES + gen.GIANT + (() if shape or f32 or ints else EXTREME):
            u = gen.vector(rng, n, mode)
            if shape and mode in ("huge", "mixed"):
                continue
            if kind == "trace" and mode == "tiny":
                u = u * 1e3
            for x in sample_sets(rng, kind, r, shape, n):
                if f32:
                    u, x = u.astype(np.float32), x.astype(np.float32)
                if ints:      # either of them or both
                    k = int(rng.integers(3))
                    u = gen.as_ints(rng, u) if k else u
                    x = gen.as_ints(rng, x) if k != 1 else x
                evs.append(lmo_event(rng, c, kind, r, shape, u, x, 1e-5 if f32 else 1e-7 if shape else 1e-12))
    return gen.fn_trace(evs)


def trace_close(rng, shape):
    """Matrices with many singular values close to the largest"""
    c, evs = make("trace", 2.0, shape), []
    for u in (rng.normal(size=shape), np.linalg.qr(rng.normal(size=shape))[0] * rng.uniform(0.97, 1.0, size=shape[1])):
        evs.append(lmo_event(rng, c, "trace", 2.0, shape, u.ravel(), np.zeros(u.size), 1e-7))
    return gen.fn_trace(evs)


def pairwise_event(c, r, u, x, act, tol=1e-12):
    """act: list of (sign, i0, weight)"""
    aset = {(float(s), int(i)): float(w) for s, i, w in act}
    before = [{"sign": float(s), "i": int(i) + 1, "w": float(w)} for (s, i), w in aset.items()]
    u0 = u.copy()
    d, rep, away, smax = c.lmo_pairwise(u, x, aset)
    return {"k": "lmopw", "S": S("l1", r), "u": vec(u0), "xscale": float(np.abs(x).max()), "d": vec(d),
            "act": before, "rep": {"sign": float(rep[0]), "i": int(rep[1]) + 1},
            "away": {"sign": float(away[0]), "i": int(away[1]) + 1}, "smax": float(smax), "tol": tol}


def pairwise(rng, r):
    c = make("l1", r)
    evs = []
    for n in (1, 2, 3, 6, 20):
        for mode in gen.MODES + gen.GIANT + EXTREME:
            for rep in range(3):
                u = gen.vector(rng, n, mode)
                k = int(rng.integers(1, min(2 * n, 6) + 1))
                verts = rng.choice(2 * n, size=k, replace=False)
                w = rng.dirichlet(np.ones(k)) if rep else np.full(k, 1.0 / k)
                act = [(1.0 if v < n else -1.0, v % n, wt) for v, wt in zip(verts, w)]
                x = np.zeros(n)
                for s, i, wt in act:
                    x[i] += r * s * wt
                evs.append(pairwise_event(c, r, u, x, act))
                if rep == 0 and mode not in EXTREME:
                    evs.append(pairwise_event(c, r, gen.as_ints(rng, u), gen.as_ints(rng, x), act))
    return gen.fn_trace(evs)


def replay_pairwise(rng, cases):
    """The states of MC_Oracles: every u on the grid with every small active set; every tie occurs."""
    c, evs = make("l1", 2.0), []

    def num(s):
        p, _, q = s.partition("/")
        return float(Fraction(int(p, 16), int(q or "1", 16)))

    for case in cases:
        u = np.array([num(v) for v in case["u"]])
        act = [(num(a["sign"]), a["i"] - 1, num(a["w"])) for a in case["act"]]
        x = np.zeros(len(u))
        for s, i, w in act:
            x[i] += 2.0 * s * w
        evs.append(pairwise_event(c, 2.0, u, x, act))
        evs.append(lmo_event(rng, c, "l1", 2.0, None, u, x, 1e-12))
        evs.append(lmo_event(rng, make("simplex", 2.0), "simplex", 2.0, None, u, np.abs(x), 1e-12))
    return gen.fn_trace(evs)


def run(ctx):
    ctx.mc("MC_Sets")
    spec_cases = ctx.generate("MC_Oracles")
    ctx.replayed = len(spec_cases)
    cases = [("replay-%d" % i, replay_pairwise, dict(cases=spec_cases[i::8])) for i in range(8)]
    for rep in range(ctx.scale(2, 12)):
        for r in (1, 1.0, 0.25, 7.5, 100.0):
            for kind in ("l1", "simplex"):
                cases.append(("%s-r%r-%d" % (kind, r, rep), vanilla, dict(kind=kind, r=r)))
            cases.append(("pairwise-r%r-%d" % (r, rep), pairwise, dict(r=r)))
        for kind, shape in (("l1", None), ("simplex", None), ("trace", (20, 12))):
            cases.append(("%s-large-%d" % (kind, rep), vanilla, dict(kind=kind, r=2.5, shape=shape, large=900)))
        cases.append(("trace-close-%d" % rep, trace_close, dict(shape=(45 + rep, 40))))
        for kind in ("l1", "simplex"):
            cases.append(("%s-f32-%d" % (kind, rep), vanilla, dict(kind=kind, r=1.5, f32=True)))
            cases.append(("%s-ints-%d" % (kind, rep), vanilla, dict(kind=kind, r=(1.5, 4)[rep % 2], ints=True)))
        cases.append(("trace-ints-%d" % rep, vanilla, dict(kind="trace", r=1.5, shape=(3, 2), ints=True)))
        for shape in ((1, 1), (1, 3), (4, 1), (2, 2), (3, 2), (2, 4), (4, 4), (5, 3)):
            for r in (1.0, 3.5):
                cases.append(("trace-%dx%d-r%r-%d" % (*shape, r, rep), vanilla, dict(kind="trace", r=r, shape=shape)))
    ctx.validate(ctx.run_cases(cases))
