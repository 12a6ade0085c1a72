"""C08: block forms of the separable penalties."""
import numpy as np
from lib import gen
from lib.core import vec


def shape_event(P, B, n):
    B = B.tocsr()
    return {"k": "bshape", "P": P, "n": n, "indptr": [int(v) for v in B.indptr],
            "indices": [int(v) for v in B.indices], "shape": [int(v) for v in B.shape]}


def forms(kind, alpha, n, groups):
    """(penalty record, block prox, blocks) of each block form"""
    import copt.penalty as pe
    if kind == "l1":
        return [({"t": "l1", "a": float(alpha)}, *pe.L1Norm(alpha).prox_factory(n))]
    if kind == "group":
        return [({"t": "group", "a": float(alpha), "g": gen.one_based(groups)},
                 *pe.GroupL1(alpha, groups).prox_factory(n))]
    fl = pe.FusedLasso(alpha)
    P = {"t": "tv", "a": float(alpha)}
    return [(P, *fl.prox_1_factory(n)), (P, *fl.prox_2_factory(n))]


def call(P, prox, B, x, rows, i, d, step, tol=1e-12):
    """Call the block operator for sample i; rows lists the touched blocks of each sample."""
    indices = np.array([h for r in rows for h in r], dtype=np.int32)
    indptr = np.cumsum([0] + [len(r) for r in rows]).astype(np.int32)
    xpre = x.copy()
    d0, ind0 = d.copy(), indices.copy()
    prox(x, i, indices, indptr, d, step)
    assert np.array_equal(d, d0) and np.array_equal(indices, ind0), "the operator changed its arguments"
    return {"k": "bprox", "P": P, "indptr": [int(v) for v in B.indptr], "listed": [int(h) for h in rows[i]],
            "d": vec(d0), "step": float(step), "xpre": vec(xpre), "xpost": vec(x), "tol": tol}


def case(rng, kind, alpha, large=None):
    evs = []
    for n in (large,) if large else (1, 2, 3, 4, 5, 8, 13):
        gs = [gen.random_groups(rng, n, g) for g in (("all", "gaps") if large else ("all", "singletons", "one", "gaps", "gaps"))] \
            if kind == "group" else [None]
        for groups in gs:
            fs = forms(kind, alpha, n, groups)
            for P, prox, B in fs:
                evs.append(shape_event(P, B, n))
            if len(fs) == 2:
                evs.append({"k": "halves", "n": n, "indptr1": [int(v) for v in fs[0][2].indptr],
                            "indptr2": [int(v) for v in fs[1][2].indptr]})
            for P, prox, B in fs:
                nb = B.shape[0]
                for mode in ("normal", "sparse") if large else gen.MODES + gen.GIANT:
                    x = gen.vector(rng, n, mode)
                    d = [rng.choice([1.0, 1.25, 3.0], size=nb), rng.uniform(0.5, 4, size=nb),
                         10.0 ** rng.uniform(-1, 4, size=nb)][int(rng.integers(3))]
                    rows = [list(rng.permutation(nb)[: rng.integers(0, nb + 1)]) for _ in range(4)]
                    rows[int(rng.integers(4))] = list(range(nb))
                    for i in range(4):   # consecutive calls on the same vector, as the solvers do
                        evs.append(call(P, prox, B, x, rows, i, d, float(rng.choice([1e-4, 1e-2, 0.3, 1, 5]))))
    return gen.fn_trace(evs)


def windowed(P, prox, B, n, rng, lo, hi):
    """Calls whose blocks all lie among the features lo..hi-1: what happens there, and that nothing happens elsewhere"""
    ip = np.asarray(B.tocsr().indptr).astype(int)
    h0, h1 = int(np.searchsorted(ip, lo)), int(np.searchsorted(ip, hi))
    lo, hi = int(ip[h0]), int(ip[h1])
    Q = dict(P)
    if P["t"] == "group":
        Q["g"] = [[p - lo for p in g] for g in P["g"] if lo < g[0] and g[-1] <= hi]
    x = rng.normal(size=n)
    d = rng.uniform(0.5, 4, size=B.shape[0])
    evs = []
    for rep in range(2):
        listed = [h0 + int(v) for v in rng.permutation(h1 - h0)[:4 + 90 * rep]]
        indices = np.array([0] + listed + [1], dtype=np.int32)
        pre = x.copy()
        step = float(rng.choice([0.05, 0.3, 1.0]))
        prox(x, 1, indices, np.array([0, 1, 1 + len(listed), 2 + len(listed)], dtype=np.int32), d, step)
        changed = np.flatnonzero(x != pre)
        evs.append({"k": "match", "what": "block-prox-touches-other-blocks", "want": [0.0],
                    "got": [float(((changed < lo) | (changed >= hi)).sum())], "tol": 0.0})
        evs.append({"k": "bprox", "P": Q, "indptr": [int(v) - lo for v in ip[h0:h1 + 1]],
                    "listed": [h - h0 for h in listed], "d": vec(d[h0:h1]), "step": step, "xpre": vec(pre[lo:hi]),
                    "xpost": vec(x[lo:hi]), "tol": 1e-12})
    return evs


def wide(rng, kind):
    """More features than fit into 16 bits"""
    n = 66000 + int(rng.integers(4000))
    wins = [(0, 12), (250, 262), (32760, 32774), (65530, 65542), (n - 12, n)]
    groups = None
    if kind == "group":
        groups = [[lo + k for k in run] for lo, hi in wins for run in ((1, 2, 3), (5, 6), (7, 8, 9, 10))]
    evs = []
    fs = forms(kind, 0.3, n, groups)
    for P, prox, B in fs:
        evs.append(shape_event(P, B, n))
        for lo, hi in wins:
            evs += windowed(P, prox, B, n, rng, lo, hi)
    if len(fs) == 2:
        evs.append({"k": "halves", "n": n, "indptr1": [int(v) for v in fs[0][2].indptr],
                    "indptr2": [int(v) for v in fs[1][2].indptr]})
    if kind == "group":     # few groups of many features
        cuts = [0] + sorted(int(v) for v in rng.choice(n, 4, replace=False)) + [n]
        groups = [list(range(a, b)) for a, b in zip(cuts[:-1], cuts[1:])]
        P, prox, B = forms(kind, 0.3, n, groups)[0]
        evs.append(shape_event(P, B, n))
    return gen.fn_trace(evs)


def replay(rng, cases):
    evs = []
    for c in cases:
        x = np.array([gen.num(v) for v in c["x"]])
        n, ip = len(x), c["indptr"]
        groups = [list(range(a, b)) for a, b in zip(ip[:-1], ip[1:])]
        P, prox, B = forms("group", 1.0, n, groups)[0]
        d = np.array([gen.num(v) for v in c["d"]])
        evs.append(call(P, prox, B, x.copy(), [[], c["listed"], []], 1, d, 0.5))
        P, prox, B = forms("l1", 1.0, n, None)[0]
        feats = [j for h in c["listed"] for j in groups[h]]
        evs.append(call(P, prox, B, x.copy(), [[], feats], 1, np.repeat(d, np.diff(ip)), 0.5))
    return gen.fn_trace(evs)


def run(ctx):
    spec = ctx.generate("MC_Blocks", ctx.scale("MC_Blocks.cfg", "MC_Blocks_big.cfg"))
    ctx.replayed = len(spec)
    cases = [("replay-%d" % i, replay, dict(cases=spec[i::8])) for i in range(8)]
    for rep in range(ctx.scale(2, 10)):
        for kind in ("l1", "group", "fused"):
            for alpha in (1, 0.2, 3.0):
                cases.append(("%s-a%r-%d" % (kind, alpha, rep), case, dict(kind=kind, alpha=alpha)))
            if rep < 4:
                cases.append(("%s-wide-%d" % (kind, rep), wide, dict(kind=kind)))
            for n in (100, 101):
                cases.append(("%s-large-%d-%d" % (kind, n, rep), case, dict(kind=kind, alpha=0.5, large=n)))
    ctx.validate(ctx.run_cases(cases))
