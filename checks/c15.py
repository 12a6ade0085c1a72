"""C15: variance-reduced three-operator splitting."""
import numpy as np
from scipy import sparse
from lib import data, gen, vr
from lib.core import vec
from checks.c14 import FORMATS


class Recorder:
    def __init__(self, prox1, prox2, keep):
        self._p, self.keep, self.events, self.open = (prox1, prox2), keep, [], {}

    def op(self, q):
        def prox(x, i, indices, indptr, d, step):
            v = np.array(x)
            self._p[q - 1](x, i, indices, indptr, d, step)
            if len(self.events) >= self.keep:
                return
            e = self.open
            e.update({"k": "step", "i": int(i), "v%d" % q: vec(v), "z%d" % q: vec(x), "s%d" % q: float(step),
                      "d%d" % q: vec(d), "listed%d" % q: [int(h) for h in indices[indptr[i]:indptr[i + 1]]]})
            if "v1" in e and "v2" in e:
                self.events.append(e)
                self.open = {}
        return prox

    def callback(self, dl):
        if len(self.events) < self.keep:
            self.events.append({"k": "cb", "x": vec(dl["x"])})


def config(loss, A0, A, b, alpha, B1, B2, step, x0, maxit):
    c1 = vr.config("", loss, A0, A, b, alpha, B1, step, x0, 0.0, maxit)
    c2 = vr.config("", loss, A0, A, b, alpha, B2, step, x0, 0.0, maxit)
    return {"F": c1["F"], "sup1": c1["sup"], "ip1": c1["indptr"], "sup2": c2["sup"], "ip2": c2["indptr"],
            "step": float(step), "x0": vec(x0), "maxit": int(maxit), "ftol": 1e-11}


def case(rng, loss, mat, fmt, k1, k2, long=None):
    import copt
    alpha = float(rng.choice([0.0, 0.1, 1.0]))
    A0, A, b, deriv, L = vr.problem(rng, loss, mat, fmt, alpha)
    d = A0.shape[1]
    p1, B1, _, _ = vr.blocks_of(rng, k1, d, float(rng.choice([0.01, 0.3])))
    p2, B2, _, _ = vr.blocks_of(rng, k2, d, float(rng.choice([0.01, 0.3])))
    step, maxit = float(rng.choice([0.05, 0.3, 1.0]) / L), long or int(rng.choice([1, 2, 4]))
    x0 = rng.normal(size=d) * (rng.random() < 0.7)
    rec = Recorder(p1, p2, 300 if long else 60)
    res = copt.minimize_vrtos(deriv, A, b, x0.copy(), step, prox_1=(rec.op(1), B1), prox_2=(rec.op(2), B2), alpha=alpha,
                              max_iter=maxit, tol=0, callback=rec.callback)
    evs = rec.events
    if len(evs) < rec.keep:
        evs = evs + [{"k": "ret", "x": vec(res.x)}]
    return {"kind": "vt", "cfg": config(loss, A0, A, b, alpha, B1, B2, step, x0, maxit), "events": evs}


def default_prox(rng):
    """Without an operator the penalty is zero; an operator alone has one block per feature."""
    import copt
    from copt.penalty import L1Norm
    evs = []
    for mat in ("gauss", "sparse", "emptycol", "emptyrow", "wide"):
        A0, A, b, deriv, L = vr.problem(rng, "square", mat, "csr", 0.1)
        d = A0.shape[1]
        x0 = rng.normal(size=d)
        nothing = (lambda x, i, indices, ptr, dd, s: None, sparse.eye(d, format="csr"))
        l1 = L1Norm(0.1).prox_factory(d)
        for a, q in (((None, l1), (nothing, l1)), ((l1, None), (l1, nothing)), ((None, None), (nothing, nothing)),
                     ((l1[0], l1[0]), (l1, l1))):
            seed = int(rng.integers(1 << 30))
            out = []
            for one, two in (a, q):
                np.random.seed(seed)
                out.append(copt.minimize_vrtos(deriv, A, b, x0.copy(), 0.3 / L, prox_1=one, prox_2=two, alpha=0.1,
                                               max_iter=3).x)
            evs.append({"k": "match", "what": "vt-default-prox", "want": vec(out[1]), "got": vec(out[0]), "tol": 1e-11})
    return gen.fn_trace(evs)


def term(rng, kind, d):
    """(block prox with its blocks, record, plain prox)"""
    import copt.penalty as pe
    a = float(rng.choice([0.01, 0.1, 0.5]))
    if kind == "nonneg":
        def prox(x, i, indices, indptr, dd, s):
            for j in indices[indptr[i]:indptr[i + 1]]:
                x[j] = max(x[j], 0)
        return (prox, sparse.eye(d, format="csr")), {"t": "nonneg"}, lambda x, s: np.maximum(x, 0)
    prox, B, P, full = vr.blocks_of(rng, kind, d, a)
    del pe
    return (prox, B), P, full


def reference(A0, b, alpha, deriv, p1, p2, L):
    n, d = A0.shape
    z, u, s = np.zeros(d), np.zeros(d), 1.0 / L
    g = lambda x: A0.T.dot(deriv(A0.dot(x), b)) / n + alpha * x  # noqa: E731
    for _ in range(60000):
        v, old = z - s * (u + g(z)), z
        x = p1(v.copy(), s)
        z = p2(x + s * u, s)
        u = u + (x - z) / s
        if max(np.abs(x - z).max(), np.abs(z - old).max()) < 1e-15:
            break
    else:
        if max(np.abs(x - z).max(), np.abs(z - old).max()) > 1e-12:
            return None
    v = z - s * (u + g(z))
    return z, (v - p1(v.copy(), s)) / s, u


def converge(rng, loss, k1, k2, fmt):
    """Fixed points are minimizers: the result of a long run is the minimizer."""
    import copt
    alpha = float(rng.choice([0.3, 1.0]))
    A0, A, b, deriv, L = vr.problem(rng, loss, str(rng.choice(["gauss", "sparse", "tall", "emptycol", "emptyrow",
                                                               "dupcols", "wide"])), fmt, alpha)
    n, d = A0.shape
    (t1, P1, f1), (t2, P2, f2) = term(rng, k1, d), term(rng, k2, d)
    x0 = rng.normal(size=d)
    cfg = config(loss, A0, A, b, alpha, t1[1], t2[1], 0.3 / L, x0, 1)
    for sup, B in ((cfg["sup1"], t1[1]), (cfg["sup2"], t2[1])):     # blocks no sample uses keep their start
        used = {h for r in sup for h in r}
        for h in range(B.shape[0]):
            if h not in used:
                x0[B.indptr[h]:B.indptr[h + 1]] = 0
    full = [{h for r in s for h in r} == set(range(B.shape[0])) for s, B in ((cfg["sup1"], t1[1]), (cfg["sup2"], t2[1]))]
    if not all(full):       # a feature used by one structure's blocks only
        return None
    best = reference(A0, b, alpha, deriv, f1, f2, np.linalg.norm(A0, 2) ** 2 / n + alpha)
    if best is None:
        return None
    target, epochs = 1e-4, 600
    while True:
        np.random.seed(3)
        res = copt.minimize_vrtos(deriv, A, b, x0, 0.3 / L, prox_1=t1, prox_2=t2, alpha=alpha, max_iter=epochs)
        if epochs > 5000 or np.linalg.norm(res.x - best[0]) < 0.5 * target:
            break
        epochs *= 10
    xs, xi1, xi2 = best
    return {"kind": "vt", "cfg": cfg, "events": [{"k": "opt", "x": vec(res.x), "xs": vec(xs), "xi1": vec(xi1),
                                                  "xi2": vec(xi2), "P1": P1, "P2": P2, "target": target}]}


def replay(rng, behaviours, seeds):
    import copt
    configs = {}
    for bh in behaviours:
        key = repr([bh[k] for k in ("A", "b", "ip1", "ip2", "alpha", "lam", "x0", "step")])
        configs.setdefault(key, {})[tuple(bh["order"])] = bh
    out = []
    for sub, key in enumerate(sorted(configs)):
        table = configs[key]
        bh = next(iter(table.values()))
        A = np.array([[gen.num(v) for v in r] for r in bh["A"]])
        b, x0 = (np.array([gen.num(v) for v in bh[k]]) for k in ("b", "x0"))
        lam = gen.num(bh["lam"])
        B = [sparse.csr_matrix((np.ones(2), np.arange(2), ip), shape=(len(ip) - 1, 2)) for ip in (bh["ip1"], bh["ip2"])]

        def p1(x, i, indices, indptr, d, step, ip=bh["ip1"], lam=lam):
            for h in indices[indptr[i]:indptr[i + 1]]:
                for j in range(ip[h], ip[h + 1]):
                    x[j] = np.sign(x[j]) * max(abs(x[j]) - lam * step * d[h], 0)

        def p2(x, i, indices, indptr, d, step, ip=bh["ip2"]):
            for h in indices[indptr[i]:indptr[i + 1]]:
                for j in range(ip[h], ip[h + 1]):
                    x[j] = max(x[j], 0)

        evs = []
        for seed in range(seeds):
            rec = Recorder(p1, p2, 1000)
            np.random.seed(seed)
            copt.minimize_vrtos(lambda p, y: p - y, A, b, x0.copy(), gen.num(bh["step"]), prox_1=(rec.op(1), B[0]),
                                prox_2=(rec.op(2), B[1]), alpha=gen.num(bh["alpha"]), max_iter=2,
                                callback=rec.callback)
            order = tuple(e["i"] for e in rec.events if e["k"] == "step")
            evs.append({"k": "match", "what": "vt-order", "want": [1.0], "got": [float(order in table)], "tol": 0.0})
            if order not in table:
                break
            want, got = table[order]["hist"], [e["x"] for e in rec.events if e["k"] == "cb"]
            evs.append({"k": "match", "what": "vt-number-of-callbacks", "want": [float(len(want))],
                        "got": [float(len(got))], "tol": 0.0})
            for w, g in zip(want, got):
                evs.append({"k": "match", "what": "vt-iterate", "want": w, "got": g, "tol": 1e-12})
        out.append(gen.fn_trace(evs, sub=sub))
    return out


PAIRS = (("l1", "group"), ("group", "group-one"), ("fused1", "fused2"), ("group-gaps", "l1"), ("identity", "group"),
         ("l1", "identity"), ("identity", "identity"), ("l1", "l1"))


def run(ctx):
    ctx.mc("MC_Vrtos", ctx.scale("MC_Vrtos.cfg", "MC_Vrtos_big.cfg"))
    spec = ctx.generate("MC_Vrtos", "MC_Vrtos_gen.cfg", workers=8)
    ctx.replayed = len(spec)
    cases = [("replay", replay, dict(behaviours=spec, seeds=ctx.scale(60, 300)))]
    k = 0
    for rep in range(ctx.scale(1, 8)):
        cases.append(("default-prox-%d" % rep, default_prox, {}))
        for loss in ("square", "log", "huber", "hinge"):
            for mat in data.MATS:
                for k1, k2 in PAIRS:
                    k += 1
                    if ctx.quick and k % 2:
                        continue
                    cases.append(("%s-%s-%s-%s-%d" % (loss, mat, k1, k2, rep), case,
                                  dict(loss=loss, mat=mat, fmt=FORMATS[k * 7 // 2 % 10], k1=k1, k2=k2)))
            for mat, long in (("gauss", 80), ("broad", 2)):
                k += 1
                cases.append(("long-%s-%s-%d" % (loss, mat, rep), case,
                              dict(loss=loss, mat=mat, fmt=FORMATS[k * 3 % 10], k1=PAIRS[k % 3][0], k2=PAIRS[k % 3][1], long=long)))
            for k1, k2 in (("l1", "group"), ("l1", "nonneg"), ("group", "group-gaps"), ("identity", "l1"), ("group", "nonneg")):
                k += 1
                cases.append(("converge-%s-%s-%s-%d" % (loss, k1, k2, rep), converge,
                              dict(loss=loss, k1=k1, k2=k2, fmt=FORMATS[k * 3 % 10])))
    for rep in range(ctx.scale(1, 6)):
        for fmt in ("csr", "csc", "coo"):
            cases.append(("wide-vrtos-%s-%d" % (fmt, rep), vr.spread, dict(method="vrtos", fmt=fmt)))
        cases.append(("supports-vrtos-%d" % rep, vr.supports, dict(method="vrtos")))
    ctx.validate(ctx.run_cases(cases))
