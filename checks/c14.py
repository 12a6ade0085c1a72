"""C14: SAGA and SVRG."""
import numpy as np
from scipy import sparse
from lib import data, gen, vr
from lib.core import vec

FORMATS = ("dense", "csr", "csc", "coo", "lil", "csr64", "csr-unsorted", "csr-dup", "csr-zeros", "csc-unsorted")


def solver(method):
    import copt
    return {"saga": copt.minimize_saga, "svrg": copt.minimize_svrg}[method]


def case(rng, method, loss, mat, fmt, kind, long=None):
    alpha = float(rng.choice([0.0, 0.1, 1.0]))
    A0, A, b, deriv, L = vr.problem(rng, loss, mat, fmt, alpha)
    n, d = A0.shape
    prox, B, _, _ = vr.blocks_of(rng, kind, d, float(rng.choice([0.01, 0.3])))
    step = float(rng.choice([0.05, 0.3, 1.0]) / L)
    tol = 0.0 if long else float(rng.choice([0.0, 1e-3, 0.3]))
    maxit = long or int(rng.choice([1, 2, 4]))
    x0 = rng.normal(size=d) * (rng.random() < 0.7)
    rec = vr.Recorder(prox, 350 if long else 60)
    cb = rec.callback if long or rng.random() < 0.85 else None
    res = solver(method)(deriv, A, b, x0.copy(), step, prox=(rec.prox, B), alpha=alpha, max_iter=maxit, tol=tol,
                         callback=cb)
    if cb is None:      # epochs end where a sample comes again
        return None
    evs = rec.events
    if len(evs) < rec.keep:
        evs = evs + [{"k": "ret", "x": vec(res.x), "success": bool(res.success)}]
    return {"kind": "vr", "cfg": vr.config(method, loss, A0, A, b, alpha, B, step, x0, tol, maxit), "events": evs}


def default_prox(rng, method):
    """Without an operator the penalty is zero; an operator alone has one block per feature."""
    from copt.penalty import L1Norm
    evs = []
    for mat in ("gauss", "sparse", "emptycol", "emptyrow", "wide"):
        A0, A, b, deriv, L = vr.problem(rng, "square", mat, "csr", 0.1)
        d = A0.shape[1]
        x0 = rng.normal(size=d)
        nothing = lambda x, i, indices, ptr, dd, s: None  # noqa: E731
        one, B = L1Norm(0.1).prox_factory(d)
        for p, q in ((None, (nothing, sparse.eye(d, format="csr"))), (one, (one, B))):
            seed = int(rng.integers(1 << 30))
            out = []
            for pr in (p, q):
                np.random.seed(seed)
                out.append(solver(method)(deriv, A, b, x0.copy(), 0.3 / L, prox=pr, alpha=0.1, max_iter=3, tol=0).x)
            evs.append({"k": "match", "what": "vr-default-prox", "want": vec(out[1]), "got": vec(out[0]), "tol": 1e-11})
    return gen.fn_trace(evs)


def converge(rng, method, loss, kind, fmt):
    alpha = float(rng.choice([0.3, 1.0]))
    A0, A, b, deriv, L = vr.problem(rng, loss, str(rng.choice(["gauss", "sparse", "tall", "emptycol", "emptyrow",
                                                               "dupcols", "wide"])), fmt, alpha)
    n, d = A0.shape
    prox, B, P, full = vr.blocks_of(rng, kind, d, float(rng.choice([0.01, 0.1, 0.5])))
    x0 = rng.normal(size=d) * 2
    cfg = vr.config(method, loss, A0, A, b, alpha, B, 0.2 / L, x0, 0.0, 1)
    used = {h for r in cfg["sup"] for h in r}       # blocks no sample uses keep their start
    for h in range(B.shape[0]):
        if h not in used:
            x0[B.indptr[h]:B.indptr[h + 1]] = 0
    epochs = 200 + int(30 * L / (0.2 * alpha * n))      # the error shrinks by 1 - step * alpha or so in every step
    res = solver(method)(deriv, A, b, x0, 0.2 / L, prox=(prox, B), alpha=alpha, max_iter=epochs, tol=1e-12)
    xs, xi = vr.reference(A0, b, alpha, deriv, full, np.linalg.norm(A0, 2) ** 2 / n + alpha)
    return {"kind": "vr", "cfg": cfg,
            "events": [{"k": "opt", "x": vec(res.x), "xs": vec(xs), "xi": vec(xi), "P": P, "target": 1e-4}]}


def replay(rng, behaviours, seeds):
    """Every order of the samples the code draws is one of the model's; its iterates have to be the model's."""
    from copt.penalty import L1Norm
    configs = {}
    for bh in behaviours:
        key = repr([bh[k] for k in ("A", "b", "ip", "alpha", "lam", "x0", "method", "step")])
        configs.setdefault(key, {})[tuple(bh["order"])] = bh
    out = []
    for sub, key in enumerate(sorted(configs)):
        table = configs[key]
        bh = next(iter(table.values()))
        A = np.array([[gen.num(v) for v in r] for r in bh["A"]])
        b, x0 = (np.array([gen.num(v) for v in bh[k]]) for k in ("b", "x0"))
        ip = bh["ip"]
        B = sparse.csr_matrix((np.ones(2), np.arange(2), ip), shape=(len(ip) - 1, 2))
        lam = gen.num(bh["lam"])

        def prox(x, i, indices, indptr, d, step):   # L1 on whatever blocks
            for h in indices[indptr[i]:indptr[i + 1]]:
                for j in range(ip[h], ip[h + 1]):
                    x[j] = np.sign(x[j]) * max(abs(x[j]) - lam * step * d[h], 0)

        evs, seen = [], set()
        D = len(bh["hist"])
        for seed in range(seeds):
            rec = vr.Recorder(prox, 1000)
            np.random.seed(seed)
            solver(bh["method"])(lambda p, y: p - y, A, b, x0.copy(), gen.num(bh["step"]), prox=(rec.prox, B),
                                 alpha=gen.num(bh["alpha"]), max_iter=D, tol=0.0, callback=rec.callback)
            order = tuple(e["i"] for e in rec.events if e["k"] == "step")
            known = order in table
            evs.append({"k": "match", "what": "vr-order", "want": [1.0], "got": [float(known)], "tol": 0.0})
            if not known:
                break
            seen.add(order)
            want = table[order]["hist"]
            got = [e["x"] for e in rec.events if e["k"] == "epoch"]
            evs.append({"k": "match", "what": "vr-number-of-epochs", "want": [float(D)], "got": [float(len(got))],
                        "tol": 0.0})
            for w, g in zip(want, got):
                evs.append({"k": "match", "what": "vr-iterate", "want": w, "got": g, "tol": 1e-12})
        out.append(gen.fn_trace(evs, sub=sub))
    return out


def run(ctx):
    ctx.mc("MC_VarianceReduced", ctx.scale("MC_VarianceReduced.cfg", "MC_VarianceReduced_big.cfg"))
    spec = ctx.generate("MC_VarianceReduced", "MC_VarianceReduced_gen.cfg", workers=8)
    ctx.replayed = len(spec)
    cases = [("replay", replay, dict(behaviours=spec, seeds=ctx.scale(60, 300)))]
    k = 0
    for rep in range(ctx.scale(1, 8)):
        for method in ("saga", "svrg"):
            cases.append(("default-prox-%s-%d" % (method, rep), default_prox, dict(method=method)))
            for loss in ("square", "log", "huber", "hinge"):
                for mat in data.MATS:
                    for kind in vr.KINDS:
                        k += 1
                        if ctx.quick and k % 2:
                            continue
                        cases.append(("%s-%s-%s-%s-%d" % (method, loss, mat, kind, rep), case,
                                      dict(method=method, loss=loss, mat=mat, fmt=FORMATS[k * 7 // 2 % 10], kind=kind)))
                for mat, long in (("gauss", 80), ("broad", 2)):
                    k += 1
                    cases.append(("long-%s-%s-%s-%d" % (method, loss, mat, rep), case,
                                  dict(method=method, loss=loss, mat=mat, fmt=FORMATS[k * 3 % 10], kind=vr.KINDS[k % 4],
                                       long=long)))
                for kind in ("l1", "group", "group-gaps", "identity"):
                    k += 1
                    cases.append(("converge-%s-%s-%s-%d" % (method, loss, kind, rep), converge,
                                  dict(method=method, loss=loss, kind=kind, fmt=FORMATS[k * 3 % 10])))
    for rep in range(ctx.scale(1, 6)):
        for fmt in ("csr", "csc", "coo"):
            cases.append(("wide-saga-%s-%d" % (fmt, rep), vr.spread, dict(method="saga", fmt=fmt)))
            cases.append(("wide-svrg-%s-%d" % (fmt, rep), vr.spread, dict(method="svrg", fmt=fmt)))
        cases.append(("supports-saga-%d" % rep, vr.supports, dict(method="saga")))
        cases.append(("supports-svrg-%d" % rep, vr.supports, dict(method="svrg")))
    ctx.validate(ctx.run_cases(cases))
