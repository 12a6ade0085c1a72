"""C17: which samples the stochastic solvers visit."""
import numpy as np
from scipy import sparse
from lib import gen

SOLVERS = ("saga", "svrg", "vrtos")


def orders(solver, n, epochs, A=None, seed=None, prox=True):
    """Samples visited in each epoch (between callbacks), told apart by their targets or by the block operator"""
    import copt
    A = np.ones((n, 1)) if A is None else A
    b = np.arange(n) / 7.0
    number = {v: i for i, v in enumerate(b)}
    out, cur, started = [], [], [False]

    def op(x, i, indices, indptr, d, s):
        cur.append(int(i))

    def cb(dl):
        if started[0]:
            out.append(list(cur))
        started[0] = True
        cur.clear()

    def deriv(p, y):
        p, y = np.asarray(p), np.asarray(y)
        if not prox and solver == "saga" and y.size == 1:
            cur.append(number[float(y.ravel()[0])])
        return p - y

    if seed is not None:
        np.random.seed(seed)
    eye = sparse.eye(A.shape[1], format="csr")
    kw = dict(max_iter=epochs, tol=0, callback=cb)
    x0 = np.zeros(A.shape[1])
    if solver == "vrtos":
        kw["prox_1"] = (op, eye)
    elif prox:
        kw["prox"] = (op, eye)
    getattr(copt, "minimize_" + solver)(deriv, A, b, x0, 1e-3, **kw)
    return out


def batches(n, b, epochs, variant="SAGA", seed=None, A=None):
    """Batches of a Frank-Wolfe run, in order"""
    import copt
    A = np.eye(n)[:, :2] + 1.0 if A is None else A
    y = np.arange(n) / 7.0
    number = {v: i for i, v in enumerate(y)}
    out, cur = [], []

    def deriv(p, t):
        cur.extend(number.get(float(v), -1) for v in np.atleast_1d(t))
        return np.asarray(p) - t

    def cb(dl):
        if cur:
            out.append(list(cur))
        cur.clear()

    if seed is not None:
        np.random.seed(seed)
    copt.minimize_sfw(deriv, A, y, np.zeros(A.shape[1]), copt.constraint.L1Ball(1.0).lmo, batch_size=b, max_iter=epochs,
                      tol=0, callback=cb, variant=variant)
    return out


def cfg(mode, n, b, epochs, cover=False, big=False):
    return {"mode": mode, "n": n, "b": b, "epochs": epochs, "cover": cover, "big": big}


def epoch_events(os):
    return [{"k": "epoch", "order": o} for o in os] + [{"k": "end"}]


def perm_case(rng, solver):
    out = []
    for n in (1, 2, 3, 5, 8, 17):
        for sp in (False, True):
            A = rng.normal(size=(n, 3)) + 3.0
            A[rng.random(A.shape) < 0.4] = 0
            A[:, 0] = 1.0
            if sp:
                A = sparse.csr_matrix(A)
            E = int(rng.integers(1, 7))
            out.append({"kind": "samp", "cfg": cfg("perm", n, 1, E), "sub": len(out),
                        "events": epoch_events(orders(solver, n, E, A=A))})
    return out


def batch_case(rng, variant, behaviours):
    """Every (n, b) the model lists, with the number of batches it predicts"""
    out = []
    for bh in behaviours:
        n, b, E = bh["n"], bh["b"], int(rng.integers(1, 6))
        if bh["batches"] == 0:
            continue
        os = batches(n, b, E, variant)
        per = bh["batches"]
        out.append({"kind": "samp", "cfg": cfg("batch", n, b, E), "sub": len(out),
                    "events": [{"k": "total", "steps": len(os)}] + epoch_events(
                        [os[k * per:(k + 1) * per] for k in range(E)] if len(os) == E * per else [os])})
    return out


def cover_perm(rng, solver, n, prox):
    """One long run; many short runs; runs with different seeds"""
    from math import factorial
    m = factorial(n)
    long_run = orders(solver, n, 36 * m * m, prox=prox)
    short = [o for _ in range(210 * m) for o in orders(solver, n, 1, prox=prox)]
    seeds = [o for s in range(210 * m) for o in orders(solver, n, 1, seed=s, prox=prox)]
    return [{"kind": "samp", "cfg": cfg("perm", n, 1, 0, True), "sub": k, "events": epoch_events(os)}
            for k, os in enumerate((long_run, short, seeds))]


def cover_batch(rng, variant, n, b):
    per = n if b == 1 else n // b
    from math import comb
    m = comb(n, b) ** per
    E = max(210 * m, 36 * m * m if m <= 9 else 0)
    os = batches(n, b, E, variant)
    runs = [os[k * per:(k + 1) * per] for k in range(len(os) // per)]
    seeds = [batches(n, b, 1, variant, seed=s) for s in range(60 * m)] if m <= 9 else []
    return [{"kind": "samp", "cfg": cfg("batch", n, b, 0, True), "sub": k, "events": epoch_events(r)}
            for k, r in enumerate((runs, seeds)) if r]


def big_perm(rng, solver):
    return {"kind": "samp", "cfg": cfg("perm", 17, 1, 0, big=True), "events": epoch_events(orders(solver, 17, 700))}


def big_batch(rng, variant):
    os = batches(40, 10, 150, variant)
    return {"kind": "samp", "cfg": cfg("batch", 40, 10, 0, big=True),
            "events": epoch_events([os[k:k + 4] for k in range(0, len(os), 4)])}


def many_samples(rng, variant):
    """Data sets much larger than the batch, where a repeated sample is rare"""
    out = []
    for n, b, E in ((150, 2, 14), (400, 3, 4), (600, 12, 2), (1500, 40, 1), (1201, 601, 2)):
        os, per = batches(n, b, E, variant), n // b
        out.append({"kind": "samp", "cfg": cfg("batch", n, b, E), "sub": len(out),
                    "events": [{"k": "total", "steps": len(os)}] + epoch_events(
                        [os[k * per:(k + 1) * per] for k in range(E)] if len(os) == E * per else [os])})
    return out


def many_epochs(rng, solver):
    out = []
    for n, E in ((3, 60), (400, 3), (1500, 1)):
        out.append({"kind": "samp", "cfg": cfg("perm", n, 1, E), "sub": len(out),
                    "events": epoch_events(orders(solver, n, E))})
    return out


def wide(rng, what):
    """More samples than fit into 16 bits"""
    n = 40000 + int(rng.integers(3)) * 13000
    if what in SOLVERS:
        return {"kind": "samp", "cfg": cfg("perm", n, 1, 1), "events": epoch_events(orders(what, n, 1))}
    A = np.ones((n, 2))
    if what == "direct":
        from copt.utils import sample_batches
        return gen.fn_trace([{"k": "batches", "n": m, "b": b, "number": k,
                              "idx": [int(v) for v in sample_batches(m, k, b)]}
                             for m, b, k in ((n, n // 2, 2), (70001, 30, 50), (257, 128, 2), (n, n, 1))])
    b = n // 2 - 1
    os = batches(n, b, 1, what, A=A)
    return {"kind": "samp", "cfg": cfg("batch", n, b, 1),
            "events": [{"k": "total", "steps": len(os)}] + epoch_events([os])}


def repeats(rng):
    """The global seed determines the whole run; without it, runs differ"""
    import copt
    evs = []
    A = rng.normal(size=(12, 3))
    b = rng.normal(size=12)
    lmo = copt.constraint.L1Ball(2.0).lmo

    def run(name):
        d = lambda p, y: p - y  # noqa: E731
        if name.startswith("sfw"):
            _, v, bs = name.split("-")
            return copt.minimize_sfw(d, A, b, np.zeros(3), lmo, batch_size=int(bs), max_iter=3, tol=0, variant=v).x
        return getattr(copt, "minimize_" + name)(d, A, b, np.zeros(3), 0.01, max_iter=2, tol=0).x

    names = list(SOLVERS) + ["sfw-%s-%d" % (v, s) for v in ("SAG", "SAGA", "MHK", "LF") for s in (1, 2, 5)]
    for name in names:
        seed = int(rng.integers(1 << 30))
        np.random.seed(seed)
        one = run(name)
        other = [run(name) for _ in range(6)]
        np.random.seed(seed)
        two = run(name)
        evs.append({"k": "match", "what": "sampling-repeated-run", "want": list(one), "got": list(two), "tol": 0.0})
        # the run that follows draws from the same generator: it goes on where the first one stopped
        three = run(name)
        evs.append({"k": "match", "what": "sampling-continued-run", "want": list(other[0]), "got": list(three),
                    "tol": 0.0})
        if name.startswith("sfw"):      # may well query the same vertices
            continue
        same = all(np.array_equal(one, o) for o in other)
        evs.append({"k": "match", "what": "sampling-ignores-the-generator", "want": [0.0], "got": [float(same)], "tol": 0.0})
    return gen.fn_trace(evs)


def direct(rng):
    """sample_batches itself"""
    from copt.utils import sample_batches
    evs = []
    for n in range(1, 9):
        for b in range(1, n + 1):
            for number in (0, 1, n // b, 7):
                evs.append({"k": "batches", "n": n, "b": b, "number": number,
                            "idx": [int(v) for v in sample_batches(n, number, b)]})
    return gen.fn_trace(evs)


def run(ctx):
    spec = ctx.generate("MC_Sampling", ctx.scale("MC_Sampling.cfg", "MC_Sampling_big.cfg"))
    ctx.replayed = len(spec)
    cases = []
    for rep in range(ctx.scale(1, 10)):
        for s in SOLVERS:
            cases.append(("epochs-%s-%d" % (s, rep), perm_case, dict(solver=s)))
        for v in ("SAG", "SAGA", "MHK", "LF"):
            cases.append(("batches-%s-%d" % (v, rep), batch_case, dict(variant=v, behaviours=spec)))
        cases.append(("direct-%d" % rep, direct, {}))
        cases.append(("repeats-%d" % rep, repeats, {}))
    for s in SOLVERS:
        for n in (2, 3):
            cases.append(("cover-%s-%d" % (s, n), cover_perm, dict(solver=s, n=n, prox=True)))
    cases.append(("cover-saga-noprox", cover_perm, dict(solver="saga", n=3, prox=False)))
    for v, n, b in (("SAGA", 2, 1), ("SAG", 3, 2), ("SAGA", 4, 2), ("MHK", 3, 1), ("LF", 4, 3), ("SAGA", 3, 3)):
        cases.append(("cover-sfw-%s-%d-%d" % (v, n, b), cover_batch, dict(variant=v, n=n, b=b)))
    for s in SOLVERS:
        cases.append(("big-%s" % s, big_perm, dict(solver=s)))
        cases.append(("many-%s" % s, many_epochs, dict(solver=s)))
    for v in ("SAG", "SAGA", "MHK", "LF"):
        cases.append(("many-%s" % v, many_samples, dict(variant=v)))
    for w in SOLVERS + ("direct", "SAGA", "MHK"):
        cases.append(("wide-%s" % w, wide, dict(what=w)))
    for v in ("SAG", "LF"):
        cases.append(("big-%s" % v, big_batch, dict(variant=v)))
    if not ctx.quick:
        for s in SOLVERS:
            cases.append(("cover4-%s" % s, cover4, dict(solver=s)))
    ctx.validate(ctx.run_cases(cases))


def cover4(rng, solver):
    return {"kind": "samp", "cfg": cfg("perm", 4, 1, 0, True), "events": epoch_events(orders(solver, 4, 24 * 210))}
