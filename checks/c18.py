"""C18: callbacks, budgets, tolerances and success."""
import warnings
import numpy as np
from scipy import sparse
from lib import gen, runs
from lib.core import vec

OTHER = (None, True, 0, 0.0, "", [], 1, "no")     # anything but False changes nothing


class Watch:
    def __init__(self, stop_at=0, returns=(None,)):
        self.seen, self.stop_at, self.returns = [], stop_at, returns

    def __call__(self, dl):
        self.seen.append(np.array(dl["x"], dtype=float))
        if len(self.seen) == self.stop_at:
            return False
        return self.returns[len(self.seen) % len(self.returns)]


def event(run, budget, tol, stop_at=0, returns=(None,), cb=True):
    w = Watch(stop_at, returns)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = run(budget, tol, w if cb else None)
    return {"k": "run", "budget": budget, "tol": "inf" if tol == np.inf else float(tol), "stopAt": stop_at,
            "cb": cb, "seen": [vec(v) for v in w.seen], "x": vec(res.x), "success": bool(res.success),
            "nit": int(res.nit)}, res, w


# ------------------------------------------------------------------ scripted solvers: the model's scenarios


def scripted(impl, C):
    """run(max_iter, tol, cb) of a solver whose iterates are 0, C_1, C_1 + C_2, ... with certificates C"""
    import copt
    P = np.concatenate(([0.0], np.cumsum(C)))

    def T(v):
        k = int(np.argmin(np.abs(P - v)))
        return P[k + 1] if k + 1 < len(P) else v + 7.0

    zero = np.zeros(1)
    fzero = lambda x, return_gradient=True: (0.0, np.zeros(1)) if return_gradient else 0.0  # noqa: E731
    pT = lambda v, s, *a: np.array([T(v[0])])  # noqa: E731
    same = lambda v, s, *a: v  # noqa: E731

    def block(x, i, indices, indptr, d, s):
        x[0] = T(x[0])

    def lmo(u, x, act):
        return np.array([T(x[0]) - x[0]]), None, None, 1.0

    one = sparse.eye(1, format="csr")
    A, b = np.ones((1, 1)), np.zeros(1)
    nil = lambda p, y: 0 * p  # noqa: E731

    def run(mi, tol, cb):
        if impl == "fw":
            return copt.minimize_frank_wolfe(lambda x: -float(x[0]), zero.copy(), lmo, jac=lambda x: np.array([-1.0]),
                                             step=lambda dl: 1.0, lipschitz=1.0, max_iter=mi, tol=tol, callback=cb)
        if impl == "pg":
            return copt.minimize_proximal_gradient(lambda x: 0.0, zero.copy(), prox=pT, jac=lambda x: np.zeros(1), tol=tol,
                                                   max_iter=mi, callback=cb, step=lambda dl: 1.0)
        if impl == "ts":
            return copt.minimize_three_split(fzero, zero.copy(), pT, same, tol=tol, max_iter=mi, callback=cb,
                                             step_size=1.0, line_search=False)
        if impl == "pd":
            return copt.minimize_primal_dual(fzero, zero.copy(), pT, same, L=np.zeros((1, 1)), tol=tol, max_iter=mi,
                                             callback=cb, step_size=1.0, line_search=False)
        if impl in ("saga", "svrg"):
            return getattr(copt, "minimize_" + impl)(nil, A, b, zero.copy(), 1.0, prox=(block, one), max_iter=mi, tol=tol,
                                                     callback=cb)
        return copt.minimize_sfw(nil, A, b, zero.copy(), lmo, batch_size=1, step_size=lambda dl: (1.0, 1.0), max_iter=mi,
                                 tol=tol, callback=cb, variant=impl)

    return run, P


IMPL = {"fw": ["fw"], "pg": ["pg"], "ts": ["ts"], "pd": ["pd"], "ep": ["saga", "svrg", "SAG", "SAGA", "MHK", "LF"]}


def replay(rng, behaviours):
    groups = {}
    for bh in behaviours:
        p = bh["par"]
        groups.setdefault((p["profile"], tuple(p["C"])), []).append(bh)
    out = []
    for (profile, C), bhs in sorted(groups.items()):
        c = [gen.num(v) for v in C]
        for impl in IMPL[profile]:
            run, P = scripted(impl, c)
            evs = []
            for bh in bhs:
                p = bh["par"]
                tol = np.inf if p["tol"] == "inf" else gen.num(p["tol"])
                e, _, _ = event(run, p["budget"], tol, p["stopAt"], [OTHER[rng.integers(len(OTHER))]])
                evs.append(e)
            x0 = "none" if profile in ("ts", "pd") else [0.0]
            out.append({"kind": "life", "cfg": {"profile": profile, "X": [[v] for v in P], "C": list(c), "x0": x0,
                                                "ftol": 1e-12}, "events": evs, "sub": len(out)})
    return out


# ------------------------------------------------------------------------------------- runs on real problems


def real(rng, index, m, picks=None):
    st = runs.setups(rng)[index]
    profile = "ep" if st.profile == "sfw" else st.profile
    base, res, w = event(st.run, m, 0.0)
    X = list(w.seen)
    if profile in ("ts", "pd"):
        X = [np.zeros_like(res.x)] + X
    elif profile == "pg":
        X = X + [np.array(res.x)]
    M = len(X) - 1               # iterations the base run made (steps, not epochs, for sfw)
    per = 2 if st.profile == "sfw" else 1       # steps per epoch: floor(8 / 3)
    evs = [{"k": "start"}]
    if profile == "ep":
        C = [float(np.abs(X[j] - X[j - 1]).sum()) for j in range(1, M + 1)]
    elif profile == "vt":
        C = [1.0] * M
    else:
        C = [float(st.run(j, 0.0, None).certificate) for j in range(1, M + 1)]
    C0 = C + [C[-1]] * (m + 2)

    def more(budget, *a, **kw):
        e = event(st.run, budget, *a, **kw)[0]
        e["budget"] = budget * per
        evs.append(e)

    budgets = [j for j in range(1, m + 1) if j * per <= M] if picks is None else picks
    for j in budgets:
        more(j, 0.0)
        more(j, 0.0, cb=False)
        more(j, 0.0, returns=OTHER)
    tols = [] if profile == "vt" else [np.inf, min(C) / 2] + \
        [(a + b) / 2 for a, b in zip(sorted(C)[:-1], sorted(C)[1:]) if b - a > 1e-6 * b]
    if picks is not None:
        tols = tols[:4] + tols[-4:]
    for t in tols:
        for j in (budgets[-1], budgets[0]):
            more(j, float(t))
    if profile not in ("ep", "vt"):
        for k in (range(1, min(M, 7)) if picks is None else (1, 2, M - 1)):
            more(budgets[-1], 0.0, stop_at=k, returns=OTHER)
    return {"kind": "life", "cfg": {"profile": profile, "X": [vec(v) for v in X], "C": C0,
                                    "x0": "none" if st.x0 is None else vec(st.x0), "ftol": 1e-12}, "events": evs}


def vrtos_tolerance(rng):
    """The documented tolerance of minimize_vrtos"""
    import copt
    run = lambda mi, tol, cb: copt.minimize_vrtos(  # noqa: E731
        lambda p, y: p - y, np.eye(2), np.zeros(2), np.zeros(2), 0.1, max_iter=mi, tol=tol, callback=cb)
    e = event(run, 3, np.inf)[0]
    return {"kind": "life", "cfg": {"profile": "ep", "X": [[0.0, 0.0]] * 4, "C": [0.0] * 4, "x0": "none", "ftol": 1e-12},
            "events": [e]}


def run(ctx):
    ctx.mc("MC_Lifecycle", ctx.scale("MC_Lifecycle.cfg", "MC_Lifecycle_big.cfg"))
    spec = ctx.generate("MC_Lifecycle", "MC_Lifecycle_gen.cfg")
    ctx.replayed = len(spec)
    cases = [("replay-%d" % i, replay, dict(behaviours=spec[i::16])) for i in range(16)]
    names = [s.name for s in runs.setups(np.random.default_rng(0))]
    for rep in range(ctx.scale(3, 24)):
        for i, n in enumerate(names):
            cases.append(("real-%s-%d" % (n, rep), real, dict(index=i, m=6)))
    for i, n in enumerate(names):
        if n.startswith("pd"):
            cases.append(("long-" + n, real, dict(index=i, m=104, picks=[1, 2, 99, 100, 101, 102, 104])))
    cases.append(("vrtos-tolerance", vrtos_tolerance, {}))
    ctx.validate(ctx.run_cases(cases))
