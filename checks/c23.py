"""C23: interpretation of arguments, and rejection of invalid ones."""
import os
import tempfile
import numpy as np
from lib import gen
from lib.core import vec


def run_api(c, k):
    """Make the call that c describes; k varies what the classes leave open."""
    import copt
    import copt.constraint as co
    import copt.datasets as ds
    import copt.loss as lo
    import copt.penalty as pe
    from copt import tv_prox
    fn = c["fn"]
    t = np.array([3.0, 0.25])
    value, grad = (lambda x: 0.5 * ((x - t) ** 2).sum()), (lambda x: x - t)
    both = lambda x: (value(x), grad(x))  # noqa: E731
    A, b = np.array([[1.0, 0.0], [0.5, 2.0], [0.0, 1.0], [2.0, -1.0]]), np.array([1.0, -1.0, 0.5, 2.0])
    deriv = lambda p, y: p - y  # noqa: E731
    f_grad = lambda x, return_gradient=True: both(x) if return_gradient else value(x)  # noqa: E731

    def jac(fun_first=True):
        j = c["jac"]
        return {"callable": (value, grad), "joint": (both, (True, np.True_)[k % 2]), "none": (value, None), "false": (value, False),
                "2-point": (value, "2-point"), "other": (both, ("3-point", "cs", "2point", "joint")[k % 4]),
                "zero": ((both, value)[k % 2], (0, "", 0.0)[k % 3])}[j]
    if fn == "fw":
        fun, j = jac()
        ball = co.L1Ball(1.0)
        sign = 1.0 if c["at"] == "optimal" else -1.0
        kw = {"variant": ("towards", "Pairwise", "")[k % 3] if c["variant"] == "other" else c["variant"]}
        kw["step"] = {"callable": lambda d: 0.05, "other": ("dr", "fixed", "", "adaptive")[k % 4]}.get(c["step"], c["step"])
        if c["lip"]:
            kw["lipschitz"] = 1.0
        return copt.minimize_frank_wolfe(fun, np.array([sign, 0.0]), ball.lmo_pairwise if c["variant"] == "pairwise" else ball.lmo,
                                         x0_rep=(sign, 0), jac=j, max_iter=3,
                                         tol={"neg": (-1.0, -1e-12)[k % 2], "zero": 0.0, "pos": 1e-6}[c["tol"]], **kw)
    if fn == "pg":
        fun, j = jac()
        step = {"callable": lambda d: 0.1, "other": ("adaptive", "DR", "")[k % 3]}.get(c["step"], c["step"])
        return copt.minimize_proximal_gradient(fun, np.ones(2), prox=pe.L1Norm(0.1).prox, jac=j, step=step, accelerated=c["acc"],
                                               max_iter_backtracking=c["ls"], max_iter=3,
                                               callback=(None, lambda d: False)[k % 2] if c["step"] == "other" else None)
    if fn == "ts":
        kw = {"step_size": 0.5} if c["step"] == "given" else {}
        return copt.minimize_three_split(f_grad, np.ones(2), pe.L1Norm(0.1).prox, None, line_search=c["search"],
                                         max_iter_backtracking=c["ls"], max_iter=3, **kw)
    if fn == "pd":
        return copt.minimize_primal_dual(f_grad, np.ones(2), pe.L1Norm(0.1).prox, None, line_search=c["search"], step_size=0.5,
                                         max_iter_ls=c["ls"], max_iter=3)
    if fn == "sfw":
        ball = co.L1Ball(1.0)
        step = {"callable": lambda d: (0.05, 0.5), "other": ("dr", "fixed", "")[k % 3]}.get(c["step"], c["step"])
        kw = {"lipschitz": 2.0} if c["lip"] else {}
        return copt.minimize_sfw(deriv, A, b, np.array([1.0, 0.0]), ball.lmo_pairwise if c["lmo"] == "pairwise" else ball.lmo,
                                 x0_rep=(1.0, 0), batch_size=c["batch"], step_size=step, max_iter=2,
                                 variant=("sag", "SVRG", "")[k % 3] if c["variant"] == "other" else c["variant"],
                                 lmo_variant=("away", "", "Vanilla")[k % 3] if c["lmo"] == "other" else c["lmo"], **kw)
    if fn in ("saga", "svrg", "vrtos"):
        step = {"none": None, "neg": -0.1, "zero": 0.0, "pos": 0.1}[c["step"]]
        solver = {"saga": copt.minimize_saga, "svrg": copt.minimize_svrg, "vrtos": copt.minimize_vrtos}[fn]
        return solver(deriv, A, b if c.get("rows", "same") == "same" else (b[:-1], np.append(b, 1.0))[k % 2], np.zeros(2), step, max_iter=2)
    if fn == "logloss":
        bb = np.array([gen.num(v) for v in c["b"]])
        return lo.LogLoss(None if c["rows"] == 0 else np.arange(2.0 * c["rows"]).reshape(-1, 2), bb, (0.0, 0.5)[k % 2])
    if fn == "groups":
        return pe.GroupL1(0.5, [(list(g), np.array(g), np.array(g, dtype=np.int32))[(k + i) % 3] for i, g in enumerate(c["groups"])])
    if fn in ("simplex", "l1ball"):
        r = gen.num(c["radius"])
        v = np.array([3.0, -1.0, 2.0]) if c["ndim"] == 1 else np.array([[3.0, -1.0], [2.0, 0.5]])
        ball, proj = {"simplex": (co.SimplexConstraint, co.euclidean_proj_simplex), "l1ball": (co.L1Ball, co.euclidean_proj_l1ball)}[fn]
        return ball(r).prox(v, 1.0) if k % 2 else proj(v, r)
    if fn in ("traceball", "tracenorm"):
        return {"traceball": co.TraceBall, "tracenorm": pe.TraceNorm}[fn](1.0, (2, 3, 4)[:c["dims"]])
    if fn == "tracefactory":
        return (co.TraceBall, pe.TraceNorm)[k % 2](1.0, (2, 3)).prox_factory()
    if fn == "tv1d":
        return tv_prox.prox_tv1d(np.array([1, 0, 1, 1]).astype(c["dtype"]), 0.25)
    if fn == "split":
        with tempfile.TemporaryDirectory() as tmp:
            os.mkdir(tmp + "/gisette")
            for part in ("train", "test"):
                for name, a in (("X_%s.data", [1.0]), ("X_%s.indices", [0]), ("X_%s.indptr", [0, 1]), ("y_%s", [1])):
                    np.save("%s/gisette/%s.npy" % (tmp, name % part), np.array(a))
            return ds.load_gisette(c["subset"], tmp)
    raise AssertionError(fn)


def known(c):
    if c["fn"] in ("fw", "pg") and c["jac"] == "2-point":
        return "api-%s-2-point" % c["fn"]
    if c["fn"] in ("saga", "svrg", "vrtos") and c["step"] == "none":
        return "api-%s-step-none" % c["fn"]
    return None


def api(rng, configs, offset):
    evs, apart = [], []
    for i, c in enumerate(configs):
        try:
            run_api(c, i + offset)
            out, err = "returned", ""
        except Exception as e:  # pylint: disable=broad-except
            out, err = "raised", type(e).__name__
        ev = {"k": "api", "c": c, "out": out, "err": err}
        if known(c):
            apart.append(gen.fn_trace([ev], case=known(c)))
        else:
            evs.append(ev)
    return [gen.fn_trace(evs)] + apart


# ------------------------------------------------------------------------------- the objective, its gradient, arguments


class User:
    """A quadratic the way a user passes it; remembers the extra arguments it is called with."""

    def __init__(self, rng, n):
        self.H = np.round(4 * gen.spd(rng, n, 6.0)) / 4
        self.H = (self.H + self.H.T) / 2 + np.eye(n)
        self.c = np.round(8 * rng.normal(size=n)) / 8
        self.seen = {"fun": [], "jac": []}

    def F(self, x):
        return float(0.5 * x.dot(self.H).dot(x) - self.c.dot(x))

    def G(self, x):
        return self.H.dot(x) - self.c

    def spec(self, jac, eps, args):
        """fun and jac in the form jac asks for"""
        def fun(x, *a):
            self.seen["fun"].append(repr(a))
            assert a == args or not args
            return self.F(x)

        def both(x, *a):
            self.seen["fun"].append(repr(a))
            return self.F(x), self.G(x)

        def der(x, *a):
            self.seen["jac"].append(repr(a))
            return self.G(x)

        def differences(x, *a):
            self.seen["jac"].append(repr(a))
            return self.G(x) + 0.5 * np.diag(self.H) * eps
        return {"callable": (fun, der), "joint": (both, True), "none": (fun, None), "false": (fun, False),
                "shifted": (fun, differences)}[jac]


ARGS = ((), (3.0,), ("a", 2), (np.float64(0.5), "b", None))


def grad_events(u, seen, jac, eps):
    n = len(u.c)
    return [{"k": "gradient", "H": [vec(r) for r in u.H], "c": vec(u.c), "x": vec(x), "g": vec(g), "fd": jac in ("none", "false"),
             "eps": vec(np.broadcast_to(eps, n)), "gtol": 1e-9 * (1 + np.abs(g).max() + np.abs(x).max())} for x, g in seen]


def args_events(u, jac, args):
    who = ["fun"] + (["jac"] if jac in ("callable", "shifted") else [])
    return [{"k": "args", "who": w, "calls": len(u.seen[w]), "got": sorted(set(u.seen[w])), "want": repr(args)} for w in who]


def solve(rng, which, u, jac, eps, args, mode, x0):
    """One run; returns (iterates, [(x, gradient the solver used there)], extra events)"""
    import copt
    import copt.constraint as co
    fun, j = u.spec(jac, eps, args)
    xs, used, L = [], [], float(np.linalg.eigvalsh(u.H)[-1])
    record = lambda d: xs.append(np.array(d["x"], dtype=float).ravel())  # noqa: E731
    if which == "fw":
        def lmo(v, x, active):          # the euclidean ball: the vertex depends smoothly on the gradient
            used.append((x.copy(), -v))
            size = np.linalg.norm(v)
            return (2.0 * v / size if size > 1e-9 else x) - x, None, None, 1.0
        step = {"plain": "sublinear", "search": "backtracking", "own": (lambda d: 0.2)}[mode]
        copt.minimize_frank_wolfe(fun, x0, lmo, jac=j, args=args, eps=eps, step=step, max_iter=6, tol=0, callback=record,
                                  lipschitz=L if mode != "plain" else None)
    else:
        s = 0.7 / L
        prox = co.L2Ball(1.5).prox
        at = []

        def operator(v, step):
            if mode == "own" and which == "pg" and at:      # v = x - s g
                used.append((at[0], (at.pop() - v) / step))
            return prox(v, step)

        def cb(d):
            record(d)
            at[:] = [xs[-1].copy()]
        copt.minimize_proximal_gradient(fun, x0, prox=operator, jac=j, args=args, eps=eps, tol=0, max_iter=6,
                                        accelerated=which == "apg", step=(lambda d: s) if mode == "own" else "backtracking", callback=cb)
    return xs, used


def gradients(rng, which, mode):
    out = []
    for jac in ("callable", "joint", "none", "false"):
        for args in ARGS:
            n = int(rng.choice([1, 2, 3, 5]))
            eps = float(rng.choice([1e-6, 1e-4, 1e-2])) if rng.random() < 0.6 else 10.0 ** rng.uniform(-5, -2, size=n)
            state = rng.bit_generator.state
            u = User(rng, n)
            x0 = rng.normal(size=n)
            xs, used = solve(rng, which, u, jac, eps, args, mode, x0.copy())
            evs = args_events(u, jac, args) + grad_events(u, used, jac, eps)
            # the same run with the gradient given as a callable (of the estimated gradient, for finite differences)
            rng.bit_generator.state = state
            w = User(rng, n)
            rng.normal(size=n)
            ys, _ = solve(rng, which, w, "shifted" if jac in ("none", "false") else "callable", eps, args, mode, x0.copy())
            # (where the line search decides, estimates may tip the balance: only exact gradients are compared)
            if jac in ("callable", "joint") or mode != "search":
                evs.append({"k": "match", "what": "gradient-run-length", "want": [float(len(ys))], "got": [float(len(xs))], "tol": 0.0})
                tol = 1e-12 if jac in ("callable", "joint") else 1e-6 + 1e-11 / float(np.min(eps))
                evs += [{"k": "match", "what": "gradient-run", "want": vec(y), "got": vec(x), "tol": tol} for x, y in zip(xs, ys)]
            out += evs
    return gen.fn_trace(out)


def prox_args(rng):
    """args_prox reaches both operators of three-operator splitting"""
    import copt
    evs = []
    for args in ARGS:
        for ls in (True, False):
            u = User(rng, 3)
            seen = {"1": [], "2": []}

            def operator(which, lam):
                def prox(x, s, *a):
                    seen[which].append(repr(a))
                    return np.sign(x) * np.maximum(np.abs(x) - lam * s, 0)
                return prox
            f_grad = lambda x, return_gradient=True: (u.F(x), u.G(x)) if return_gradient else u.F(x)  # noqa: E731
            for one, two in ((True, True), (True, False), (False, True), (False, False)):
                seen = {"1": [], "2": []}
                copt.minimize_three_split(f_grad, rng.normal(size=3), operator("1", 0.1) if one else None,
                                          operator("2", 0.2) if two else None, args_prox=args, line_search=ls, step_size=0.05, max_iter=5)
                evs += [{"k": "args", "who": "prox_" + w, "calls": len(seen[w]), "got": sorted(set(seen[w])), "want": repr(args)}
                        for w, given in (("1", one), ("2", two)) if given]
    return gen.fn_trace(evs)


def run(ctx):
    configs = [g["c"] for g in ctx.generate("MC_Api", ctx.scale("MC_Api.cfg", "MC_Api_big.cfg"))]
    ctx.replayed = len(configs)
    cases = [("api-%d-%d" % (k, o), api, dict(configs=configs[k::16], offset=o)) for k in range(16) for o in range(ctx.scale(2, 6))]
    for rep in range(ctx.scale(2, 16)):
        for which in ("fw", "pg", "apg"):
            for mode in ("plain", "search", "own") if which == "fw" else ("search", "own"):
                cases.append(("gradients-%s-%s-%d" % (which, mode, rep), gradients, dict(which=which, mode=mode)))
        cases.append(("prox-args-%d" % rep, prox_args, {}))
    ctx.validate(ctx.run_cases(cases))
