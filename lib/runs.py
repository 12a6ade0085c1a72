"""Every solver as run(max_iter, tol, callback), on small problems of its kind."""
import numpy as np
from lib import data


class Setup:
    """name, profile of spec/Lifecycle.tla, run(max_iter, tol, callback), start (None: not what callbacks see first)"""

    def __init__(self, name, profile, run, x0, measured=True):
        self.name, self.profile, self.run, self.x0, self.measured = name, profile, run, x0, measured


def setups(rng, d=3, n=8):
    """All solvers and variants on one random problem"""
    import copt
    import copt.penalty as pe
    A = rng.normal(size=(n, d))
    b = rng.normal(size=n)
    f = data.make_loss("square", A, b, 0.1)
    L = float(np.linalg.norm(A, 2) ** 2 / n + 0.1)
    out = []
    ball = copt.constraint.L1Ball(1.5)
    l1 = pe.L1Norm(0.05)
    seed = int(rng.integers(1 << 30))
    val, grad = (lambda x: float(f(x))), (lambda x: f.f_grad(x)[1])
    start = rng.dirichlet(np.ones(d))

    def add(name, profile, run, x0, measured=True):
        out.append(Setup(name, profile, run, x0, measured))

    for step in ("backtracking", "DR", "sublinear", "callable"):
        for pair in (False, True):
            s = (lambda dl: 0.3 * dl["max_step_size"]) if step == "callable" else step
            x0 = 1.5 * np.eye(d)[0] if pair else start
            kw = dict(variant="pairwise", x0_rep=(1.0, 0)) if pair else {}
            lmo = ball.lmo_pairwise if pair else ball.lmo

            def run(mi, tol, cb, s=s, x0=x0, kw=kw, lmo=lmo):
                return copt.minimize_frank_wolfe(val, x0.copy(), lmo, jac=grad, step=s, lipschitz=L, max_iter=mi,
                                                 tol=tol, callback=cb, **kw)
            add("fw-%s-%s" % (step, "pairwise" if pair else "vanilla"), "fw", run, x0)
    x0 = rng.normal(size=d)
    for step in ("backtracking", "callable"):
        for acc in (False, True):
            def run(mi, tol, cb, step=step, acc=acc):
                return copt.minimize_proximal_gradient(
                    val, x0.copy(), prox=l1.prox, jac=grad, tol=tol, max_iter=mi, callback=cb, accelerated=acc,
                    step=(lambda dl: 0.5 / L) if step == "callable" else step)
            add("pg-%s-%s" % (step, "accelerated" if acc else "plain"), "pg", run, x0)
    l2 = pe.FusedLasso(0.05)
    for ls in (False, True):
        def run(mi, tol, cb, ls=ls):
            return copt.minimize_three_split(f.f_grad, x0.copy(), l1.prox, l2.prox, tol=tol, max_iter=mi, callback=cb,
                                             step_size=0.9 / L, line_search=ls)
        add("ts-%s" % ls, "ts", run, None)

        def run(mi, tol, cb, ls=ls):
            return copt.minimize_primal_dual(f.f_grad, x0.copy(), l1.prox, l2.prox, tol=tol, max_iter=mi, callback=cb,
                                             step_size=0.3 / L, line_search=ls)
        add("pd-%s" % ls, "pd", run, None)
    deriv = f.partial_deriv
    for name in ("saga", "svrg"):
        def run(mi, tol, cb, name=name):
            np.random.seed(seed)
            return getattr(copt, "minimize_" + name)(deriv, A, b, x0.copy(), 0.1 / L, alpha=0.1, tol=tol, max_iter=mi,
                                                     prox=l1.prox_factory(d), callback=cb)
        add(name, "ep", run, x0)

    def run(mi, tol, cb):
        np.random.seed(seed)
        return copt.minimize_vrtos(deriv, A, b, x0.copy(), 0.1 / L, alpha=0.1, tol=tol, max_iter=mi, callback=cb,
                                   prox_1=l1.prox_factory(d), prox_2=l2.prox_1_factory(d))
    add("vrtos", "vt", run, None, False)
    for v in ("SAG", "SAGA", "MHK", "LF"):
        for bs in (n, 3):
            def run(mi, tol, cb, v=v, bs=bs):
                np.random.seed(seed)
                return copt.minimize_sfw(deriv, A, b, start.copy(), ball.lmo, batch_size=bs, tol=tol, max_iter=mi,
                                         variant=v, callback=cb)
            add("sfw-%s-%s" % (v, "full" if bs == n else "batch"), "ep" if bs == n else "sfw", run, start)
    return out
