"""C19: inputs keep their contents, results are not shared, equal calls agree."""
import warnings
import numpy as np
from lib import data, gen, ops
from lib.core import vec

FMTS = ("dense", "csr", "csc", "fortran", "csr-unsorted", "int", "readonly")


class Caller:
    """Somebody who holds arrays and looks at all of them after every call"""

    def __init__(self):
        self.held, self.events = [], []

    def snapshot(self):
        return [{"h": h, "v": ops.digest(v)} for h, v in enumerate(self.held)]

    def hold(self, *objs):
        n = len(self.held)
        self.held += objs
        self.events.append({"k": "hold", "new": self.snapshot()[n:]})
        return list(range(n, len(self.held)))

    def call(self, op, h, label=""):
        x = self.held[h]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            res = ops.arrays(op.fn(x))
        n = len(self.held)
        self.held += res
        new = list(range(n, len(self.held)))
        shared = op.solver and any(np.shares_memory(r, x) for r in res)
        self.events.append({"k": "call", "op": op.name + label, "arg": h, "new": new, "after": self.snapshot(),
                            "shared": bool(shared), "res": [vec(r.ravel()) for r in res]})
        return new

    def trace(self, **kw):
        return dict({"kind": "pure", "cfg": {"none": 0}, "events": self.events}, **kw)


def start(rng):
    x = rng.normal(size=ops.D)
    return x * 0.4 / np.abs(x).sum()


def results(caller, new, k):
    """A vector among the results which can serve as the next argument"""
    ok = [h for h in new if caller.held[h].shape == (ops.D,)]
    return ok[k % len(ok)] if ok else None


def replay(rng, shapes, fmt):
    """The model's histories: call t works on the start point or on the result of an earlier call"""
    out = []
    for n, shape in enumerate(shapes):
        cat = ops.catalogue(rng, fmt)
        c = Caller()
        cells = [c.hold(start(rng))[0]]
        picks = [cat[i] for i in rng.integers(len(cat), size=len(shape))]
        for op in picks:
            c.hold(*op.owns)
        for t, (op, a) in enumerate(zip(picks, shape)):
            h = cells[a]
            new = c.call(op, h)
            r = results(c, new, t)
            cells.append(h if r is None else r)
        for op, a in zip(picks, shape):      # the same calls again
            c.call(op, cells[a])
        out.append(c.trace(sub=n))
    return out


def every(rng, fmt, part, parts):
    """Every operation: twice on its argument, on its own result, on another vector, and on the first again"""
    out = []
    cat = ops.catalogue(rng, fmt)
    for n, op in enumerate(cat):
        if n % parts != part:
            continue
        c = Caller()
        c.hold(*op.owns)
        h, z, g = c.hold(start(rng), np.zeros(ops.D), start(rng)[::-1])
        new = c.call(op, h)
        c.call(op, h)
        r = results(c, new, 0)
        if r is not None:
            c.call(op, r)
        c.call(op, g)
        c.call(op, z)
        c.call(op, h)
        # layouts
        v = c.held[h]
        ro = v.copy()
        ro.flags.writeable = False
        wide = np.full(2 * ops.D, 7.0)
        wide[::2] = v
        col = np.full((ops.D, 2), 3.0)
        col[:, 1] = v
        hs = c.hold(ro, wide[::2], col[:, 1])
        c.hold(wide, col)
        for k in hs:
            c.call(op, k)
        out.append(c.trace(sub=n))
    return out


def kinds(rng, fmt, part, parts):
    """Start points of other types with the same values"""
    out = []
    for n, op in enumerate(o for o in ops.catalogue(rng, fmt) if o.solver):
        if n % parts != part:
            continue
        evs = []
        for v in (rng.permutation([1, 0, -1, 0]), np.array([2, -1, 1, -1]), np.array([0, 0, 0, 0])):
            f = np.asarray(v, dtype=float)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                ref = ops.arrays(op.fn(f.copy()))[0]
                alts = [v.astype(np.int64), v.astype(np.int32), v.astype(np.int8), v.tolist(), f.tolist(),
                        tuple(f.tolist()), f.astype(np.float32), np.repeat(f, 2)[::2]]
                for alt in alts:
                    if op.lists or isinstance(alt, np.ndarray):
                        evs.append({"k": "match", "what": "start-point-type", "want": vec(ref),
                                    "got": vec(ops.arrays(op.fn(alt))[0]), "tol": 1e-12})
        out.append(gen.fn_trace(evs, sub=n))
    return out


def handed(rng, loss):
    """What the caller's own functions returned - gradients, directions, proximal points - is the caller's"""
    import copt
    import copt.penalty as pe
    d = 4
    A, b = rng.normal(size=(7, d)), rng.random(7)
    f = data.make_loss(loss, A, b, 0.1)
    L = float(f.lipschitz)
    l1, tv, ball = pe.L1Norm(0.05), pe.FusedLasso(0.05), copt.constraint.L1Ball(1.5)
    given = []

    def keep(a):
        given.append((a, ops.digest(a)))
        return a

    def own(fn):
        return lambda *a, **k: keep(np.array(fn(*a, **k)))

    def oracle(fn):
        def lmo(u, x, act):
            r = fn(u, x, act)
            return (keep(r[0]),) + tuple(r[1:])
        return lmo

    def joint(x, return_gradient=True):
        return (float(f(x)), keep(f.f_grad(x)[1])) if return_gradient else float(f(x))

    jac, p1, p2 = own(lambda x: f.f_grad(x)[1]), own(l1.prox), own(tv.prox)
    deriv = own(f.partial_deriv if loss == "square" else data.make_loss(loss, A, b, 0.0).partial_deriv)
    calls = []
    for step in ("backtracking", "DR", "sublinear", lambda dl: 0.4 * dl["max_step_size"]):
        for pair in (False, True):
            kw = dict(variant="pairwise", x0_rep=(1.0, 0)) if pair else {}
            lmo = oracle(ball.lmo_pairwise if pair else ball.lmo)
            calls.append(lambda x, s=step, kw=kw, lmo=lmo: copt.minimize_frank_wolfe(
                f, x, lmo, jac=jac, step=s, lipschitz=L, max_iter=9, **kw))
    for acc in (False, True):
        for step in ("backtracking", lambda dl: 0.4 / L):
            for fun, g in ((f, jac), (joint, True)):
                calls.append(lambda x, s=step, acc=acc, fun=fun, g=g: copt.minimize_proximal_gradient(
                    fun, x, prox=p1, jac=g, step=s, accelerated=acc, max_iter=9))
    for ls in (False, True):
        calls.append(lambda x, ls=ls: copt.minimize_three_split(joint, x, p1, p2, max_iter=9, step_size=0.5 / L,
                                                                line_search=ls))
        calls.append(lambda x, ls=ls: copt.minimize_primal_dual(joint, x, p1, p2, max_iter=9, step_size=0.2 / L,
                                                                line_search=ls))
    for v in ("SAG", "SAGA", "MHK", "LF"):
        for bs in (1, 3, 7):
            calls.append(lambda x, v=v, bs=bs: copt.minimize_sfw(
                deriv, A, b, x, oracle(ball.lmo), batch_size=bs, max_iter=4, variant=v))
    prox = l1.prox_factory(d)
    for solver in (copt.minimize_saga, copt.minimize_svrg):
        calls.append(lambda x, s=solver: s(deriv, A, b, x, 0.1 / L, prox=prox, alpha=0.1, max_iter=3))
    calls.append(lambda x: copt.minimize_vrtos(deriv, A, b, x, 0.1 / L, alpha=0.1, max_iter=3, prox_1=prox, prox_2=prox))
    out = []
    for n, call in enumerate(calls):
        c = Caller()
        c.hold(A, b)
        h, = c.hold(1.5 * np.eye(d)[0])
        given.clear()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            res = call(c.held[h])
        c.events.append({"k": "hold", "new": [{"h": len(c.held) + i, "v": v} for i, (_, v) in enumerate(given)]})
        c.held += [a for a, _ in given] + [res.x]
        c.events.append({"k": "call", "op": "run", "arg": h, "new": [len(c.held) - 1], "after": c.snapshot(),
                         "shared": bool(np.shares_memory(res.x, c.held[h])), "res": [vec(res.x)]})
        out.append(c.trace(sub=n))
    return out


def run(ctx):
    ctx.mc("MC_Purity")
    shapes = ctx.generate("MC_Purity", "MC_Purity_gen.cfg")
    ctx.replayed = len(shapes)
    cases = []
    for i, fmt in enumerate(FMTS):
        for rep in range(ctx.scale(2, 20)):
            cases.append(("replay-%s-%d" % (fmt, rep), replay, dict(shapes=shapes * ctx.scale(3, 6), fmt=fmt)))
        for part in range(4):
            cases.append(("every-%s-%d" % (fmt, part), every, dict(fmt=fmt, part=part, parts=4)))
    for rep in range(ctx.scale(1, 8)):
        for part in range(4):
            fmt = FMTS[rep % len(FMTS)]
            cases.append(("kinds-%s-%d-%d" % (fmt, part, rep), kinds, dict(fmt=fmt, part=part, parts=4)))
    for rep in range(ctx.scale(1, 8)):
        for loss in ("square", "log"):
            cases.append(("handed-%s-%d" % (loss, rep), handed, dict(loss=loss)))
    ctx.validate(ctx.run_cases(cases))
