"""C12: three-operator splitting."""
import numpy as np
from lib import fw, gen, prob
from lib.core import vec


class Recorder:
    def __init__(self, obj, t1, t2, stop_at=None):
        self.obj, self.t1, self.t2, self.stop_at = obj, t1, t2, stop_at
        self.events, self.p1, self.p2, self.n = [], [], [], 0

    def f_grad(self, x, return_gradient=True):
        if not return_gradient:
            return self.obj.value(x)
        return self.obj.value(x), self.obj.grad(x)

    def _call(self, term, x, s, grad):
        v = vec(x)
        z = np.array(x, dtype=float) if term.prox is None else term.prox(x, s)
        c = {"v": v, "s": float(s), "z": vec(z), "f": float(self.obj.value(np.array(z)))}
        if grad:
            c["g"] = vec(self.obj.grad(np.array(z)))
        return z, c

    def prox_1(self, x, s, *args):
        z, c = self._call(self.t1, x, s, False)
        self.p1.append(c)
        return z

    def prox_2(self, x, s, *args):
        z, c = self._call(self.t2, x, s, True)
        self.p2.append(c)
        return z

    def callback(self, dl):
        self.n += 1
        stop = self.stop_at == self.n
        self.events.append({"k": "cb", "x": vec(dl["x"]), "p1": self.p1, "p2": self.p2, "ret": stop})
        self.p1, self.p2 = [], []
        return False if stop else None


def reference(obj, t1, t2, n, L):
    """Minimizer and multipliers by a plain long run (only a witness: the specification verifies it)."""
    s = 1.0 / L
    p1 = t1.prox or (lambda v, s: v)
    p2 = t2.prox or (lambda v, s: v)
    z, u = np.zeros(n), np.zeros(n)
    for _ in range(20000):
        v, old = z - s * (u + obj.grad(z)), z
        x = p1(v.copy(), s)
        z = p2(x + s * u, s)
        u = u + (x - z) / s
        if max(np.abs(x - z).max(), np.abs(z - old).max()) < 1e-15:
            break
    v = z - s * (u + obj.grad(z))
    x = p1(v.copy(), s)
    return z, (v - x) / s, u


def case(rng, obj_kind, k1, k2, mode, keep=25, tol=None, max_iter=None, opt=False, n=None, scale=1.0):
    import copt
    n = n or int(rng.choice([1, 2, 4]))
    obj, t1, t2 = fw.scaled(fw.objective(rng, obj_kind, n), scale), prob.term(rng, k1, n), prob.term(rng, k2, n)
    L = obj.L if obj.L != "inf" else 20.0 * scale
    rec = Recorder(obj, t1, t2, stop_at=int(rng.integers(1, 6)) if rng.random() < 0.15 and not opt else None)
    tol = float(rng.choice([0.0, 1e-9, 1e-3, 0.5])) if tol is None else tol
    max_iter = int(rng.choice([1, 2, 7, 200])) if max_iter is None else max_iter
    kw = dict(tol=tol, max_iter=max_iter, callback=rec.callback)
    step, hlip = "none", "none"
    if mode == "fixed":
        step = float(rng.choice([0.3, 1.0, 1.9]) / L)
        kw.update(step_size=step, line_search=False)
    elif mode == "start":
        step = float(rng.choice([0.1, 5.0, 100.0]) / L)
        kw.update(step_size=step)
    elif mode == "hlip":
        hlip = float(rng.choice([0.0, 0.5, 3.0, 40.0]))
        kw.update(h_Lipschitz=hlip)
    if rng.random() < 0.3:
        kw["backtracking_factor"] = float(rng.choice([0.5, 0.9]))
        kw["max_iter_backtracking"] = 500
    x0 = rng.normal(size=n) * float(rng.choice([0.3, 3.0]))
    res = copt.minimize_three_split(rec.f_grad, x0.copy(), rec.prox_1, rec.prox_2, **kw)
    rec.events.append({"k": "ret", "x": vec(res.x), "success": bool(res.success), "cert": float(res.certificate)})
    evs = rec.events if len(rec.events) <= keep else rec.events[:keep]
    for i, e in enumerate(evs):     # unbounded problems: only the part with moderate numbers
        if any(v in ("nan", "inf", "-inf") or abs(gen.num(v)) > 1e8 for v in e["x"]):
            evs = evs[:i]
            break
    if opt and evs and evs[-1]["k"] == "ret" and evs[-1]["success"]:
        xs, xi1, xi2 = reference(obj, t1, t2, n, L)
        evs = evs + [{"k": "opt", "xs": vec(xs), "xi1": vec(xi1), "xi2": vec(xi2), "gs": vec(obj.grad(xs)),
                      "P1": spec_term(t1), "P2": spec_term(t2), "mu": 1.0, "x": vec(xs)}]
    cfg = {"x0": vec(x0), "step": step, "ls": mode != "fixed", "hlip": hlip, "tol": tol, "maxit": max_iter,
           "gaveup": False, "ftol": 1e-10}
    return {"kind": "ts", "cfg": cfg, "events": evs}


def spec_term(t):
    P = dict(t.P)
    if P["t"] == "set-linf":
        P["t"] = "box"
    return P


def default_prox(rng):
    """An operator that is not given is the identity."""
    import copt
    evs = []
    for k in range(6):
        n = int(rng.choice([2, 4]))
        obj, t = fw.objective(rng, "quad", n), prob.term(rng, "l1", n)
        x0 = rng.normal(size=n)
        f = Recorder(obj, t, t).f_grad
        ident = lambda x, s: x.copy()  # noqa: E731
        for one, two in (((None, t.prox), (ident, t.prox)), ((t.prox, None), (t.prox, ident)),
                         ((None, None), (ident, ident))):
            a = copt.minimize_three_split(f, x0.copy(), *one, max_iter=15, tol=0)
            b = copt.minimize_three_split(f, x0.copy(), *two, max_iter=15, tol=0)
            evs.append({"k": "match", "what": "ts-default-prox", "want": vec(b.x), "got": vec(a.x), "tol": 1e-10})
    return gen.fn_trace(evs)


def replay(rng, behaviours):
    import copt
    out = []
    for sub, bh in enumerate(behaviours):
        H, c, x0 = (np.array([gen.num(v) for v in bh[k]]) for k in ("H", "c", "x0"))
        a, s = gen.num(bh["a"]), gen.num(bh["s"])
        obj = fw.Objective(lambda x: float(0.5 * (H * (x - c) ** 2).sum()), lambda x: H * (x - c), float(H.max()), 2)
        from copt.penalty import L1Norm
        t1 = prob.Term(L1Norm(a).prox, None, None)
        t2 = prob.Term(lambda x, s: np.clip(x, 0, 1), None, None)
        rec = Recorder(obj, t1, t2)
        copt.minimize_three_split(rec.f_grad, x0, rec.prox_1, rec.prox_2, tol=0.0, max_iter=len(bh["hist"]),
                                  callback=rec.callback, line_search=False, step_size=s)
        evs = []
        for h, e in zip(bh["hist"], rec.events):
            evs.append({"k": "match", "what": "ts-iterate", "want": h["x"], "got": e["x"], "tol": 1e-12})
            evs.append({"k": "match", "what": "ts-second-point", "want": h["z"], "got": e["p2"][-1]["z"],
                        "tol": 1e-12})
        out.append(gen.fn_trace(evs, sub=sub))
    return out


PAIRS = (("l1", "box"), ("group", "nonneg"), ("fused", "l1"), ("none", "l1"), ("l2ball", "none"), ("box", "ridge"),
         ("simplex", "l1"), ("ridge", "l1ball"), ("none", "none"), ("l1", "fused"))


def run(ctx):
    spec = ctx.generate("MC_ThreeSplit", ctx.scale("MC_ThreeSplit.cfg", "MC_ThreeSplit_big.cfg"), workers=8)
    ctx.replayed = len(spec)
    cases = [("replay-%d" % i, replay, dict(behaviours=spec[i::8])) for i in range(8)]
    for rep in range(ctx.scale(1, 8)):
        cases.append(("default-prox-%d" % rep, default_prox, {}))
        for ob in fw.OBJECTIVES:
            for k1, k2 in PAIRS:
                for mode in ("auto", "start", "fixed", "hlip"):
                    cases.append(("%s-%s-%s-%s-%d" % (ob, k1, k2, mode, rep), case,
                                  dict(obj_kind=ob, k1=k1, k2=k2, mode=mode)))
        for k1, k2 in (("l1", "box"), ("group", "nonneg"), ("fused", "l1"), ("none", "l1"), ("box", "ridge"),
                       ("l1", "fused"), ("ridge", "box"), ("group", "l1")):
            for mode in ("auto", "start", "fixed", "hlip"):
                for tol in (1e-2, 1e-4):
                    cases.append(("opt-%s-%s-%s-%g-%d" % (k1, k2, mode, tol, rep), case,
                                  dict(obj_kind="quad", k1=k1, k2=k2, mode=mode, tol=tol, max_iter=120, keep=125,
                                       opt=True)))
    for rep in range(ctx.scale(1, 6)):      # objectives far from the unit scale
        for i, (k1, k2) in enumerate(PAIRS):
            for j, scale in enumerate((1e-8, 1e-4, 1e3, 1e5, 1e7)):
                for mode in ("auto", "start", "fixed", "hlip"):
                    cases.append(("scale-%s-%s-%g-%s-%d" % (k1, k2, scale, mode, rep), case, dict(
                        k1=k1, k2=k2, mode=mode, scale=scale, tol=float(0.05 * scale), max_iter=40, keep=41,
                        obj_kind=("quad", "log", "rankdef", "huber", "cos", "square")[(i + j + rep) % 6])))
    for rep in range(ctx.scale(1, 6)):      # long runs, and runs in many dimensions
        for i, (k1, k2) in enumerate(PAIRS):
            for mode in ("auto", "start", "fixed", "hlip"):
                common = dict(k1=k1, k2=k2, mode=mode, tol=0.0)
                cases.append(("long-%s-%s-%s-%d" % (k1, k2, mode, rep), case, dict(
                    common, obj_kind=("log", "huber", "rankdef", "cos")[i % 4], n=3, max_iter=300, keep=301)))
                cases.append(("wide-%s-%s-%s-%d" % (k1, k2, mode, rep), case, dict(
                    common, obj_kind=("square", "quad", "log")[i % 3], n=60, max_iter=8, keep=10)))
    ctx.validate(ctx.run_cases(cases))
