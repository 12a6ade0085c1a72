"""C11: proximal gradient, plain and accelerated."""
import warnings
import numpy as np
from lib import fw, gen, prob
from lib.core import vec


class Recorder:
    def __init__(self, obj, term, acc, stop_at=None, script=None):
        self.obj, self.term, self.acc, self.stop_at, self.script = obj, term, acc, stop_at, script
        self.events, self.calls, self.steps = [], [], []
        self.n, self.t, self.y, self.xold = 0, 1.0, None, None

    def prox(self, x, s):
        v = vec(x)
        z = self.term.prox(x, s)
        self.calls.append({"v": v, "s": float(s), "z": vec(z)})
        return z

    def step(self, dl):
        s = self.script(self.n)
        self.steps.append(s)
        return s

    def at(self, x):
        x = np.array(x, dtype=float)
        pen = self.term.value(x)
        ev = {"x": vec(x), "f": float(self.obj.value(x)), "g": vec(self.obj.grad(x)),
              "pen": "none" if pen is None else float(pen), "prox": self.calls, "steps": self.steps}
        self.calls, self.steps = [], []
        return ev

    def callback(self, dl):
        x = np.array(dl["x"], dtype=float)
        self.n += 1
        stop = self.stop_at == self.n
        ev = dict(self.at(x), k="cb", ret=stop)
        if self.acc:   # witness: the extrapolation point
            if self.xold is None:
                y = x
            else:
                t1 = (1 + np.sqrt(1 + 4 * self.t ** 2)) / 2
                y = x + (self.t - 1) / t1 * (x - self.xold)
                self.t = t1
            self.xold = x
            ev["yw"] = {"y": vec(y), "g": vec(self.obj.grad(y.copy())), "f": float(self.obj.value(y.copy()))}
        self.events.append(ev)
        return False if stop else None

    def finish(self, res):
        ev = dict(self.at(res.x), k="ret", success=bool(res.success), cert=float(res.certificate))
        s = max([1e-3] + [c["s"] for c in ev["prox"]])
        x = np.array(res.x, dtype=float)
        v = x - s * self.obj.grad(x)
        ev["wz"] = {"s": float(s), "z": vec(self.term.prox(v, s) if self.term.prox else v)}
        self.events.append(ev)


def thin(events, keep):
    """A prefix: at most keep events, and none from the first huge iterate on (the user's steps may diverge)."""
    for k, e in enumerate(events[:keep]):
        x = np.array([gen.num(v) if v not in ("nan", "inf", "-inf") else np.inf for v in e["x"]])
        if np.abs(x).max() > 1e8:
            return events[:k]
    return events[:keep]


def case(rng, obj_kind, term_kind, acc, rule, keep=30, maxls=None, tol=None, max_iter=None, n=None, scale=1.0):
    import copt
    import copt.penalty
    n = n or int(rng.choice([1, 2, 4]))
    obj, term = fw.scaled(fw.objective(rng, obj_kind, n), scale), prob.term(rng, term_kind, n)
    L = obj.L if obj.L != "inf" else 20.0 * scale
    fr = rng.choice([0.3, 0.5, 0.9, 1.0, 1.5], size=1000)
    rec = Recorder(obj, term, acc, stop_at=int(rng.integers(1, 6)) if rng.random() < 0.15 else None,
                   script=lambda k: float(fr[k % 1000] / L))
    tol = float(rng.choice([0.0, 1e-9, 1e-3, 0.5])) if tol is None else tol
    max_iter = int(rng.choice([0, 1, 2, 7, 300])) if max_iter is None else max_iter
    kw = dict(jac=obj.grad, tol=tol, max_iter=max_iter, accelerated=acc, callback=rec.callback,
              step=rec.step if rule == "user" else "backtracking")
    if term.prox is not None:
        kw["prox"] = rec.prox
    if maxls is not None:
        kw["max_iter_backtracking"] = maxls
    if rule == "backtracking" and rng.random() < 0.4:
        kw["backtracking_factor"] = float(rng.choice([0.3, 0.9]))
    if maxls is None and "backtracking_factor" in kw:
        kw["max_iter_backtracking"] = 3000
    x0 = rng.normal(size=n) * float(rng.choice([0.3, 3.0]))
    traced = bool(rng.random() < 0.4)
    if traced:
        kw["trace_certificate"] = True
    if rng.random() < 0.3 and term.prox is not None:
        x0 = np.array(term.prox(x0.copy(), 1.0))
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        res = copt.minimize_proximal_gradient(obj.value, x0.copy(), **kw)
        ls = not any("line-search" in str(w.message) for w in ws)
    rec.finish(res)
    rec.events[-1]["certs"] = [float(v) for v in res.trace_certificate]
    cfg = {"x0": vec(x0), "acc": acc, "rule": rule, "hasprox": term.prox is not None, "tol": tol, "maxit": max_iter,
           "Lf": obj.L, "ls": ls, "ftol": 1e-10, "traced": traced}
    return {"kind": "pg", "cfg": cfg, "events": thin(rec.events, keep)}


def replay(rng, behaviours):
    """Behaviours of MC_ProxGrad: quadratic objective, L1 penalty, scripted steps."""
    import copt
    import copt.penalty
    out = []
    for sub, bh in enumerate(behaviours):
        H = np.array([gen.num(v) for v in bh["H"]])
        c = np.array([gen.num(v) for v in bh["c"]])
        x0 = np.array([gen.num(v) for v in bh["x0"]])
        steps = [gen.num(v) for v in bh["steps"]]
        obj = fw.Objective(lambda x: float(0.5 * (H * (x - c) ** 2).sum()), lambda x: H * (x - c), float(H.max()), 2)
        p = copt.penalty.L1Norm(gen.num(bh["a"]))
        rec = Recorder(obj, prob.Term(p.prox, p, None), bh["acc"], script=lambda k: steps[k - 1])
        res = copt.minimize_proximal_gradient(obj.value, x0, prox=rec.prox, jac=obj.grad, tol=0.0,
                                              max_iter=len(steps), accelerated=bh["acc"], callback=rec.callback,
                                              step=rec.step)
        xs = [e["x"] for e in rec.events[1:]] + [vec(res.x)]
        out.append(gen.fn_trace([{"k": "match", "what": "proximal-gradient-iterate", "want": w, "got": g,
                                  "tol": 1e-12} for w, g in zip(bh["xs"], xs)], sub=sub))
    return out


def run(ctx):
    ctx.mc("MC_ProxGrad", ctx.scale("MC_ProxGrad.cfg", "MC_ProxGrad_big.cfg"))
    spec = ctx.generate("MC_ProxGrad", ctx.scale("MC_ProxGrad_gen.cfg", "MC_ProxGrad_gen_big.cfg"))
    ctx.replayed = len(spec)
    cases = [("replay-%d" % i, replay, dict(behaviours=spec[i::8])) for i in range(8)]
    for rep in range(ctx.scale(1, 8)):
        for acc in (False, True):
            for ob in fw.OBJECTIVES:
                for te in prob.TERMS:
                    for rule in ("backtracking", "user"):
                        cases.append(("%s-%s-%s-%s-%d" % ("acc" if acc else "plain", ob, te, rule, rep), case,
                                      dict(obj_kind=ob, term_kind=te, acc=acc, rule=rule)))
                for te in ("l1", "box", "ridge"):
                    cases.append(("%s-%s-%s-fewls-%d" % ("acc" if acc else "plain", ob, te, rep), case,
                                  dict(obj_kind=ob, term_kind=te, acc=acc, rule="backtracking", maxls=1 + rep % 3,
                                       max_iter=20, tol=1e-9)))
            for ob in ("quad", "rankdef", "log", "huber", "square"):
                for te in prob.TERMS:
                    cases.append(("%s-%s-%s-success-%d" % ("acc" if acc else "plain", ob, te, rep), case,
                                  dict(obj_kind=ob, term_kind=te, acc=acc, rule="backtracking", tol=0.05,
                                       max_iter=200, keep=201)))
    for rep in range(ctx.scale(1, 6)):      # objectives far from the unit scale
        for acc in (False, True):
            for i, te in enumerate(prob.TERMS):
                for j, scale in enumerate((1e-8, 1e-4, 1e3, 1e5, 1e7)):
                    for rule in ("backtracking", "user"):
                        cases.append(("scale-%s-%s-%g-%s-%d" % ("acc" if acc else "plain", te, scale, rule, rep), case, dict(
                            term_kind=te, acc=acc, rule=rule, scale=scale,
                            obj_kind=("quad", "log", "rankdef", "huber", "cos", "square")[(i + j + rep) % 6],
                            tol=float(0.05 * scale), max_iter=60, keep=61)))
    for rep in range(ctx.scale(1, 6)):      # long runs, and runs in many dimensions
        for acc in (False, True):
            for i, te in enumerate(prob.TERMS):
                for rule in ("backtracking", "user"):
                    common = dict(term_kind=te, acc=acc, rule=rule, tol=0.0)
                    name = "%s-%s-%s-%d" % ("acc" if acc else "plain", te, rule, rep)
                    cases.append(("long-" + name, case, dict(
                        common, obj_kind=("log", "huber", "rankdef", "cos")[i % 4], n=3, max_iter=300, keep=300)))
                    cases.append(("wide-" + name, case, dict(
                        common, obj_kind=("square", "quad", "log")[i % 3], n=60, max_iter=8, keep=10)))
    ctx.validate(ctx.run_cases(cases))
