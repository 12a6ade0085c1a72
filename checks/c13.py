"""C13: primal-dual splitting with a linear operator."""
import collections
import numpy as np
from scipy import sparse
from lib import fw, gen, prob
from lib.core import vec


def operator(rng, kind, n, scale):
    if kind == "id":
        M = np.eye(n)
    elif kind == "row":
        M = rng.normal(size=(1, n))
    elif kind == "diff":
        M = np.diff(np.eye(n), axis=0) if n > 1 else np.eye(1)
    elif kind == "tall":
        M = rng.normal(size=(n + 2, n))
    elif kind == "rank":
        M = np.outer(rng.normal(size=3), rng.normal(size=n))
    elif kind == "zero":
        M = np.zeros((2, n))
    else:
        M = rng.normal(size=(n, n)) * np.logspace(0, -2, n)
    return M * scale


class Matvec:
    """An object with .shape and .matvec (and .rmatvec), nothing else."""

    def __init__(self, M):
        self.shape, self.dtype, self._M = M.shape, M.dtype, M

    def matvec(self, x):
        return self._M.dot(x)

    def rmatvec(self, x):
        return self._M.T.dot(x)


STORE = {
    "dense": lambda M: M.copy(), "csr": sparse.csr_matrix, "csc": sparse.csc_matrix, "coo": sparse.coo_matrix,
    "lil": sparse.lil_matrix, "linop": lambda M: sparse.linalg.aslinearoperator(M.copy()), "object": Matvec,
}


class Recorder:
    """Keeps the calls of the first and of the last iterations only."""

    def __init__(self, obj, t1, t2, head, tail, stop_at=None):
        self.obj, self.t1, self.t2, self.stop_at = obj, t1, t2, stop_at
        self.head, self.tail = [], collections.deque(maxlen=tail)
        self.nhead, self.n = head, 0
        self.p1, self.p2 = [], []

    def f_grad(self, x, return_gradient=True):
        x = np.array(x, dtype=float)
        if not return_gradient:
            return self.obj.value(x)
        return self.obj.value(x), self.obj.grad(x)

    def prox_1(self, x, s):
        v = np.array(x, dtype=float)
        z = v.copy() if self.t1.prox is None else self.t1.prox(x, s)
        self.p1.append((v, float(s), np.array(z)))
        return z

    def prox_2(self, x, s):
        v = np.array(x, dtype=float)
        z = v.copy() if self.t2.prox is None else self.t2.prox(x, s)
        self.p2.append((v, float(s), np.array(z)))
        return z

    def close(self, x, stop):
        ev = (self.n, np.array(x, dtype=float), self.p1, self.p2, stop)
        self.p1, self.p2 = [], []
        (self.head if len(self.head) < self.nhead else self.tail).append(ev)

    def callback(self, dl):
        self.n += 1
        stop = self.stop_at == self.n
        self.close(dl["x"], stop)
        return False if stop else None

    def events(self):
        out, last = [], 0
        todo = self.head + list(self.tail)
        for n, x, p1, p2, stop in todo:
            e = {"k": "it", "x": vec(x), "f": float(self.obj.value(x)), "g": vec(self.obj.grad(x)), "ret": stop,
                 "p1": [{"v": vec(v), "s": s, "z": vec(z), "f": float(self.obj.value(z))} for v, s, z in p1],
                 "p2": [{"v": vec(v), "s": s, "z": vec(z)} for v, s, z in p2]}
            if n != last + 1:
                e["k"], e["n"] = "sync", n
            out.append(e)
            last = n
        return out


def reference(obj, t1, t2, M):
    """Saddle point by a plain long run on the normalized problem (a witness: the specification verifies it)."""
    nl = max(np.linalg.norm(M, 2), 1e-300)
    N = M / nl
    p1 = t1.prox or (lambda v, s: v)
    p2 = t2.prox or (lambda v, s: v)
    best = None
    for tau in (0.1, 1.0, 10.0, 100.0):
        sig = 1 / (tau + obj.L / 2)
        x, y = np.zeros(M.shape[1]), np.zeros(len(M))
        for _ in range(20000):
            w = y / tau + N.dot(x)
            y2 = tau * (w - p2(nl * w, nl * nl / tau) / nl)
            v = x - sig * (N.T.dot(2 * y2 - y) + obj.grad(x))
            x2 = p1(v.copy(), sig)
            d = max(np.abs(x2 - x).max(), np.abs(y2 - y).max())
            xi = (v - x2) / sig
            x, y = x2, y2
            if d < 4e-15:
                break
        if best is None or d < best[0]:
            best = (d, x, y / nl, xi)
        if d < 1e-13:
            break
    return best[1:] if best[0] < 1e-11 else None


def spec_term(t):
    P = dict(t.P)
    if P["t"] == "set-linf":
        P["t"] = "box"
    return P


def moderate(evs):
    for i, e in enumerate(evs):
        if any(v in ("nan", "inf", "-inf") or abs(gen.num(v)) > 1e8 for v in e["x"]):
            return evs[:i]
    return evs


def case(rng, obj_kind, k1, k2, Lkind, store, mode, opt=False, n=None, long=None):
    import copt
    n = n or int(rng.choice([1, 2, 4]))
    obj = fw.objective(rng, obj_kind, n)
    scale = float(rng.choice([0.01, 1.0, 1.0, 100.0]))
    M = operator(rng, Lkind, n, scale)
    t1, t2 = prob.term(rng, k1, n), prob.term(rng, k2, len(M))
    max_iter = long or 4000 if long or opt else int(rng.choice([1, 2, 7, 30]))
    tol = float(rng.choice([0.0, 1e-4, 1e-10]) if opt else rng.choice([0.0, 1e-12, 0.5]))
    tol = 0.0 if long else tol
    stop_at = int(rng.integers(1, 6)) if rng.random() < 0.15 and not opt else None
    rec = Recorder(obj, t1, t2, 3 if opt else long or 30, 3, stop_at)
    kw = dict(tol=tol, max_iter=max_iter, callback=rec.callback)
    Lf = obj.L if obj.L != "inf" else 20.0
    if mode == "plain":
        nl = float(np.linalg.norm(M, 2))
        sigma = float(rng.choice([0.5, 1.0]) / (nl + Lf))
        tau = float((1 / sigma - Lf / 2) / max(nl * nl, 1.0) * rng.choice([0.5, 1.0]))
        kw.update(step_size=sigma, step_size2=tau, line_search=False)
    else:
        sigma = {"auto": 1.0, "tiny": 1e-3, "huge": 1e3, "two": 0.3}[mode]
        tau = 0.5 * sigma
        if mode == "two":
            tau = float(rng.choice([0.05, 0.9, 4.0]))
            kw["step_size2"] = tau
        if mode != "auto":
            kw["step_size"] = sigma
    ratio = 0.5 if "step_size2" not in kw else tau / sigma
    x0 = rng.normal(size=n) * float(rng.choice([0.3, 3.0]))
    if store == "none":
        M = np.eye(n)
        t2 = prob.term(rng, k2, n)
        rec.t2 = t2
        L = None
    else:
        L = STORE[store](M)
    res = copt.minimize_primal_dual(rec.f_grad, x0.copy(), rec.prox_1, rec.prox_2, L=L, **kw)
    if rec.p1 or rec.p2:          # the last iteration ended without a callback
        rec.n += 1
        rec.close(res.x, False)
    def config():
        return {"x0": vec(x0), "f0": float(obj.value(x0)), "g0": vec(obj.grad(x0)), "L": [vec(r) for r in M],
                "ls": mode != "plain", "sigma": float(sigma), "tau": float(tau), "ratio": float(ratio), "tol": tol,
                "maxit": max_iter, "ftol": 1e-10}

    evs = rec.events()
    evs.append({"k": "ret", "x": vec(res.x), "success": bool(res.success), "cert": float(res.certificate)})
    evs = moderate(evs)
    if opt and evs and evs[-1]["k"] == "ret":
        best = reference(obj, t1, t2, M)
        if best is None:        # no witness good enough
            return {"kind": "pd", "cfg": config(), "events": evs}
        xs, ys, xi = best
        target = (0.01 if scale == 1.0 and Lkind != "bad" else 0.1) if not res.success else "none"
        if target != "none" and np.linalg.norm(res.x - xs) > target * (1 + np.abs(xs).max()):   # "given enough iterations"
            kw.update(callback=None, max_iter=60000, tol=1e-13)
            res = copt.minimize_primal_dual(rec.f_grad, x0.copy(), t1.prox, t2.prox, L=L, **kw)
        evs.append({"k": "opt", "x": vec(res.x), "xs": vec(xs), "ys": vec(ys), "xi": vec(xi), "gs": vec(obj.grad(xs)),
                    "P1": spec_term(t1), "P2": spec_term(t2), "mu": 1.0, "target": target})
    return {"kind": "pd", "cfg": config(), "events": evs}


def default_prox(rng):
    """An operator that is not given is the identity (the term is zero); no L means the identity."""
    import copt
    evs = []
    for _ in range(4):
        n = int(rng.choice([2, 4]))
        obj, t = fw.objective(rng, "quad", n), prob.term(rng, "l1", n)
        x0 = rng.normal(size=n)
        f = Recorder(obj, t, t, 1, 1).f_grad
        ident = lambda x, s: x.copy()  # noqa: E731
        M = rng.normal(size=(n, n))
        for one, two, L in (((None, t.prox), (ident, t.prox), M), ((t.prox, None), (t.prox, ident), M),
                            ((None, None), (ident, ident), M), ((t.prox, t.prox), (t.prox, t.prox), None)):
            a = copt.minimize_primal_dual(f, x0.copy(), *one, L=L, max_iter=15, tol=0)
            b = copt.minimize_primal_dual(f, x0.copy(), *two, L=np.eye(n) if L is None else L, max_iter=15, tol=0)
            evs.append({"k": "match", "what": "pd-default", "want": vec(b.x), "got": vec(a.x), "tol": 1e-9})
    return gen.fn_trace(evs)


def storage(rng):
    """The result does not depend on how L is given."""
    import copt
    evs = []
    for Lkind in ("row", "tall", "diff", "rank"):
        n = 3
        obj = fw.objective(rng, "quad", n)
        M = operator(rng, Lkind, n, 1.0)
        t1, t2 = prob.term(rng, "l1", n), prob.term(rng, "box", len(M))
        f = Recorder(obj, t1, t2, 1, 1).f_grad
        x0 = rng.normal(size=n)
        want = None
        for name in sorted(STORE):
            r = copt.minimize_primal_dual(f, x0.copy(), t1.prox, t2.prox, L=STORE[name](M), max_iter=6, tol=0)
            want = vec(r.x) if want is None else want
            evs.append({"k": "match", "what": "pd-storage-" + name, "want": want, "got": vec(r.x), "tol": 1e-8})
    return gen.fn_trace(evs)


def replay(rng, behaviours):
    import copt
    from copt.penalty import L1Norm
    out = []
    for sub, bh in enumerate(behaviours):
        M = np.array([[gen.num(v) for v in r] for r in bh["L"]])
        c, x0 = (np.array([gen.num(v) for v in bh[k]]) for k in ("c", "x0"))
        a, H = gen.num(bh["a"]), np.array([1.0, 2.0])
        obj = fw.Objective(lambda x: float(0.5 * (H * (x - c) ** 2).sum()), lambda x: H * (x - c), 2.0, 2)
        rec = Recorder(obj, prob.Term(None, None, None), prob.Term(L1Norm(a).prox, None, None), 100, 1)
        copt.minimize_primal_dual(rec.f_grad, x0, rec.prox_1, rec.prox_2, L=list(STORE.values())[sub % 7](M), tol=0.0,
                                  max_iter=len(bh["hist"]), callback=rec.callback, line_search=False,
                                  step_size=0.125, step_size2=0.25)
        got = rec.events()
        evs = [{"k": "match", "what": "pd-iterate", "want": h, "got": e["x"], "tol": 1e-12}
               for h, e in zip(bh["hist"], got)]
        evs.append({"k": "match", "what": "pd-number-of-iterations", "want": [float(len(bh["hist"]))],
                    "got": [float(len(got))], "tol": 0.0})
        out.append(gen.fn_trace(evs, sub=sub))
    return out


PAIRS = (("none", "l1"), ("box", "l1"), ("l1", "box"), ("ridge", "group"), ("nonneg", "fused"), ("none", "ridge"),
         ("l1ball", "none"), ("simplex", "l1"))


def run(ctx):
    spec = ctx.generate("MC_PrimalDual", ctx.scale("MC_PrimalDual.cfg", "MC_PrimalDual_big.cfg"), workers=8)
    ctx.replayed = len(spec)
    cases = [("replay-%d" % i, replay, dict(behaviours=spec[i::8])) for i in range(8)]
    stores = sorted(STORE) + ["none"]
    k = 0
    for rep in range(ctx.scale(1, 10)):
        cases.append(("default-prox-%d" % rep, default_prox, {}))
        cases.append(("storage-%d" % rep, storage, {}))
        for ob in ("quad", "log", "square", "cos"):
            for k1, k2 in PAIRS:
                for mode in ("auto", "tiny", "huge", "two", "plain"):
                    k += 1
                    kind = ("id", "row", "diff", "tall", "rank", "zero", "bad")[k % 7]
                    cases.append(("%s-%s-%s-%s-%d" % (ob, k1, k2, mode, rep), case,
                                  dict(obj_kind=ob, k1=k1, k2=k2, Lkind=kind, store=stores[k % 8], mode=mode)))
        for k1, k2 in PAIRS[:6]:
            for mode in ("auto", "tiny", "huge", "plain"):
                for kind in ("id", "row", "tall", "rank", "bad"):
                    k += 1
                    if ctx.quick and k % 2:
                        continue
                    cases.append(("opt-%s-%s-%s-%s-%d" % (k1, k2, mode, kind, rep), case,
                                  dict(obj_kind="quad", k1=k1, k2=k2, Lkind=kind, store=stores[k % 7], mode=mode,
                                       opt=True)))
    for rep in range(ctx.scale(1, 6)):      # long runs, and runs in many dimensions
        for i, (k1, k2) in enumerate(PAIRS):
            for j, mode in enumerate(("auto", "tiny", "huge", "two", "plain")):
                kind = ("id", "row", "diff", "tall", "rank")[(i + j) % 5]
                common = dict(k1=k1, k2=k2, mode=mode, Lkind=kind, store=stores[(i + 3 * j) % 8])
                if (i + j) % 2 == 0 or not ctx.quick:
                    cases.append(("long-%s-%s-%s-%d" % (k1, k2, mode, rep), case, dict(
                        common, obj_kind=("log", "quad", "cos")[i % 3], n=3, long=200)))
                cases.append(("wide-%s-%s-%s-%d" % (k1, k2, mode, rep), case, dict(
                    common, obj_kind=("square", "quad", "log")[i % 3], n=30, long=5)))
    ctx.validate(ctx.run_cases(cases))
