"""Recorder for the Frank-Wolfe solvers: problems, oracles and traces (spec/FrankWolfe.tla)."""
import warnings
import numpy as np
from lib import gen, data
from lib.core import vec


# ------------------------------------------------------------------------------------------- objectives


class Objective:
    """value, gradient and an upper bound on the gradient's Lipschitz constant ("inf" if not known)."""

    def __init__(self, value, grad, L, n):
        self.value, self.grad, self.L, self.n = value, grad, L, n

    def both(self, x):
        return self.value(x), self.grad(x)


def objective(rng, kind, n):
    if kind in ("quad", "indef", "rankdef"):
        H = gen.spd(rng, n, 20.0) if kind == "quad" else None
        if kind == "rankdef":
            M = rng.normal(size=(max(1, n // 2), n))
            H = M.T.dot(M)
        if kind == "indef":
            H = rng.normal(size=(n, n))
            H = (H + H.T) / 2
        c = rng.normal(size=n) * rng.choice([0.3, 2.0])
        L = float(np.abs(np.linalg.eigvalsh(H)).max()) * (1 + 1e-9)
        return Objective(lambda x: float(0.5 * (x - c).dot(H.dot(x - c))), lambda x: H.dot(x - c), L, n)
    if kind in ("log", "square", "huber"):
        m = int(rng.integers(2, 9))
        A = rng.normal(size=(m, n)) * rng.choice([0.5, 3.0])
        b = data.targets(rng, kind, m, "labels" if kind == "log" else "real")
        f = data.make_loss(kind, A, b, 0.1)
        s = np.linalg.norm(A, 2) ** 2 / m
        L = (0.25 * s if kind == "log" else s) + 0.1
        return Objective(lambda x: float(f(x)), lambda x: f.f_grad(x)[1], L * (1 + 1e-9), n)
    if kind == "cos":       # smooth and non-convex
        w = rng.normal(size=(3, n))
        return Objective(lambda x: float(np.cos(w.dot(x)).sum()), lambda x: -w.T.dot(np.sin(w.dot(x))),
                         float(np.linalg.norm(w, 2) ** 2), n)
    if kind == "quartic":
        c = rng.normal(size=n)
        return Objective(lambda x: float(((x - c) ** 4).sum()), lambda x: 4 * (x - c) ** 3, "inf", n)
    if kind == "linear":
        c = rng.normal(size=n)
        return Objective(lambda x: float(c.dot(x)), lambda x: c.copy(), "inf", n)
    raise ValueError(kind)


def scaled(obj, c):
    """The objective c f"""
    return Objective(lambda x: c * obj.value(x), lambda x: c * obj.grad(x), obj.L if obj.L == "inf" else c * obj.L, obj.n)


OBJECTIVES = ("quad", "indef", "rankdef", "log", "square", "huber", "cos", "quartic", "linear")


# ------------------------------------------------------------------------------------------------- sets


class Domain:
    """A set with its oracle, the record the specification knows it by, and feasible starting points."""

    def __init__(self, S, lmo, start, rep0=None, vertices=None):
        self.S, self.lmo, self.start, self.rep0, self.vertices = S, lmo, start, rep0, vertices

    def vertex(self, rep):
        """(id, vertex) of a representation handed out by the oracle"""
        if self.S["t"] == "l1":
            sign, i = float(rep[0]), int(rep[1])
            v = np.zeros(len(self.start))
            v[i] = self.S["r"] * sign
            return "%g:%d" % (sign, i + 1), v
        return str(int(rep)), self.vertices[int(rep)]

    def witness(self, x):
        x = np.asarray(x, dtype=float)
        if self.S["t"] == "trace":
            return gen.svdw(x, (self.S["m"], self.S["n"]))
        if self.S["t"] == "poly":
            from scipy.optimize import nnls
            V = np.array(self.vertices)
            k = 1e3
            A = np.vstack((V.T, k * np.ones(len(V))))
            try:
                return list(nnls(A, np.concatenate((x, [k])))[0])
            except Exception:  # pylint: disable=broad-except
                return [1.0] + [0.0] * (len(V) - 1)
        return gen.NOW


def polytope(rng, n, pair, cap):
    """The convex hull of random vertices; the oracle is the user's own, with its own maximum step."""
    V = [rng.normal(size=n) for _ in range(int(rng.integers(3, 7)))]
    S = {"t": "poly", "r": float(max(np.abs(v).max() for v in V)), "v": [list(v) for v in V]}

    def lmo(u, x, active_set):
        k = int(np.argmax([v.dot(u) for v in V]))
        if not pair:
            return V[k] - x, k, None, cap
        a = min(active_set, key=lambda j: V[j].dot(u))
        return V[k] - V[a], k, a, active_set[a] * cap

    k0 = int(rng.integers(len(V)))
    x0 = V[k0].copy() if pair or rng.random() < 0.5 else rng.dirichlet(np.ones(len(V))).dot(np.array(V))
    return Domain(S, lmo, x0, k0, V)


def domain(rng, kind, n, pair, r=None):
    import copt.constraint as c
    r = r or float(rng.choice([0.5, 1.0, 3.0, 20.0]))
    if kind.startswith("poly"):
        return polytope(rng, n, pair, 1.0 if kind == "poly" else float(rng.choice([0.3, 0.75])))
    if kind == "trace":
        m = 2 if n % 2 == 0 and n > 2 else 1
        shape = (2, n // 2) if m == 2 else (n, 1)
        S = {"t": "trace", "r": r, "m": shape[0], "n": shape[1]}
        x0 = np.zeros(n) if rng.random() < 0.5 else np.eye(n)[0] * r
        return Domain(S, c.TraceBall(r, shape).lmo, x0)
    if kind == "simplex":
        x0 = r * (rng.dirichlet(np.ones(n)) if rng.random() < 0.5 else np.eye(n)[rng.integers(n)])
        return Domain({"t": "simplex", "r": r}, c.SimplexConstraint(r).lmo, x0)
    S = {"t": "l1", "r": r}
    i, s = int(rng.integers(n)), float(rng.choice([-1, 1]))
    if pair:
        return Domain(S, c.L1Ball(r).lmo_pairwise, s * r * np.eye(n)[i], (s, i))
    x0 = [np.zeros(n), s * r * np.eye(n)[i], r * rng.dirichlet(np.ones(n)) * rng.choice([-1, 1], size=n)]
    return Domain(S, c.L1Ball(r).lmo, x0[rng.integers(3)])


# ------------------------------------------------------------------------------------------------ traces


class Recorder:
    """Wraps the oracle and the callback of a run and collects the events."""

    def __init__(self, dom, pair, value, grad, stop_at=None, limit=None):
        self.dom, self.pair, self.value, self.grad = dom, pair, value, grad
        self.events, self.ncb, self.stop_at = [], 0, stop_at
        self.limit = limit
        self.last = None

    def active(self, aset):
        if not self.pair:
            return []
        out = []
        for rep, w in aset.items():
            vid, v = self.dom.vertex(rep)
            out.append({"id": vid, "p": list(v), "w": float(w)})
        return out

    def lmo(self, u, x, active_set, *rest):
        ev = {"k": "lmo", "u": vec(u), "x": vec(x), "Wx": self.dom.witness(x), "f": float(self.value(x.copy())),
              "g": vec(self.grad(x.copy())), "act": self.active(active_set), "exhausted": False}
        out = self.dom.lmo(u, x, active_set, *rest)
        d, fw, away, smax = out
        ev.update(d=vec(d), smax=float(smax), fw="", away="")
        if self.pair:
            ev.update(fw=self.dom.vertex(fw)[0], away=self.dom.vertex(away)[0])
        self.events.append(ev)
        self.last = (np.array(x, dtype=float), np.array(d, dtype=float), float(smax))
        return out

    def callback(self, dl):
        self.ncb += 1
        stop = self.stop_at is not None and self.ncb == self.stop_at
        step = dl["step_size"]
        self.events.append({"k": "cb", "x": vec(dl["x"]), "Wx": self.dom.witness(dl["x"]), "ret": stop,
                            "step": float(step) if step is not None else "none"})
        return False if stop else None

    def finish(self, res, **kw):
        self.events.append(dict({"k": "ret", "x": vec(res.x), "Wx": self.dom.witness(res.x)}, **kw))


def thin(events, keep):
    """A prefix of the run (TLC time is per event): everything up to the keep-th oracle call, plus nothing else.
    Cutting a trace never makes an allowed run look wrong."""
    n = 0
    for i, e in enumerate(events):
        n += e["k"] == "lmo"
        if n > keep:
            return events[:i]
    return events


def run_fw(rng, prop, dom_kind, obj_kind, rule, pair=False, n=None, max_iter=None, tol=None, cbmode="auto",
           keep=25, jacmode="callable"):
    import copt
    n = n or int(rng.choice([1, 2, 3, 5]) if dom_kind != "trace" else rng.choice([4, 6, 8]))
    if pair and n == 1:
        n = 2
    dom = domain(rng, dom_kind, n, pair)
    obj = objective(rng, obj_kind, n)
    # the same problem in other units: a tiny objective lies below the slack of the line search
    unit = float(rng.choice([1.0, 1.0, 1e-9, 1e-5, 1e4]))
    if unit != 1:
        ob = obj
        obj = Objective(lambda x: unit * ob.value(x), lambda x: unit * ob.grad(x), ob.L if ob.L == "inf" else unit * ob.L, n)
    scale = float(rng.choice([1.0, 0.01, 30.0, 1e-8, 1e-15])) if obj.L != "inf" else float(rng.choice([1.0, 1e-4, 10.0]))
    L = None
    if rule == "DR" or (rule == "backtracking" and rng.random() < 0.7):
        L = (obj.L if obj.L != "inf" else 3.0 * unit) * scale
    tol = float(rng.choice([0.0, 1e-12, 1e-3, 0.3, 100.0])) if tol is None else tol
    tol *= float(rng.choice([1.0, unit]))
    max_iter = int(rng.choice([1, 2, 5, 40])) if max_iter is None else max_iter
    stop_at = int(rng.integers(1, 6)) if cbmode == "auto" and rng.random() < 0.3 else None
    rec = Recorder(dom, pair, obj.value, obj.grad, stop_at)
    steprule = rule
    if rule == "user":
        fr = rng.choice([0.0, 0.1, 0.5, 1.0], size=1000)
        steprule = lambda dl: float(fr[len(rec.events) % 1000] * rec.last[2])  # noqa: E731
    kw = dict(max_iter=max_iter, tol=tol, step=steprule, variant="pairwise" if pair else "vanilla")
    if L is not None:
        kw["lipschitz"] = L
    if pair:
        kw["x0_rep"] = dom.rep0
    if cbmode != "none":
        kw["callback"] = rec.callback
    if jacmode == "joint":
        fun, kw["jac"] = obj.both, True
    else:
        fun, kw["jac"] = obj.value, obj.grad
    x0 = dom.start.copy()
    exhausted = False
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        res = copt.minimize_frank_wolfe(fun, x0, rec.lmo, **kw)
        exhausted = any("Exhausted" in str(w.message) for w in ws)
    # 100 doublings are enough when the first estimate is known not to be too small for that
    if exhausted and (L is None or obj.L == "inf" or unit > 1 or L < obj.L * 2.0 ** -90):
        for e in rec.events:
            if e["k"] == "lmo":
                e["exhausted"] = True
    rec.finish(res, act=rec.active(res.active_set) if pair else [], cert=float(res.certificate),
               success=bool(res.success), nit=int(res.nit))
    Lhi = "inf"
    if rule == "backtracking" and obj.L != "inf" and unit <= 1:
        Lhi = max(2 * obj.L, L or 0.0)
    cfg = {"S": dom.S, "pair": pair, "rule": rule, "L": L if L is not None else "none", "Lhi": Lhi, "tol": tol,
           "maxit": max_iter, "ftol": 1e-10, "gtol": 1e-10, "prop": prop}
    evs = thin(rec.events, keep)
    return {"kind": "fw", "cfg": cfg, "events": evs}
