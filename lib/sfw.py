"""Recorder of the stochastic Frank-Wolfe solver (spec/StochFW.tla)."""
import numpy as np
from lib import data, fw
from lib.core import vec

VARIANTS = ("SAG", "SAGA", "MHK", "LF")


class Recorder:
    """Puts the events of a run together from the derivative, the oracle, the step rule and the callback."""

    def __init__(self, dom, pair, deriv, b, steps=None, keep=40):
        self.dom, self.pair, self._deriv, self.keep = dom, pair, deriv, keep
        self.number = {float(v): i + 1 for i, v in enumerate(b)}
        self.helper = fw.Recorder(dom, pair, lambda x: 0.0, lambda x: x)
        self.steps = steps
        self.events, self.n, self.batches = [], 0, []
        self.clear()

    def clear(self):
        self.batch, self.p, self.queries, self.gr = [], [], [], (0.0, 0.0)

    def deriv(self, p, y):
        p, y = np.asarray(p), np.asarray(y)
        self.batch += [self.number.get(float(v), 0) for v in np.atleast_1d(y)]
        self.p += list(np.atleast_1d(p))
        return self._deriv(p, y)

    def lmo(self, u, x, act, *rest):
        full = self.n < self.keep
        if full:
            q = {"u": vec(u), "x": vec(x), "act": self.helper.active(act)}
        d, fwv, away, smax = out = self.dom.lmo(u, x, act, *rest)
        if full:
            q.update(d=vec(d), smax=float(smax), fw="", away="")
            if self.pair:
                q.update(fw=self.dom.vertex(fwv)[0], away=self.dom.vertex(away)[0])
            self.queries.append(q)
            self._act = act
        return out

    def step(self, dl):
        self.gr = self.steps[self.n % len(self.steps)]
        return self.gr

    def callback(self, dl):
        x = dl["x"]
        if not self.batch and not self.queries:
            if not self.n:
                self.events.append({"k": "cb0", "x": vec(x)})
            return
        if self.n < self.keep:
            self.events.append({
                "k": "step", "batch": self.batch, "p": vec(np.array(self.p)), "asked": len(self.queries),
                "q": self.queries[-1] if self.queries else {"none": 0}, "g": float(self.gr[0]),
                "r": float(self.gr[1]), "x": vec(x), "Wx": self.dom.witness(x),
                "act": self.helper.active(self._act) if self.pair else []})
        self.n += 1
        self.batches.append(self.batch)
        self.clear()


def problem(rng, loss, mat, n=None, d=None):
    """Data with distinct targets, so that samples can be told apart"""
    A0 = data.matrix(rng, mat, n, d)
    if loss == "log" and mat == "big":
        A0 = A0 * 0.02
    n = len(A0)
    b = rng.permutation(n) / float(max(n - 1, 1)) if loss == "log" else rng.normal(size=n) * rng.choice([1.0, 10.0])
    if loss == "huber":
        return A0, b, lambda p, y: np.clip(p - y, -1.0, 1.0)
    if loss == "hinge":
        return A0, b, lambda p, y: np.minimum(p - y, 0.0)
    return A0, b, data.make_loss(loss, A0, b, 0.0).partial_deriv


def config(rec, prop, variant, loss, A0, b, pair, rule, bs, L, x0, tol, maxit):
    return {"variant": variant, "F": data.floss(loss, A0, b, 0.0), "S": rec.dom.S, "pair": pair, "rule": rule, "bs": bs,
            "L": L if L is not None else "none", "x0": vec(x0), "act0": [], "tol": float(tol), "maxit": int(maxit),
            "ftol": 1e-10, "prop": prop}


def run_sfw(rng, prop, variant, loss, mat, dom_kind, rule, pair, fmt, keep=40, long=None):
    import copt
    A0, b, deriv = problem(rng, loss, mat)
    if dom_kind == "trace":
        A0, b, deriv = problem(rng, loss, "gauss", d=4)
    n, d = A0.shape
    if pair and d == 1:
        return None
    dom = fw.domain(rng, dom_kind, d, pair)
    bs = int(rng.integers(1, n + 1))
    if rng.random() < 0.3:
        bs = n
    if rng.random() < 0.3:
        bs = 1
    L = None
    if rule == "DR":
        L = (max(float(np.linalg.norm(A0, 2)) ** 2 / n, 1e-9)) * float(rng.choice([1.0, 0.05, 20.0]))
    steps = [(float(rng.choice([0.0, 0.1, 0.5, 0.9, 1.0, 3.0])), float(rng.choice([0.1, 0.5, 1.0]))) for _ in range(97)]
    rec = Recorder(dom, pair, deriv, b, steps, keep)
    maxit = long or int(rng.choice([1, 3, 12]))
    tol = 0.0 if long else float(rng.choice([0.0, 1e-6, 0.1, 1.0]))
    x0 = dom.start.copy()
    kw = dict(batch_size=bs, step_size=rec.step if rule == "user" else rule, max_iter=maxit, tol=tol,
              variant=variant, callback=rec.callback)
    if L is not None:
        kw["lipschitz"] = L
    if pair:
        kw.update(lmo_variant="pairwise", x0_rep=dom.rep0)
    res = copt.minimize_sfw(rec.deriv, data.store(rng, A0, fmt), b, x0, rec.lmo, **kw)
    evs = rec.events
    if rec.n <= rec.keep:
        evs = evs + [{"k": "ret", "x": vec(res.x), "success": bool(res.success)}]
    return {"kind": "sfw", "cfg": config(rec, prop, variant, loss, A0, b, pair, rule, bs, L, x0, tol, maxit),
            "events": evs}
