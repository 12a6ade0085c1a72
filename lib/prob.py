"""Penalties and sets as proximal terms of the deterministic solvers."""
import numpy as np
from lib import gen


class Term:
    """A proximable function: prox(x, step), value(x) (None if not known) and its record for the specification."""

    def __init__(self, prox, value, P, lip=None):
        self.prox, self.value, self.P, self.lip = prox, value, P, lip


def term(rng, kind, n):
    import copt.penalty as pe
    import copt.constraint as co
    a = float(rng.choice([0.05, 0.3, 1.0]))
    if kind == "none":
        return Term(None, lambda x: 0.0, {"t": "zero", "a": 0.0})
    if kind == "l1":
        p = pe.L1Norm(a)
        return Term(p.prox, p, {"t": "l1", "a": a})
    if kind == "group":
        groups = gen.random_groups(rng, n, "all")
        p = pe.GroupL1(a, groups)
        return Term(p.prox, p, {"t": "group", "a": a, "g": gen.one_based(groups)})
    if kind == "fused":
        p = pe.FusedLasso(a)
        return Term(p.prox, p, {"t": "tv", "a": a})
    r = float(rng.choice([0.5, 1.0, 4.0]))
    if kind == "l1ball":
        c = co.L1Ball(r)
        return Term(c.prox, lambda x: 0.0 if np.abs(x).sum() <= r * (1 + 1e-12) + 1e-12 else None, {"t": "set-l1", "r": r})
    if kind == "l2ball":
        c = co.L2Ball(r)
        return Term(c.prox, lambda x: 0.0 if np.linalg.norm(x) <= r * (1 + 1e-12) + 1e-12 else None, {"t": "set-l2", "r": r})
    if kind == "box":
        c = co.LinfBall(r)
        return Term(c.prox, lambda x: 0.0 if np.abs(x).max() <= r * (1 + 1e-12) + 1e-12 else None, {"t": "set-linf", "r": r})
    if kind == "simplex":
        c = co.SimplexConstraint(r)
        return Term(c.prox, lambda x: 0.0 if x.min() > -1e-12 and abs(x.sum() - r) < 1e-11 * r else None,
                    {"t": "set-simplex", "r": r})
    if kind == "nonneg":       # the user's own
        return Term(lambda x, s: np.maximum(x, 0), lambda x: 0.0 if x.min() >= 0 else None, {"t": "nonneg"})
    if kind == "ridge":        # the user's own: a/2 |x|^2
        return Term(lambda x, s: x / (1 + s * a), lambda x: 0.5 * a * float(x.dot(x)), {"t": "ridge", "a": a})
    raise ValueError(kind)


TERMS = ("none", "l1", "group", "fused", "l1ball", "l2ball", "box", "simplex", "nonneg", "ridge")
