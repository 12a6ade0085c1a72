"""Inputs and witnesses used by several checks."""
import numpy as np

NOW = {"ok": False}   # no witness

MODES = ("normal", "ints", "zeros", "equal", "huge", "tiny", "mixed", "sparse", "negative", "positive", "ramp",
         "alternating", "dup", "halves")
# entries so large that a radius or weight of ordinary size is lost next to them
GIANT = ("giant", "giantdup", "giantone")


def vector(rng, n, mode):
    if mode == "normal":
        x = rng.normal(size=n)
    elif mode == "ints":
        x = rng.integers(-3, 4, size=n).astype(float)
    elif mode == "zeros":
        x = np.zeros(n)
    elif mode == "equal":
        x = np.full(n, float(rng.choice([-2.5, 0.5, 3.0, 1.0 / 3])))
    elif mode == "huge":
        x = rng.normal(size=n) * 1e6
    elif mode == "tiny":
        x = rng.normal(size=n) * 1e-7
    elif mode == "mixed":
        x = rng.normal(size=n) * 10.0 ** rng.integers(-4, 5, size=n)
    elif mode == "sparse":
        x = rng.normal(size=n) * (rng.random(n) < 0.3)
    elif mode == "negative":
        x = -np.abs(rng.normal(size=n)) - 0.1
    elif mode == "positive":
        x = np.abs(rng.normal(size=n)) + 0.1
    elif mode == "ramp":
        x = np.arange(n, dtype=float) * float(rng.choice([-1.0, 0.5, 2.0]))
    elif mode == "alternating":
        x = np.array([(-1.0) ** k * (1 + k % 3) for k in range(n)])
    elif mode == "dup":
        x = rng.choice(np.array([-1.5, -0.25, 0.75, 2.0]), size=n)
    elif mode == "halves":
        x = rng.integers(-8, 9, size=n) / 2.0
    elif mode == "vast":
        x = rng.normal(size=n) * 10.0 ** rng.integers(-200, 200, size=n)
    elif mode == "minute":
        x = rng.normal(size=n) * 1e-250
    elif mode == "close":
        x = 1.5 * (1 + rng.integers(-9, 10, size=n) * 1e-10) * rng.choice([-1, 1], size=n)
    elif mode == "giant":
        x = rng.normal(size=n) * 1e18
    elif mode == "giantdup":
        x = rng.choice(np.array([-3e17, 3e17, 5.0]), size=n)
    elif mode == "giantone":
        x = rng.normal(size=n)
        x[rng.integers(n)] = 1e20 * rng.choice([-1, 1])
    else:
        raise ValueError(mode)
    return np.asarray(x, dtype=float)


def svdw(x, shape):
    """SVD of the matrix x as a witness (ok is False if x is not a matrix of numbers of that shape)."""
    try:
        M = np.asarray(x, dtype=float).reshape(shape)
        if not np.isfinite(M).all():
            return {"ok": False}
        U, s, Vt = np.linalg.svd(M, full_matrices=False)
        return {"ok": True, "U": U, "s": s, "V": Vt.T.copy()}
    except Exception:  # pylint: disable=broad-except
        return {"ok": False}


def fn_trace(events, cfg=None, **kw):
    return dict({"kind": "fn", "cfg": cfg or {"none": 0}, "events": events}, **kw)


def spd(rng, n, cond=10.0):
    Q, _ = np.linalg.qr(rng.normal(size=(n, n)))
    return (Q * np.geomspace(1.0, cond, n)).dot(Q.T)


def num(s):
    """A rational string of the specification as a float."""
    p, _, q = s.partition("/")
    return int(p, 16) / int(q or "1", 16)


def random_groups(rng, n, kind):
    """Contiguous increasing groups of 0..n-1, with features left out in the given places."""
    if kind == "all":
        cuts = [0] + sorted(rng.choice(np.arange(1, n), size=min(n - 1, int(rng.integers(0, 4))), replace=False)) + [n] \
            if n > 1 else [0, 1]
        return [list(range(a, b)) for a, b in zip(cuts[:-1], cuts[1:]) if b > a]
    if kind == "singletons":
        return [[j] for j in range(n)]
    if kind == "one":
        return [list(range(n))]
    out, j = [], 0
    while j < n:
        k = int(rng.integers(1, 4))
        if rng.random() < 0.6:
            out.append(list(range(j, min(n, j + k))))
        j += k
    return out or [[n - 1]]


def one_based(groups):
    return [[int(j) + 1 for j in g] for g in groups]


def as_ints(rng, x):
    """An integer array near x"""
    x = np.nan_to_num(np.asarray(x, dtype=float))
    top = np.abs(x).max() if x.size else 0
    x = x * 9 / top if top > 50 or 0 < top < 1 else x
    return np.round(x).astype((np.int64, np.int32)[rng.integers(2)])
