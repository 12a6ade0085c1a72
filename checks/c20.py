"""C20: the Trace callback."""
import contextlib
import os
import time
import warnings
import numpy as np
from lib import runs
from lib.core import vec

SLACK = 0.005      # seconds by which two clocks of the machine may disagree


def number(v):
    a = np.asarray(v)
    return float(a) if a.ndim == 0 and a.dtype.kind in "fiu" else "no-number"


def vectors(xs):
    return [vec(x) for x in xs]


class Observer:
    """A callback that passes its calls on to a Trace and notes what the Trace has recorded"""

    def __init__(self, f, q, given=None):
        from copt.utils import Trace
        self.t0 = time.perf_counter()
        kw = {} if given is None else {"freq": given}
        self.trace = Trace(f, **kw) if f is not None else Trace(**kw)
        self.t1 = time.perf_counter()
        self.f, self.q, self.events, self.peek = f, q, [], True

    def records(self):
        t = self.trace
        return {"xs": vectors(t.trace_x), "fxs": [number(v) for v in t.trace_fx],
                "steps": [number(v) for v in t.trace_step_size], "times": [number(v) for v in t.trace_time]}

    def __call__(self, dl):
        x = np.array(dl["x"], dtype=float)
        a = time.perf_counter()
        r = self.trace(dl)
        b = time.perf_counter()
        self.events.append(dict({
            "k": "call", "x": vec(x), "fx": 0.0 if self.f is None else float(self.f(x.copy())),
            "step": number(dl["step_size"]), "lo": a - self.t1 - SLACK, "hi": b - self.t0 + SLACK,
            "ret": r is False, "seen": self.peek}, **(self.records() if self.peek else {})))
        return r

    def look(self):
        self.events.append(dict({"k": "look"}, **self.records()))

    def events_of(self, **kw):
        return dict({"kind": "rec", "cfg": {"q": self.q, "objective": self.f is not None}, "events": self.events}, **kw)


def clock(k):
    """Sets the local time (of this process) back or forth, as at the end of a summer"""
    os.environ["TZ"] = ["UTC0", "XXX-3", "XXX+5", "XXX-1"][k % 4]
    time.tzset()


@contextlib.contextmanager
def coarse_clocks():
    """Clocks that tick every millisecond (equal readings are common), and a wall clock that gets adjusted"""
    names = ("perf_counter", "monotonic", "process_time", "time")
    real, wall = {n: getattr(time, n) for n in names}, [0]

    def tick(n):
        def read():
            wall[0] += 1
            return np.floor(real[n]() * 1000) / 1000 - (3.0 * (wall[0] % 7) if n == "time" else 0.0)
        return read
    try:
        for n in names:
            setattr(time, n, tick(n))
        yield
    finally:
        for n in names:
            setattr(time, n, real[n])


def coarse(rng, behaviours):
    with coarse_clocks():
        return replay(rng, behaviours, False)


def replay(rng, behaviours, zones):
    out = []
    tz = os.environ.get("TZ")
    for n, bh in enumerate(behaviours):
        d = int(rng.integers(1, 5))
        f = (lambda x: float(x.dot(x) + 1)) if bh["objective"] else None
        ob = Observer(f, bh["q"], None if bh["q"] == 1 and n % 2 else float(bh["q"]) if n % 3 == 0 else bh["q"])
        x = rng.normal(size=d)
        try:
            for j, how in enumerate(bh["hist"]):
                if zones:
                    clock(n + j)
                ob({"x": x, "step_size": float(rng.random()), "it": j})
                if how == "inplace":
                    x += rng.normal(size=d)
                else:
                    x = x + rng.normal(size=d)
        finally:
            if zones:
                if tz is None:
                    del os.environ["TZ"]
                else:
                    os.environ["TZ"] = tz
                time.tzset()
        x *= 0
        ob.look()
        out.append(ob.events_of(sub=n))
    return out


def long(rng, n, q):
    """Many calls, looked at now and then"""
    out = []
    for sub, f in enumerate((None, lambda x: float(x.dot(x)))):
        ob = Observer(f, q, q)
        ob.peek = False
        x = rng.normal(size=2)
        for j in range(n):
            ob({"x": x, "step_size": [0.0, 1.0, float(rng.random()), None][j % 4], "it": 0})
            x += 1.0 / (j + 1)
            if j in (100, n // 2, n - 1):
                ob.look()
        out.append(ob.events_of(sub=sub))
    return out


def real(rng, index, m):
    """Attached to a solver: twice to the same one, directly and through the observer"""
    out = []
    for n, q in enumerate((1, 2, 3, 7, 1000)):
        for objective in (False, True):
            st = runs.setups(rng)[index]
            f = (lambda x: float(np.abs(x).sum() + x[0] ** 2)) if objective else None
            ob = Observer(f, q, q)
            direct = Observer(f, q, q)
            plain = []
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                ref = st.run(m, 0.0, lambda dl: plain.append(1))
                res = st.run(m, 0.0, ob)
                ob.look()
                st.run(m, 0.0, direct.trace)
                res.x *= 0
                ob.look()
                if q == 3:        # a trace that serves a second run goes on counting
                    st.run(m, 0.0, ob)
                    ob.look()
            rec = direct.records()
            if q != 3:            # the same run without the observer in between
                rec["times"] = [number(v) for v in ob.trace.trace_time]
                ob.events.append(dict({"k": "look"}, **rec))
            out.append(ob.events_of(sub=2 * n + objective))
            # attached or not, the solver makes the same run
            first = ob.events[:len(plain)]
            out.append({"kind": "fn", "cfg": {"none": 0}, "sub": 100 + 2 * n + objective, "events": [
                {"k": "match", "what": "traced-run", "want": vec(ref.x),
                 "got": [0.0] if len([e for e in first if e["k"] == "call"]) < len(plain) else
                 vec(st.run(m, 0.0, direct.trace).x), "tol": 1e-12}]})
    return out


def run(ctx):
    ctx.mc("MC_Recorder")
    bh = ctx.generate("MC_Recorder", "MC_Recorder_gen.cfg")
    ctx.replayed = len(bh)
    cases = []
    for i in range(8):
        for z in (False, True):
            for rep in range(ctx.scale(1, 4)):
                cases.append(("replay-%d-%s-%d" % (i, z, rep), replay, dict(behaviours=bh[i::8], zones=z)))
        for rep in range(ctx.scale(1, 4)):
            cases.append(("coarse-%d-%d" % (i, rep), coarse, dict(behaviours=bh[i::8])))
    for q in (1, 2, 13, 100, 999, 1000):
        cases.append(("long-%d" % q, long, dict(n=ctx.scale(1100, 12000), q=q)))
    names = [s.name for s in runs.setups(np.random.default_rng(0))]
    for rep in range(ctx.scale(1, 6)):
        for i, n in enumerate(names):
            cases.append(("real-%s-%d" % (n, rep), real, dict(index=i, m=ctx.scale(8, 25))))
    ctx.validate(ctx.run_cases(cases))
