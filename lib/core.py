"""Machinery shared by the checks: recording cases, running TLC, verdicts, evidence.

A check
  1. model-checks the design-level modules of /verif/spec that its property rests on (``ctx.mc``),
  2. asks TLC for behaviours / cases of the specification and replays them into the code (``ctx.generate``),
  3. records what the code does on generated inputs (``ctx.run_cases``) and hands the recorded traces to TLC,
     which decides with spec/Conformance.tla whether each is a behaviour of the specification.
The verdict is always TLC's; Python only drives the code and encodes what it saw.
"""
import json
import multiprocessing
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings
import zlib
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)

import numpy as np  # noqa: E402

from lib import assumptions  # noqa: E402


class MachineryError(Exception):
    """The check itself failed: neither 'holds' nor 'violated'."""


# ----------------------------------------------------------------------------------------------- encoding


def rat(x):
    """A number as the rational string of Rat.tla (exact)."""
    if isinstance(x, Fraction):
        p, q = x.numerator, x.denominator
    else:
        x = x.item() if isinstance(x, np.generic) else x
        if isinstance(x, complex):
            return "complex"
        if isinstance(x, float):
            if x != x:
                return "nan"
            if x in (float("inf"), float("-inf")):
                return "inf" if x > 0 else "-inf"
        try:
            p, q = x.as_integer_ratio()
        except AttributeError:
            return "not-a-number:" + type(x).__name__
    s = ("-" if p < 0 else "") + format(abs(p), "x")
    return s if q == 1 else s + "/" + format(q, "x")


def enc(o):
    """JSON-able form: Python ints/bools/strings stay, every other number becomes a rational string."""
    if o is None:
        return "none"
    if isinstance(o, (bool, str)):
        return o
    if isinstance(o, int):
        if not -(2 ** 31) < o < 2 ** 31:
            raise MachineryError("integer too large for TLC: %r" % o)
        return o
    if isinstance(o, np.bool_):
        return bool(o)
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return [enc(v) for v in o]
        if o.ndim == 0:
            return rat(o[()])
        return [enc(v) for v in o] if o.ndim > 1 else [rat(v) for v in o]
    if isinstance(o, (float, np.generic, Fraction)):
        return rat(o)
    if isinstance(o, dict):
        return {k: enc(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [enc(v) for v in o]
    raise MachineryError("cannot encode %r" % type(o))


def vec(x):
    """A numeric array of any kind (or a wrongly typed result) as a flat vector; never raises."""
    try:
        a = np.asarray(x, dtype=float) if not isinstance(x, np.ndarray) else x
        return [rat(v) for v in np.asarray(a).ravel()]
    except Exception:  # pylint: disable=broad-except
        return "not-an-array:" + type(x).__name__


# -------------------------------------------------------------------------------------------- running TLC

_CLASSES = None


def classes(scratch):
    """Directory with the compiled operator overrides; compiled in this run's scratch directory."""
    global _CLASSES
    if _CLASSES is None:
        out = os.path.join(scratch, "classes")
        os.makedirs(out)
        cmd = ["javac", "-nowarn", "-cp", TLA, "-d", out, os.path.join(SPEC, "java/vr/RatOverrides.java")]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise MachineryError("javac failed: " + r.stderr[-2000:])
        _CLASSES = out
    return _CLASSES


_STATES = re.compile(r"^([\d,]+) states generated, ([\d,]+) distinct states found", re.M)


class TlcResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = _STATES.findall(out)
        self.generated, self.distinct = (int(v.replace(",", "")) for v in m[-1]) if m else (0, 0)
        self.finished = "Model checking completed. No error has been found." in out or (
            "Finished in" in out and "Error:" not in out)


def tlc(scratch, module, cfg=None, env=None, workers=4, timeout=600, extra=(), heap="3g"):
    meta = tempfile.mkdtemp(prefix="meta", dir=scratch)
    cmd = [
        "java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + scratch,
        "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:vr.RatOverrides",
        "-cp", TLA + ":" + classes(scratch), "tlc2.TLC",
        "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers),
        "-config", os.path.join(SPEC, cfg or module + ".cfg"), *extra, os.path.join(SPEC, module + ".tla"),
    ]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=scratch)
    except subprocess.TimeoutExpired:
        raise MachineryError("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return TlcResult(r.returncode, r.stdout + r.stderr)


_VERDICT = re.compile(r'<<"VERDICT", (\d+), (\d+), "([^"]*)", "([^"]*)">>')


# ---------------------------------------------------------------------------------------- recording cases


class CaseTimeout(BaseException):
    pass


def _alarm(_sig, _frm):
    raise CaseTimeout()


def _run_case(job):
    idx, name, fn, kw, seed, limit = job
    rng = np.random.default_rng([seed, zlib.crc32(name.encode())])
    np.random.seed((seed * 1000003 + zlib.crc32(name.encode())) % (2 ** 32))
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                tr = fn(rng, **kw)
        traces = tr if isinstance(tr, list) else [tr]
        out = [enc(t) for t in traces if t is not None]
    except CaseTimeout:
        out = [crash("no result after %d s" % limit)]
    except MachineryError:
        raise
    except Exception as e:  # pylint: disable=broad-except
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if f.filename.startswith(REPO)]
        at = where[-1] if where else tb[-1]
        out = [crash("%s at %s:%d: %s" % (type(e).__name__, os.path.basename(at.filename), at.lineno, e))]
        out[0]["tb"] = traceback.format_exc()[-3000:]
    finally:
        signal.alarm(0)
    for k, t in enumerate(out):
        t.setdefault("case", name if len(out) == 1 else "%s#%d" % (name, t.get("sub", k)))
    return idx, out


def crash(what):
    return {"kind": "crash", "cfg": {"none": 0}, "events": [{"k": "raised", "what": what}]}


# ------------------------------------------------------------------------------------------------ context


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.states = self.transitions = self.validated = self.events = 0
        self.mc_runs, self.violations, self.known, self.samples = [], [], [], []
        self.kinds = {}
        self.assumptions = assumptions.of(prop)
        self.known_list = load_known(prop)
        self.replayed = 0

    def scale(self, quick, thorough):
        return quick if self.quick else thorough

    # -- design-level model checking

    def mc(self, module, cfg=None, workers=8, timeout=800, **kw):
        t = time.time()
        r = tlc(self.scratch, module, cfg, workers=workers, timeout=timeout, **kw)
        if not r.finished or r.rc:
            raise MachineryError("model checking of %s failed:\n%s" % (cfg or module, r.out[-4000:]))
        self.states += r.distinct
        self.transitions += r.generated
        self.mc_runs.append({"model": cfg or module, "distinct": r.distinct, "generated": r.generated,
                             "wall_s": round(time.time() - t, 1)})
        return r

    # -- behaviours generated from the specification

    def generate(self, module, cfg=None, workers=4, timeout=600, **kw):
        """JSON values printed by the module (lines "GEN" ...), in a stable order."""
        r = self.mc(module, cfg, workers=workers, timeout=timeout, **kw)
        out = []
        for line in r.out.splitlines():
            if line.startswith('<<"GEN", "'):
                out.append(json.loads('"' + line[len('<<"GEN", "'):-len('">>')] + '"'))
        out = sorted(set(out))
        return [json.loads(s) for s in out]

    # -- recorded traces

    def run_cases(self, cases, limit=100, procs=8):
        """cases: (name, function, kwargs). Runs them in worker processes; returns the encoded traces."""
        jobs = [(i, n, f, kw, self.seed, limit) for i, (n, f, kw) in enumerate(cases)]
        names = [c[0] for c in cases]
        if len(set(names)) != len(names):
            raise MachineryError("duplicate case names")
        ctx = multiprocessing.get_context("fork")
        res = {}
        sys.stdout.flush()
        with ctx.Pool(min(procs, max(1, len(jobs))), initializer=_quiet) as pool:
            for idx, out in pool.imap_unordered(_run_case, jobs, chunksize=1):
                res[idx] = out
        return [t for i in sorted(res) for t in res[i]]

    def validate(self, traces, timeout=800, workers=6, shards=1):
        """Have TLC judge the traces with Conformance.tla; records violations."""
        if not traces:
            raise MachineryError("no traces to validate")
        verdicts, part, size = {}, [], 0      # in parts that fit into TLC's memory
        for i, t in enumerate(traces):
            part.append(i)
            size += len(json.dumps(t["events"]))
            if size > 80e6 or i == len(traces) - 1:
                got = self._tlc_verdicts([traces[k] for k in part], timeout, workers)
                verdicts.update({part[k]: v for k, v in got.items()})
                part, size = [], 0
        missing = [i for i in range(len(traces)) if i not in verdicts]
        # A run stops on a value it cannot evaluate: find the traces with such values by halving.
        queue, found = [missing] if missing else [], 0
        while queue and found < 4:
            part = queue.pop()
            if len(part) == 1:
                verdicts[part[0]] = self._tlc_verdicts([traces[part[0]]], timeout, 1, strict=True)[0]
                found += verdicts[part[0]][1] == "uninterpretable-result"
                continue
            for half in (part[:len(part) // 2], part[len(part) // 2:]):
                got = self._tlc_verdicts([traces[i] for i in half], timeout, workers)
                verdicts.update({half[k]: v for k, v in got.items()})
                rest = [i for i in half if i not in verdicts]
                if rest:
                    queue.append(rest)
        for i, (l, clause, detail) in sorted(verdicts.items()):
            t = traces[i]
            self.kinds[t["kind"]] = self.kinds.get(t["kind"], 0) + 1
            self.validated += 1
            self.events += len(t["events"])
            if clause:
                self.violation(t, l, clause, detail)
            elif len(self.samples) < 4 and self.kinds[t["kind"]] == 1:
                self.samples.append(summary(t))

    def _tlc_verdicts(self, traces, timeout, workers, strict=False):
        fd, path = tempfile.mkstemp(suffix=".json", dir=self.scratch)
        with os.fdopen(fd, "w") as f:
            json.dump([{k: t[k] for k in ("kind", "cfg", "events")} for t in traces], f)
        r = tlc(self.scratch, "Conformance", heap="6g", env={"TRACES": path}, workers=workers, timeout=timeout)
        os.unlink(path)
        if not os.environ.get("VERIF_KEEP_OUT"):
            pass
        else:
            with open(os.environ["VERIF_KEEP_OUT"], "w") as f:
                f.write(r.out)
        verdicts = {}
        for m in _VERDICT.finditer(r.out):
            verdicts[int(m.group(1)) - 1] = (int(m.group(2)), m.group(3), m.group(4))
        self.states += r.distinct
        self.transitions += r.generated
        if len(verdicts) != len(traces):
            evaluation = re.search(r"(Attempted to|overridden by the Java method|evaluat|Exception)", r.out)
            if not evaluation or "Parsing or semantic analysis failed" in r.out or "OutOfMemory" in r.out:
                raise MachineryError("TLC gave no verdict:\n" + r.out[-4000:])
            if strict:
                if os.environ.get("VERIF_DEBUG"):
                    print(r.out[-3000:])
                return {0: (0, "uninterpretable-result", one_line(r.out))}
            if os.environ.get("VERIF_DEBUG"):
                print(r.out[-3000:])
        return verdicts

    # -- verdict

    def violation(self, trace, l, clause, detail):
        case = trace.get("case", "?")
        for k in self.known_list:
            if k["case"] == case and k["clause"] == clause:
                self.known.append("%s (case %s, clause %s)" % (k["what"], case, clause))
                return
        if len(self.violations) >= 200:
            return
        path = os.path.join(VERIF, "evidence", "replay-%s-%d.json" % (self.prop, len(self.violations)))
        if len(self.violations) < 10:
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as f:
                json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier, "case": case,
                           "clause": clause, "detail": detail, "event": l, "trace": trace}, f, indent=1)
        self.violations.append((case, l, clause, detail, path))

    def finish(self):
        cov = {
            "states": self.states, "transitions": self.transitions,
            "traces_validated_against_impl": self.validated,
            "events_validated": self.events, "model_checking_runs": self.mc_runs,
            "traces_by_kind": self.kinds, "samples": self.samples or ["(none)"],
        }
        if self.replayed:
            cov["spec_behaviours_replayed"] = self.replayed
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in sorted(set(self.known)):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for case, l, clause, detail, path in self.violations[:10]:
            print("violated clause %s %s in case %s, event %d" % (clause, detail, case, l))
        print("%s %s: %d traces (%d events), %d states, %.1f s" % (
            self.prop, self.tier, self.validated, self.events, self.states, time.time() - self.t0))
        if self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, self.violations[0][4]))
            return 1
        return 0

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def _quiet():
    sys.stdout = open(os.devnull, "w")
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def one_line(out):
    i = out.find("Error:")
    return re.sub(r'["\s]+', " ", out[i:i + 300]) if i >= 0 else ""


def summary(t):
    s = json.dumps({"case": t.get("case"), "kind": t["kind"], "cfg": t["cfg"], "events": t["events"][:3]})
    return s if len(s) < 3000 else s[:3000] + "..."


def load_known(prop):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"KNOWN property=(\S+) case=(\S+) clause=(\S+) :: (.*)", line)
            if m and m.group(1) == prop:
                out.append({"case": m.group(2), "clause": m.group(3), "what": m.group(4).strip()})
    return out


def main(prop, run):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = Ctx(prop, tier, seed)
    try:
        run(ctx)
        rc = ctx.finish()
    except MachineryError as e:
        print("ERROR of the check (no verdict): %s" % e)
        rc = 2
    finally:
        ctx.close()
    return rc
