"""Loads of data sets in processes of their own, from a local stand-in for the network, stopped at given points."""
import bz2
import email.message
import gc
import hashlib
import http.client
import importlib
import io
import json
import os
import resource
import shutil
import signal
import sys
import tarfile
import tempfile
import time
import urllib.error
import urllib.request
import urllib.response
import numpy as np
from scipy import sparse

TAR = ("madelon", "rcv1", "gisette", "covtype", "news20")
SPLIT = ("madelon", "rcv1", "gisette")
MD5 = {"url": "83673b8f4224c81968af2fb6022ee487", "kdd10": "bc5b630fef6989c2f201039fef497e14",
       "kdd12": "c6fc57735c3cf687dd182d60a7b51cda", "criteo": "d852b491d1b3afa26c1e7b49594ffc3e"}
FILE = {"url": "url_combined.bz2", "kdd10": "kddb.bz2", "kdd12": "kdd12.bz2", "criteo": "criteo.kaggle2014.svm.tar.gz"}
real_md5 = hashlib.md5


def rows(X, y):
    """The samples of a data set, one string each"""
    X = sparse.csr_matrix(X).toarray()
    return [hashlib.sha1((",".join("%d:%r" % (j, float(v)) for j, v in enumerate(r) if v) + "|%r" % float(t)).encode())
            .hexdigest()[:12] for r, t in zip(X, np.asarray(y, dtype=float))]


def tarball(files):
    buf = io.BytesIO()
    with tarfile.open(fileobj=buf, mode="w:gz") as tar:
        for name, content in files:
            info = tarfile.TarInfo(name)
            if content is None:
                info.type, info.mode = tarfile.DIRTYPE, 0o755
                tar.addfile(info)
            else:
                info.size = len(content)
                tar.addfile(info, io.BytesIO(content))
    return buf.getvalue()


def npy(a):
    buf = io.BytesIO()
    np.save(buf, a)
    return buf.getvalue()


def random_split(rng, n, d, density=0.5, last=True):
    A = np.round(rng.normal(size=(n, d)), 2) * (rng.random((n, d)) < density)
    A[0, 0] = 1.25
    A[:, -1] = 0.0 if not last else A[:, -1]
    if last:
        A[rng.integers(n), -1] = -2.5
    else:
        A[0, -2] = 3.5
    y = rng.integers(0, 2, size=n).astype(float)
    return sparse.csr_matrix(A), y


class World:
    """The archives that the stand-in for the network serves, and what they contain"""

    def __init__(self, rng, big=False):
        self.served, self.cfg = {}, {}
        for name in TAR:
            n, d = (120, 14) if big else (int(rng.integers(2, 6)), int(rng.integers(3, 6)))
            lasts = [(True, True), (True, False), (False, True)][int(rng.integers(3))]
            tr, te = random_split(rng, n, d, last=lasts[0]), random_split(rng, n + 1, d, last=lasts[1])
            files = [(name, None)]
            for split, (X, y) in (("train", tr), ("test", te)):
                files += [("%s/X_%s.data.npy" % (name, split), npy(X.data)),
                          ("%s/X_%s.indices.npy" % (name, split), npy(X.indices)),
                          ("%s/X_%s.indptr.npy" % (name, split), npy(X.indptr)),
                          ("%s/y_%s.npy" % (name, split), npy(y))]
            files = [files[0]] + [files[1 + k] for k in rng.permutation(8)]
            self.served["%s.tar.gz" % name] = tarball(files)
            w = [d if lasts[k] else d - 1 for k in (0, 1)]
            self.cfg[name] = {"train": rows(*tr), "test": rows(*te), "widths": w,
                              "splits": ["train", "test", "full"] if name in SPLIT else ["train"]}
        for name in FILE:
            X, y = random_split(rng, 40 if big else 4, 5)
            if name in ("url", "kdd12"):
                lines = [" ".join(["%+d" % (2 * t - 1)] + ["%d:%r" % (j + 1, float(v)) for j, v in enumerate(r) if v])
                         for r, t in zip(X.toarray(), y)]
            else:
                lines = [" ".join(["%d" % t] + ["%d:%r" % (j + 1, float(v)) for j, v in enumerate(r) if v])
                         for r, t in zip(X.toarray(), y)]
            text = ("\n".join(lines) + "\n").encode()
            if name == "criteo":
                self.served[FILE[name]] = tarball([("criteo.kaggle2014.train.svm", text),
                                                   ("criteo.kaggle2014.test.svm", text[:50])])
            else:
                self.served[FILE[name]] = bz2.compress(text)
            self.cfg[name] = {"train": rows(X, y), "test": [], "widths": [X.shape[1], 0], "splits": ["train"]}


class Body(io.BytesIO):
    """The bytes of an answer; stops after `limit` of them"""

    def __init__(self, content, limit, how):
        super().__init__(content)
        self.limit, self.how, self.size = limit, how, len(content)

    def read(self, amt=None):
        if self.limit is None:
            return super().read(amt)
        left = max(0, self.limit - self.tell())
        if amt is None or amt < 0:
            if self.limit < self.size:
                self.fail()
                raise http.client.IncompleteRead(super().read(left))
            return super().read()
        if left == 0 and self.limit < self.size:
            self.fail()
            return b""
        return super().read(min(amt, left))

    def fail(self):
        if self.how == "kill":
            os._exit(9)
        if self.how == "interrupt":
            raise KeyboardInterrupt
        if self.how == "reset":
            raise ConnectionResetError("stand-in")


class Network(urllib.request.HTTPSHandler):
    def __init__(self, world, log, stop):
        urllib.request.AbstractHTTPHandler.__init__(self)     # without the certificates
        self.world, self.log, self.stop = world, log, stop

    def https_open(self, req):
        name = req.full_url.rsplit("/", 1)[-1]
        self.log["downloads"] += 1
        self.log["from"] = self.log["lines"]
        if name not in self.world.served:
            raise urllib.error.URLError("no such file on the stand-in: " + name)
        content = self.world.served[name]
        mode, at = self.stop or (None, None)
        limit, how = None, None
        corrupt = int(mode[11:] or 1) if mode and mode.startswith("net-corrupt") else 0
        if self.log["downloads"] <= corrupt:
            content = b"garbage" * 20 if at == 0 else content[:-8] + bytes(8)
        elif mode and mode.startswith("net-") and not corrupt:
            limit, how = int(at * len(content)), mode[4:]
            if how == "refuse":
                raise urllib.error.URLError("stand-in refuses")
        head = email.message.Message()
        head["Content-Length"] = str(len(content))
        r = urllib.response.addinfourl(Body(content, limit, how), head, req.full_url, 200)
        r.msg = "OK"
        return r

    http_open = https_open


def load(world, root, name, subset="train", stop=None, md5=None, default=False):
    """One load in a process of its own; stop: (mode, where). Returns what it did, or None if it was stopped."""
    import copt.datasets  # noqa: F401 (once, before the processes divide)
    import sklearn.datasets  # noqa: F401
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 9
        try:
            os.close(r)
            out = _child(world, root, name, subset, stop, md5, default)
            os.write(w, json.dumps(out).encode())
            code = 0
        except BaseException:  # pylint: disable=broad-except
            pass
        finally:
            os._exit(code)
    os.close(w)
    parts = []
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        parts.append(b)
    os.close(r)
    os.waitpid(pid, 0)
    return json.loads(b"".join(parts)) if parts else None


def _child(world, root, name, subset, stop, md5, default):
    signal.alarm(30)
    gc.disable()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    sys.stdout = sys.stderr = open(os.devnull, "w")
    log = {"downloads": 0, "lines": 0, "from": -1}
    tmp = os.path.join(root, "tmp")
    os.makedirs(tmp, exist_ok=True)
    tempfile.tempdir = tmp
    home = os.path.join(root, "data")
    os.environ["COPT_DATA_DIR"], os.environ["HOME"] = home, root
    urllib.request.install_opener(urllib.request.build_opener(Network(world, log, stop)))
    import copt.datasets
    mod = importlib.reload(copt.datasets)
    if name in MD5:
        good = real_md5(world.served[FILE[name]]).hexdigest()

        class Stub:
            def __init__(self, content=b"", **kw):
                self.h = real_md5(content)

            def update(self, b):
                self.h.update(b)

            def hexdigest(self):
                return MD5[name] if self.h.hexdigest() == good else self.h.hexdigest()
        hashlib.md5 = Stub
    fn = getattr(mod, "load_" + name)
    args = {}
    if name in SPLIT and not (default and subset == "full"):
        args["subset"] = subset
    if name in TAR and not default:
        args["data_dir"] = home
    if md5 is not None and name in MD5:
        args["md5_check"] = md5
    mode, at = stop or (None, None)
    source, known = os.path.realpath(mod.__file__), {}

    def local(frame, event, arg):
        if event == "line":
            log["lines"] += 1
            if mode in ("late-kill", "late-error") and log["downloads"] and not log.get("limited"):
                log["limited"] = True           # the next line after the download
                limit(mode == "late-kill", at)
            if log["lines"] == at:
                if mode == "line-kill":
                    os._exit(9)
                if mode == "line-interrupt":
                    raise KeyboardInterrupt
        return local

    def tracer(frame, event, arg):
        name = frame.f_code.co_filename
        if name not in known:
            known[name] = os.path.realpath(name) == source
        return local if known[name] else None
    if mode in ("fsize-kill", "fsize-error"):
        limit(mode == "fsize-kill", at)
    if mode is None or mode.startswith("l"):
        sys.settrace(tracer)
    out = {"done": False, "rows": [], "width": 0, "error": ""}
    try:
        X, y = fn(**args)
        sys.settrace(None)
        X = sparse.csr_matrix(X)
        out.update(done=True, rows=rows(X, y), width=int(X.shape[1]))
        if len(np.asarray(y)) != X.shape[0]:
            out["rows"] = ["samples and targets differ in number"]
    except KeyboardInterrupt:
        sys.settrace(None)
        out["error"] = "KeyboardInterrupt"
    except Exception as e:  # pylint: disable=broad-except
        sys.settrace(None)
        out["error"] = "%s: %s" % (type(e).__name__, str(e)[:200])
    out.update(log)
    return out


def limit(kill, size):
    """No file grows beyond that size: the process is killed, or gets an error, in the middle of the write"""
    signal.signal(signal.SIGXFSZ, signal.SIG_DFL if kill else signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (size, resource.RLIM_INFINITY))


class Scratch:
    """A folder with a cache, removed in the end"""

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="verif-cache-")
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


def copy(src, dst):
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(src, dst)


def event(k, subset, out, allowed=1):
    if out is None:
        out = {"done": False, "rows": [], "width": 0, "downloads": 0}
    return {"k": k, "subset": str(subset), "done": bool(out["done"]), "rows": out["rows"], "width": out["width"],
            "downloads": out["downloads"], "allowed": allowed, "error": out.get("error", "stopped")}


def elapsed(t0):
    return time.perf_counter() - t0
