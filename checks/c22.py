"""C22: the data-set cache."""
import os
import shutil
import numpy as np
from lib import cache, gen
from lib.core import vec


def trace(world, name, events, sub):
    return {"kind": "cache", "cfg": world.cfg[name], "events": events, "sub": sub}


def loads(world, root, name, evs, order, **kw):
    for s in order:
        allowed = 2 if kw.get("stop") else 1
        evs.append(cache.event("load", s, cache.load(world, root, name, s, **kw), allowed))


def subsets(rng, name):
    return list(rng.permutation(["train", "test", "full"])) if name in cache.SPLIT else ["train"]


def measure(world, name, subset):
    """Number of source lines of a load from scratch, and the line at which it downloads"""
    with cache.Scratch() as root:
        out = cache.load(world, root, name, subset)
        return out["lines"], max(out["from"], 0)


def plain(rng, name):
    """Loads in every order, the second time from the cache; unknown splits; the cache in other places"""
    out = []
    world = cache.World(rng)
    for sub in range(3):
        with cache.Scratch() as root:
            evs = []
            if name in cache.SPLIT:
                for s in ("validation", "Train", "", "all"):
                    evs.append(cache.event("load", s, cache.load(world, root, name, s)))
            md5 = [None, False, True][sub]
            order = subsets(rng, name)
            loads(world, root, name, evs, order, md5=md5)
            loads(world, root, name, evs, order + order[:1], md5=md5)
            if name in cache.SPLIT:
                evs.append(cache.event("load", "other", cache.load(world, root, name, "other")))
            shutil.rmtree(os.path.join(root, "data"))
            evs.append({"k": "lose"})
            loads(world, root, name, evs, order[::-1], md5=md5, default=True)
            loads(world, root, name, evs, order, default=True)
            out.append(trace(world, name, evs, sub))
    return out


def stops(rng, name, modes, part, parts, big):
    """A load stopped at every point in turn, then loads of all splits (and before: nothing or a stopped load)"""
    out = []
    world = cache.World(rng, big)
    archive = world.served[cache.FILE.get(name, name + ".tar.gz")]
    for mode in modes:
        first = subsets(rng, name)[0]
        lines, start = measure(world, name, first)
        if mode.startswith("line"):
            points = range(1, lines + 1)
        elif mode.startswith(("fsize", "late")):
            sizes = [0, 1, 64, 100, 127, 128, 129, 140, 150, 160, 200, 300, 500, 1000, 2000, 4000, 5000, 5001, 6000, 8000,
                     len(archive) // 2, len(archive) - 1]
            points = sorted(set(sizes))
        else:
            points = [0.0, 0.1, 0.3, 0.5, 0.7, 0.9, 0.99, 1 - 1.0 / len(archive)]
        for n, p in enumerate(points):
            if n % parts != part:
                continue
            with cache.Scratch() as root:
                evs = []
                md5 = [None, False][n // parts % 2]
                order = subsets(rng, name)
                evs.append(cache.event("stop", first, cache.load(world, root, name, first, stop=(mode, p), md5=md5)))
                if n % 3 == 1:          # stopped again, somewhere else
                    q = ("line-kill", int(rng.integers(1, lines + 1)))
                    evs.append(cache.event("stop", order[0], cache.load(world, root, name, order[0], stop=q, md5=md5)))
                loads(world, root, name, evs, order, md5=md5)
                loads(world, root, name, evs, order[:1], md5=md5)
                out.append(trace(world, name, evs, len(out)))
    return out


def networks(rng, name):
    """Loads during which the network fails or delivers something else, then proper ones"""
    out = []
    world = cache.World(rng)
    for mode in ("net-cut", "net-reset", "net-refuse", "net-kill", "net-interrupt", "net-corrupt", "net-corrupt2", "net-corrupt4"):
        for p in (0.0, 0.4, 0.95):
            with cache.Scratch() as root:
                evs = []
                order = subsets(rng, name)
                if mode.startswith("net-corrupt"):
                    if name not in cache.MD5 or p > 0.5:
                        continue
                    # the check sum is there to find this out
                    evs.append(cache.event("load", "train", cache.load(world, root, name, stop=(mode, p), md5=True),
                                           1 + int(mode[11:] or 1)))
                else:
                    evs.append(cache.event("bad", order[0], cache.load(world, root, name, order[0], stop=(mode, p))))
                loads(world, root, name, evs, order)
                loads(world, root, name, evs, order)
                out.append(trace(world, name, evs, len(out)))
    return out


def replay(rng, histories, name):
    """The model's histories of loads and interruptions"""
    out = []
    world = cache.World(rng)
    lengths = {}
    for n, h in enumerate(histories):
        with cache.Scratch() as root:
            evs = []
            for step in h:
                s = step["sub"]
                if step["op"] == "load":
                    evs.append(cache.event("load", s, cache.load(world, root, name, s)))
                    continue
                if s not in lengths:
                    lengths[s] = measure(world, name, s)
                total, start = lengths[s]
                at = step["at"]
                # lines before the download, the download, lines of the extraction, lines of the reading
                if at == 0:
                    stop = ("line-kill", 1 + int(rng.integers(start or 1)))
                elif at in (1, 2):
                    stop = ("net-kill", at / 2.0 - 0.5)
                else:
                    span = total - start
                    stop = (("line-kill", "line-interrupt")[int(rng.integers(2))],
                            start + 1 + int((at - 3 + rng.random()) / 9.0 * span))
                evs.append(cache.event("stop", s, cache.load(world, root, name, s, stop=stop)))
            loads(world, root, name, evs, subsets(rng, name))
            out.append(trace(world, name, evs, n))
    return out


def image(rng):
    """The sample image that comes with the package"""
    import copt
    from copt.datasets import load_img1
    grid = np.loadtxt(os.path.join(os.path.dirname(copt.__file__), "data", "img1.csv"), delimiter=",")
    n = int(np.sqrt(grid.size))
    evs = [{"k": "match", "what": "image-at-native-size", "want": vec(grid), "got": vec(load_img1(n, n)), "tol": 1e-6}]
    for r, c in [(20, 20), (1, 1), (1, 9), (9, 1), (n, 3), (2 * n, n)] + [tuple(rng.integers(1, 40, size=2)) for _ in range(6)]:
        img = load_img1(int(r), int(c))
        evs.append({"k": "match", "what": "image-shape", "want": [float(r), float(c)],
                    "got": [float(v) for v in img.shape], "tol": 0.0})
    evs.append({"k": "match", "what": "image-default-shape", "want": [20.0, 20.0],
                "got": [float(v) for v in load_img1().shape], "tol": 0.0})
    return gen.fn_trace(evs)


def run(ctx):
    ctx.mc("MC_DataCache", ctx.scale("MC_DataCache.cfg", "MC_DataCache_big.cfg"))
    hs = ctx.generate("MC_DataCache", "MC_DataCache_gen.cfg")
    rng = np.random.default_rng([ctx.seed, 22])
    pick = [hs[i] for i in sorted(rng.permutation(len(hs))[:ctx.scale(240, 6000)])]
    ctx.replayed = len(pick)
    cases = []
    k = ctx.scale(16, 120)
    for i in range(k):
        cases.append(("replay-%d" % i, replay, dict(histories=pick[i::k], name=cache.SPLIT[i % 3])))
    cases.append(("image", image, {}))
    names = list(cache.TAR) + list(cache.FILE)
    for n in names:
        cases.append(("plain-%s" % n, plain, dict(name=n)))
        cases.append(("network-%s" % n, networks, dict(name=n)))
        for mode in ("line-kill", "line-interrupt", "fsize-kill", "fsize-error", "late-kill", "late-error",
                     "net-kill"):
            # the five data sets in tar archives share their loader
            parts = ctx.scale(1 if n in cache.FILE else 3 if n == "madelon" else 6, 3)
            for p in range(parts) if n in tuple(cache.FILE) + ("madelon",) or not ctx.quick else [cache.TAR.index(n) - 1]:
                for big in ctx.scale((n == "madelon",), (False, True)):
                    cases.append(("%s-%s-%s-%d" % (mode, n, big, p), stops,
                                  dict(name=n, modes=[mode], part=p, parts=parts, big=big)))
    ctx.validate(ctx.run_cases(cases))
