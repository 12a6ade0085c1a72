"""C16: stochastic Frank-Wolfe."""
import numpy as np
from lib import data, fw, gen, sfw, vr
from lib.core import vec

FORMATS = ("dense", "csr", "csc", "coo", "lil", "csr64", "csr-unsorted", "csr-dup", "csr-zeros", "csc-unsorted")


def replay(rng, behaviours, seeds):
    """Every sequence of batches the code draws is one of the model's; its iterates have to be the model's."""
    import copt
    configs = {}
    for bh in behaviours:
        key = repr([bh[k] for k in ("A", "b", "bs", "variant", "rule", "x0")])
        configs.setdefault(key, {})[tuple(tuple(v) for v in bh["order"])] = bh
    out = []
    ball = copt.constraint.L1Ball(1.0)
    for sub, key in enumerate(sorted(configs)):
        table = configs[key]
        bh = next(iter(table.values()))
        A = np.array([[gen.num(v) for v in r] for r in bh["A"]])
        b, x0 = (np.array([gen.num(v) for v in bh[k]]) for k in ("b", "x0"))
        D, evs, judged = len(bh["hist"]), [], 0
        for seed in range(seeds):
            rec = sfw.Recorder(fw.Domain({"t": "l1", "r": 1.0}, ball.lmo, x0), False, lambda p, y: p - y, b)
            np.random.seed(seed)
            xs = []

            def callback(dl, rec=rec, xs=xs):
                before = rec.n
                rec.callback(dl)
                if rec.n > before:
                    xs.append(vec(dl["x"]))

            kw = {"lipschitz": 4.0} if bh["rule"] == "DR" else {}
            copt.minimize_sfw(rec.deriv, A, b, x0.copy(), rec.lmo, batch_size=bh["bs"], step_size=bh["rule"],
                              max_iter=D * bh["bs"] // 3 if bh["bs"] == 1 else D, tol=0.0, variant=bh["variant"],
                              callback=callback, **kw)
            order = tuple(tuple(sorted(v)) for v in rec.batches)
            known = order in table
            evs.append({"k": "match", "what": "sfw-order", "want": [1.0], "got": [float(known)], "tol": 0.0})
            if not known:
                break
            if table[order]["tie"]:
                continue
            judged += 1
            evs += [{"k": "match", "what": "sfw-iterate", "want": w, "got": g, "tol": 1e-11}
                    for w, g in zip(table[order]["hist"], xs)]
        out.append(gen.fn_trace(evs, sub=sub))
    return out


def run(ctx):
    ctx.mc("MC_StochFW", ctx.scale("MC_StochFW.cfg", "MC_StochFW_big.cfg"))
    spec = ctx.generate("MC_StochFW", "MC_StochFW_gen.cfg", workers=8)
    ctx.replayed = len(spec)
    cases, k = [("replay", replay, dict(behaviours=spec, seeds=ctx.scale(60, 300)))], 0
    for rep in range(ctx.scale(1, 8)):
        for variant in sfw.VARIANTS:
            for rule in ("sublinear", "DR", "user"):
                for dom in ("l1", "simplex", "trace", "poly", "polycap", "l1-pair", "poly-pair", "polycap-pair"):
                    for loss in ("square", "log", "huber", "hinge"):
                        k += 1
                        pair = dom.endswith("-pair")
                        mat = data.MATS[(7 * k) % len(data.MATS)]
                        cases.append(("%s-%s-%s-%s-%d" % (variant, rule, dom, loss, rep), sfw.run_sfw,
                                      dict(prop="C16", variant=variant, loss=loss, mat=mat,
                                           dom_kind=dom.replace("-pair", ""), rule=rule, pair=pair,
                                           fmt=FORMATS[k % 10], keep=ctx.scale(25, 60))))
    for rep in range(ctx.scale(1, 6)):
        for i, variant in enumerate(sfw.VARIANTS):
            for j, (mat, dom, long) in enumerate((("gauss", "l1", 60), ("gauss", "poly-pair", 60), ("broad", "l1", 4),
                                                  ("broad", "simplex", 4), ("broad", "l1-pair", 4))):
                pair = dom.endswith("-pair")
                cases.append(("long-%s-%s-%s-%d" % (variant, mat, dom, rep), sfw.run_sfw,
                              dict(prop="C16", variant=variant, loss=("square", "log", "huber", "hinge")[(i + j + rep) % 4],
                                   mat=mat, dom_kind=dom.replace("-pair", ""), pair=pair, fmt=FORMATS[(5 * i + j) % 10],
                                   rule=("sublinear", "DR", "user")[(i + j) % 3], keep=150, long=long)))
    for rep in range(ctx.scale(1, 6)):
        for fmt in ("csr", "csc", "coo"):
            cases.append(("wide-sfw-%s-%d" % (fmt, rep), vr.spread, dict(method="sfw", fmt=fmt)))
    ctx.validate(ctx.run_cases(cases))
