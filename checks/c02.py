"""C02: the pairwise active set is a convex decomposition of the iterate."""
from collections import defaultdict
import numpy as np
from lib import data, fw, gen, sfw
from lib.core import vec
from checks.c01 import extended


def updates(rng, rep):
    """Long histories of direct updates: transfers, drops, re-additions, oversized steps."""
    from copt.frank_wolfe import update_active_set
    evs = []

    def snap(a):
        return [{"id": str(k), "w": float(w)} for k, w in a.items()]

    for kind in ("dyadic", "tenth", "random"):
        aset = defaultdict(float)
        aset[0] = 1.0
        for _ in range(40):
            keys = list(aset)
            away = keys[rng.integers(len(keys))]
            f = int(rng.integers(5)) if rng.random() < 0.9 else away
            w = aset[away]
            frac = {"dyadic": rng.choice([0.5, 1.0, 0.25]), "tenth": rng.choice([0.1, 0.3, 1.0]),
                    "random": rng.choice([rng.random(), 1.0])}[kind]
            g = w if frac == 1.0 else w * frac
            over = rng.random() < 0.2 and f != away
            if over:
                g = w * (1 + 10.0 ** -rng.integers(1, 6)) + 1e-6
            before, raised = snap(aset), False
            trial = defaultdict(float, aset)
            try:
                out = update_active_set(trial, f, away, g)
                after = snap(out)
                assert out is trial or out is None or dict(out) == dict(trial)
            except ValueError:
                raised, after = True, before
            evs.append({"k": "update", "before": before, "after": after, "fw": str(f), "away": str(away),
                        "g": float(g), "raised": raised})
            if not raised:
                aset = trial
    return gen.fn_trace(evs)


def replay(rng, behaviours):
    """Behaviours of MC_FrankWolfe: the objective's gradient and the step rule follow the script, and the
    recorded run must reproduce the states the specification reached."""
    import copt
    out = []
    ball = copt.constraint.L1Ball(1.0)
    for sub, h in enumerate(behaviours):
        us = [np.array([gen.num(v) for v in s["u"]]) for s in h] + [np.array([1.0, 0.5])]
        gs = [gen.num(s["g"]) for s in h]
        dom = fw.Domain({"t": "l1", "r": 1.0}, ball.lmo_pairwise, np.array([1.0, 0.0]), (1.0, 0))
        calls = [0]

        def grad(x):
            return -us[min(calls[0], len(us) - 1)]

        rec = fw.Recorder(dom, True, lambda x: 0.0, lambda x: grad(x))

        def lmo(u, x, a):
            r = rec.lmo(u, x, a)
            calls[0] += 1
            return r

        def step(dl):
            return gs[min(calls[0] - 1, len(gs) - 1)]

        res = copt.minimize_frank_wolfe(lambda x: 0.0, np.array([1.0, 0.0]), lmo, x0_rep=(1.0, 0),
                                        variant="pairwise", jac=grad, step=step, lipschitz=1.0, max_iter=len(h),
                                        tol=0.0, callback=rec.callback)
        # a zero direction (the FW vertex is the only active one) ends the run: the gap is zero
        done = sum(e["k"] == "lmo" for e in rec.events)
        rec.finish(res, act=rec.active(res.active_set), cert=float(res.certificate), success=bool(res.success),
                   nit=int(res.nit))
        cfg = {"S": dom.S, "pair": True, "rule": "user", "L": "none", "Lhi": "inf", "tol": 0.0, "maxit": len(h),
               "ftol": 1e-12, "gtol": 1e-12, "prop": "C02"}
        out.append({"kind": "fw", "cfg": cfg, "events": rec.events, "sub": sub})
        # states predicted by the specification, step by step
        evs = []
        lm = [e for e in rec.events if e["k"] == "lmo"]
        states = [(e["x"], e["act"]) for e in lm[1:]] + [(rec.events[-1]["x"], rec.events[-1]["act"])]
        early = done < len(h) or any(not np.any(np.array([gen.num(v) for v in e["d"]])) for e in lm)
        if not early:
            for s, (x, act) in zip(h, states):
                evs.append({"k": "match", "what": "pairwise-iterate", "want": s["x"], "got": x, "tol": 1e-12})
                want = {("%g:%d" % (gen.num(a["sign"]), a["i"])): a["w"] for a in s["act"]}
                got = {a["id"]: a["w"] for a in act}
                ids = sorted(set(want) | set(got))
                evs.append({"k": "match", "what": "active-set", "want": [want.get(i, "0") for i in ids],
                            "got": vec([float(got.get(i, 0.0)) for i in ids]), "tol": 1e-12})
                evs.append({"k": "match", "what": "active-set-size", "want": [float(len(want))],
                            "got": [float(len(got))], "tol": 0.0})
            out.append(gen.fn_trace(evs, sub=sub + 100000))
    return out


def run(ctx):
    ctx.mc("MC_FrankWolfe", ctx.scale("MC_FrankWolfe_rules.cfg", "MC_FrankWolfe_rules_big.cfg"))
    spec = ctx.generate("MC_FrankWolfe", ctx.scale("MC_FrankWolfe.cfg", "MC_FrankWolfe_deep.cfg"))
    ctx.replayed = len(spec)
    cases = [("replay-%d" % i, replay, dict(behaviours=spec[i::16])) for i in range(16)]
    for rep in range(ctx.scale(4, 40)):
        cases.append(("updates-%d" % rep, updates, dict(rep=rep)))
        for rule in ("backtracking", "DR", "sublinear", "user"):
            for ob in fw.OBJECTIVES:
                for dom in ("l1", "poly", "polycap"):
                    cases.append(("pair-%s-%s-%s-%d" % (dom, ob, rule, rep), fw.run_fw,
                                  dict(prop="C02", dom_kind=dom, obj_kind=ob, rule=rule, pair=True, max_iter=40,
                                       tol=1e-9, cbmode="auto", keep=40)))
        for variant in sfw.VARIANTS:
            for rule in ("sublinear", "DR", "user"):
                for dom in ("l1", "poly", "polycap"):
                    for loss in ("square", "log"):
                        cases.append(("sfw-%s-%s-%s-%s-%d" % (variant, rule, dom, loss, rep), sfw.run_sfw,
                                      dict(prop="C02", variant=variant, loss=loss, mat=str(data.MATS[len(cases) % 11]),
                                           dom_kind=dom, rule=rule, pair=True, fmt="csr", keep=40)))
    cases += extended(ctx, "C02", ctx.scale(1, 6), (True,))
    ctx.validate(ctx.run_cases(cases))
