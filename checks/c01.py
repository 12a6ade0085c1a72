"""C01: Frank-Wolfe stays feasible and moves by admissible steps."""
from lib import fw

RULES = ("backtracking", "DR", "sublinear", "user")


def configurations(ctx, prop, reps, **kw):
    cases = []
    for rep in range(reps):
        for rule in RULES:
            for i, ob in enumerate(fw.OBJECTIVES):
                doms = ("l1", "simplex", "trace", "poly", "polycap")
                for dom in doms:
                    cases.append(("fw-%s-%s-%s-%d" % (dom, ob, rule, rep), fw.run_fw,
                                  dict(prop=prop, dom_kind=dom, obj_kind=ob, rule=rule, **kw)))
                for dom in ("l1", "poly", "polycap"):
                    cases.append(("pair-%s-%s-%s-%d" % (dom, ob, rule, rep), fw.run_fw,
                                  dict(prop=prop, dom_kind=dom, obj_kind=ob, rule=rule, pair=True, **kw)))
    return cases


def extended(ctx, prop, reps, pairs=(False, True)):
    """Long runs, and runs in many dimensions: behaviour that sets in late or with size."""
    cases = []
    for rep in range(reps):
        for i, rule in enumerate(RULES):
            for dom, pair in (("l1", False), ("simplex", False), ("trace", False), ("polycap", False),
                              ("l1", True), ("poly", True)):
                if pair not in pairs:
                    continue
                j = len(cases)
                common = dict(prop=prop, dom_kind=dom, rule=rule, pair=pair, tol=0.0, cbmode="none")
                cases.append(("long-%d-%s-%d" % (j, rule, rep), fw.run_fw, dict(
                    common, obj_kind=("quad", "huber", "log", "cos", "rankdef")[(i + j) % 5],
                    n=4 if dom == "trace" else 3, max_iter=250, keep=250)))
                cases.append(("wide-%d-%s-%d" % (j, rule, rep), fw.run_fw, dict(
                    common, obj_kind=("square", "quad", "indef", "log")[(i + j) % 4],
                    n=80, max_iter=10, keep=10)))
    return cases


def run(ctx):
    ctx.mc("MC_FrankWolfe", ctx.scale("MC_FrankWolfe_rules.cfg", "MC_FrankWolfe_rules_big.cfg"))
    ctx.mc("MC_FrankWolfe", "MC_FrankWolfe_vanilla.cfg")
    cases = configurations(ctx, "C01", ctx.scale(2, 20))
    cases += extended(ctx, "C01", ctx.scale(1, 6))
    ctx.validate(ctx.run_cases(cases))
