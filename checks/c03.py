"""C03: Frank-Wolfe progress, certificate and stopping."""
from lib import fw
from checks.c01 import configurations, extended


def run(ctx):
    ctx.mc("MC_FrankWolfe", "MC_FrankWolfe_vanilla.cfg")
    cases = configurations(ctx, "C03", ctx.scale(2, 20))
    for rep in range(ctx.scale(2, 20)):
        for ob in fw.OBJECTIVES:
            for dom in ("l1", "simplex", "trace", "poly"):
                # tolerances that are reached, long budgets; gradient given jointly with the value
                cases.append(("tol-%s-%s-%d" % (dom, ob, rep), fw.run_fw,
                              dict(prop="C03", dom_kind=dom, obj_kind=ob, rule="backtracking", max_iter=60, tol=1e-2,
                                   cbmode="none", jacmode="joint", keep=60)))
        # line searches that meet maximum steps below one
        for ob in ("quad", "indef", "square", "huber", "cos", "quartic"):
            for dom, pair in (("l1", True), ("poly", True), ("polycap", True), ("polycap", False)):
                for k in range(2):
                    cases.append(("cap-%s-%s-%d-%d" % (dom + "-pair" * pair, ob, k, rep), fw.run_fw,
                                  dict(prop="C03", dom_kind=dom, obj_kind=ob, rule="backtracking", max_iter=30, tol=0.0,
                                       cbmode="none", pair=pair, n=5, keep=30)))
    cases += extended(ctx, "C03", ctx.scale(1, 6))
    ctx.validate(ctx.run_cases(cases))
