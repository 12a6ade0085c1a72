--------------------------------- MODULE StochFW --------------------------------
(***************************************************************************)
(* Stochastic Frank-Wolfe for 1/n sum_i phi(A_i x, b_i) over a set S.      *)
(*                                                                         *)
(* State: the iterate x, a dual value per sample (dual), the aggregated    *)
(* predictions (sigma, LF only), the number t of steps taken, and the      *)
(* active set when pairwise.  agg = A' dual is the aggregated gradient.    *)
(* A step draws a batch B of b samples and, by variant,                    *)
(*   SAG   dual_B = phi'(A_B x) / n;             queries -A' dual          *)
(*   SAGA  the same dual; queries -(A' dual + (n/b - 1) A_B' (change of    *)
(*         dual_B)), which is the gradient on average over the batch       *)
(*   MHK   dual_B += rho (phi'(A_B x) / n - dual_B); queries -A' dual      *)
(*   LF    queries -A' dual first, s = x + d; sigma_B += rho (A_B s -      *)
(*         sigma_B); dual_B = phi'(sigma_B) / n                            *)
(* and moves x by the step of the rule along the direction d answered.     *)
(* The rules: "sublinear" (of the variant), "DR" (<-A' dual, d> over       *)
(* |d|^2 L, at least 0), "user"; all at most the oracle's maximum.         *)
(*                                                                         *)
(* One event per step, put together from the user's own functions:         *)
(*   batch (sample numbers, 1-based; 0 for a target that is none), p (the  *)
(*   margins at which the derivative was asked for), q (the oracle call:   *)
(*   u, x, d, smax, act, fw, away), g and r (what a callable rule          *)
(*   returned), x (the iterate the callback saw after the step), Wx, act.  *)
(***************************************************************************)
EXTENDS FrankWolfe, Losses

SfwN(cfg) == Len(cfg.F.A)
SfwRound(v) == [i \in DOMAIN v |-> RFloor(v[i], 160)]

\* c^(1/3) for 0 < c <= 1, by Newton's method from above
RECURSIVE CubeNewton(_, _, _)
CubeNewton(c, r, k) ==
  IF k = 0 THEN r
  ELSE CubeNewton(c, RFloor(RDiv(RAdd(RMul(Two, r), RDiv(c, RSqr(r))), R(3, 1)), 120), k - 1)
CubeRoot(c) == CubeNewton(c, One, 40)

\* step sizes of the variants: for the iterate, and for the average
SfwStepX(variant, t, m) ==
  CASE variant \in {"SAG", "SAGA"} -> R(2, t + 2)
    [] variant = "MHK" -> R(2, t + 8)
    [] variant = "LF"  -> RDiv(RMul(Two, RAdd(RMul(Two, m), R(t, 1))),
                               RMul(R(t + 1, 1), RAdd(RMul(R(4, 1), m), R(t, 1))))
SfwStepAgg(variant, t, m) ==
  CASE variant \in {"SAG", "SAGA"} -> One
    [] variant = "MHK" -> CubeRoot(RSqr(R(2, t + 8)))
    [] variant = "LF"  -> RDiv(RMul(Two, m), RAdd(RMul(Two, m), R(t + 1, 1)))

SfwStart(cfg) == [x |-> cfg.x0, dual |-> VZero(SfwN(cfg)),
                  sigma |-> IF cfg.variant = "LF" THEN MatVec(cfg.F.A, cfg.x0) ELSE <<>>,
                  t |-> 0, act |-> cfg.act0, last |-> "none"]

SfwAgg(cfg, dual) == MatTVec(cfg.F.A, dual, cfg.F.n)
InBatch(B, i) == \E k \in DOMAIN B : B[k] = i

\* averaging weight of the step
SfwRho(cfg, st, r) ==
  IF cfg.variant \in {"SAG", "SAGA"} THEN One
  ELSE IF cfg.rule = "user" THEN r ELSE SfwStepAgg(cfg.variant, st.t, R(SfwN(cfg), cfg.bs))

\* predictions, then dual values, after a step that draws B; s is the extreme point LF averages
SfwSigma(cfg, st, B, s, rho) ==
  IF cfg.variant # "LF" THEN <<>>
  ELSE [i \in DOMAIN st.sigma |-> IF InBatch(B, i)
          THEN RFloor(RAdd(st.sigma[i], RMul(rho, RSub(Dot(cfg.F.A[i], s), st.sigma[i]))), 160) ELSE st.sigma[i]]
SfwDual(cfg, st, B, sigma, rho) ==
  LET n == R(SfwN(cfg), 1)
      der(i) == RDiv(PhiDer(cfg.F, IF cfg.variant = "LF" THEN sigma[i] ELSE Dot(cfg.F.A[i], st.x), cfg.F.b[i]), n)
  IN [i \in DOMAIN st.dual |->
        IF ~InBatch(B, i) THEN st.dual[i]
        ELSE IF cfg.variant = "MHK" THEN RFloor(RAdd(st.dual[i], RMul(rho, RSub(der(i), st.dual[i]))), 160)
        ELSE RFloor(der(i), 160)]

\* the gradient estimate the oracle is asked about
SfwEstimate(cfg, st, B, dual) ==
  CASE cfg.variant = "LF" -> SfwAgg(cfg, st.dual)
    [] cfg.variant \in {"SAG", "MHK"} -> SfwAgg(cfg, dual)
    [] cfg.variant = "SAGA" ->
         VAxpy(RSub(R(SfwN(cfg), Len(B)), One), SfwAgg(cfg, VSub(dual, st.dual)), SfwAgg(cfg, dual))

SfwStepSize(cfg, st, q, agg, g) ==
  LET raw == CASE cfg.rule = "sublinear" -> SfwStepX(cfg.variant, st.t, R(SfwN(cfg), cfg.bs))
               [] cfg.rule = "DR" -> IF Norm2Sq(q.d) = Zero THEN Zero
                                     ELSE RMax(Zero, RDiv(RNeg(Dot(agg, q.d)), RMul(Norm2Sq(q.d), cfg.L)))
               [] cfg.rule = "user" -> g
  IN RMin(raw, q.smax)

\* what the rounding of the aggregate may amount to
SfwScale(cfg, st, dual) ==
  RMul(RMul(R(SfwN(cfg), 1), RAdd(One, MatMax(cfg.F.A))),
       RAdd(RAdd(One, RMul(MatMax(cfg.F.A), cfg.S.r)), RMul(RAdd(One, NormInf(cfg.F.b)), RAdd(NormInf(dual), NormInf(st.dual)))))

SfwFeasible(cfg, ev) == InSet(cfg.S, ev.x, ev.Wx, FeasibleTol(cfg))
SfwMoved(st, x) == Norm1(VSub(x, st.x))
SfwMoveNoise(st, x) == RMul(Eps(14), RMul(R(Len(x), 1), RAdd(One, NormInf(x))))

SfwStep(cfg, st, ev) ==
  LET B == ev.batch
      q == ev.q
      rho == SfwRho(cfg, st, ev.r)
      sigma == SfwSigma(cfg, st, B, VAdd(q.x, q.d), rho)
      dual == SfwDual(cfg, st, B, sigma, rho)
      agg == SfwAgg(cfg, dual)
      est == SfwEstimate(cfg, st, B, dual)
      sc == SfwScale(cfg, st, dual)
      g == SfwStepSize(cfg, st, q, agg, ev.g)
      \* along d, with what the aggregate's rounding does to a Demyanov-Rubinov step
      slack == IF cfg.rule = "DR" /\ Norm2Sq(q.d) # Zero
               THEN RDiv(RMul(R(Len(q.d), 1), sc), RMul(cfg.L, RMax(NormInf(q.d), Eps(20)))) ELSE Zero
  IN IF ~VIsNum(ev.x) \/ Len(ev.x) # cfg.F.n THEN "sfw-not-a-point"
     ELSE IF ~SfwFeasible(cfg, ev) THEN "sfw-infeasible"
     ELSE IF ev.asked # 1 THEN "sfw-oracle-calls"
     ELSE IF \E k \in DOMAIN B : ~(B[k] \in 1..SfwN(cfg)) THEN "sfw-not-a-sample"
     ELSE IF B = <<>> \/ \E k, j \in DOMAIN B : k # j /\ B[k] = B[j] THEN "sfw-batch"
     ELSE IF ~VNearS(st.x, q.x, Eps(14), RAdd(One, NormInf(st.x))) THEN "sfw-oracle-not-at-the-iterate"
     ELSE IF \E k \in DOMAIN B :
               LET w == IF cfg.variant = "LF" THEN sigma[B[k]] ELSE Dot(cfg.F.A[B[k]], st.x)
               IN ~RNearS(w, ev.p[k], cfg.ftol, RMul(RAdd(One, MatMax(cfg.F.A)), RAdd(One, cfg.S.r)))
          THEN "sfw-margins"
     ELSE IF ~VNearS(VNeg(est), q.u, cfg.ftol, sc) THEN "sfw-gradient-estimate"
     ELSE IF ~VNearS(VAxpy(g, q.d, st.x), ev.x, cfg.ftol, RAdd(Scale(cfg, q), slack)) THEN "sfw-step"
     ELSE ""

\* C02 on this solver: the active set decomposes the iterate, and the step's weight moves between vertices
SfwActive(cfg, ev) ==
  LET moved == [prev |-> ev.q, step |-> IF cfg.rule = "user" THEN RMin(ev.g, ev.q.smax) ELSE "none"]
  IN IF ActClause(cfg, ev.act, ev.x) # "" THEN ActClause(cfg, ev.act, ev.x)
     ELSE IF ActClause(cfg, ev.q.act, ev.q.x) # "" THEN ActClause(cfg, ev.q.act, ev.q.x)
     ELSE TransferClause(cfg, moved, ev.act)

SfwOverdue(cfg, st) == st.last # "none" /\ RLt(RAdd(st.last, SfwMoveNoise(st, st.x)), cfg.tol)

SfwRet(cfg, st, ev) ==
  IF ~VIsNum(ev.x) \/ ev.x # st.x THEN "sfw-result-not-the-last-iterate"
  ELSE IF st.last = "none" THEN ""
  ELSE IF ev.success /\ ~RLt(st.last, RAdd(cfg.tol, SfwMoveNoise(st, st.x))) THEN "sfw-success-while-moving"
  ELSE IF ~ev.success /\ SfwOverdue(cfg, st) THEN "sfw-success-flag"
  ELSE ""

SfwClause(cfg, st, ev) ==
  IF cfg.prop = "C02" THEN IF ev.k = "step" THEN SfwActive(cfg, ev) ELSE ""
  ELSE CASE ev.k = "cb0"  -> IF ev.x # cfg.x0 THEN "sfw-start" ELSE ""
    [] ev.k = "step" -> IF SfwOverdue(cfg, st) THEN "sfw-continues-below-tolerance" ELSE SfwStep(cfg, st, ev)
    [] ev.k = "ret"  -> SfwRet(cfg, st, ev)

SfwAfter(cfg, st, ev) ==
  IF ev.k # "step" THEN st
  ELSE LET rho == SfwRho(cfg, st, ev.r)
           sigma == SfwSigma(cfg, st, ev.batch, VAdd(ev.q.x, ev.q.d), rho)
       IN [x |-> ev.x, dual |-> SfwDual(cfg, st, ev.batch, sigma, rho), sigma |-> sigma, t |-> st.t + 1,
           act |-> ev.act, last |-> SfwMoved(st, ev.x)]
================================================================================
