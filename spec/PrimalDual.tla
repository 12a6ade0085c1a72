------------------------------- MODULE PrimalDual -------------------------------
(***************************************************************************)
(* Primal-dual splitting for  f(x) + g(x) + h(L x)  seen by the user.      *)
(* With tau the dual and sigma the primal step,                            *)
(*     y' = prox_{tau h*}(y + tau L x)                                     *)
(*     x' = prox_{sigma g}(x - sigma (L'(y' + theta (y' - y)) + grad f(x)))*)
(* By Moreau's identity the first is  w - p  times tau, where the user's   *)
(* prox_2 is called at w = (y + tau L x) / tau with step 1 / tau and       *)
(* answers p.  Without line search theta = 1 and the steps are the given   *)
(* ones.  With it theta = tau' / tau for the new dual step tau' = sigma /  *)
(* ratio, and the accepted pair satisfies                                  *)
(*   sigma tau' |L(x' - x)|^2 + 2 sigma (f(x') - f(x) - <grad f, x' - x>)  *)
(*      <= |x' - x|^2 / 2                                                  *)
(* unless the step is shorter than 1e-10.                                  *)
(*                                                                         *)
(* Events: "it" one iteration (x' with f, g there, calls p1 and p2, with f *)
(* at the output of p1), "sync" (a part of the trace was left out; the     *)
(* state the recorder read off the calls), "ret" (the result), "opt".      *)
(* Configuration: x0, g0, f0, L (rows), ls, sigma, tau, ratio, tol, maxit, ftol.*)
(***************************************************************************)
EXTENDS ThreeSplit

LMul(cfg, x) == MatVec(cfg.L, x)
LtMul(cfg, y) == MatTVec(cfg.L, y, Len(cfg.x0))

PdStart(cfg) == [x |-> cfg.x0, f |-> cfg.f0, g |-> cfg.g0, y |-> LMul(cfg, cfg.x0), taus |-> {cfg.tau}, k |-> 0,
                 inc |-> Zero, stop |-> FALSE, r1 |-> Zero, r2 |-> Zero]
Rnd(v) == [i \in DOMAIN v |-> RFloor(v[i], 140)]

PdScale(st) == RAdd(RAdd(One, NormInf(st.x)), NormInf(st.y))
LNorm(cfg) == RAdd(One, NormInf([i \in DOMAIN cfg.L |-> Norm1(cfg.L[i])]))

Tau(c2) == RDiv(One, c2.s)
DualStep(cfg, st, c2) ==
  LET tau == Tau(c2)
      want == VScale(c2.s, VAxpy(tau, LMul(cfg, st.x), st.y))
  IN VNearS(want, c2.v, cfg.ftol, RMul(RAdd(One, c2.s), RMul(PdScale(st), LNorm(cfg))))
NewY(c2) == Rnd(VScale(Tau(c2), VSub(c2.v, c2.z)))

Theta(cfg, c1, c2) == IF cfg.ls THEN RDiv(RDiv(c1.s, cfg.ratio), Tau(c2)) ELSE One
PrimalStep(cfg, st, c1, c2) ==
  LET y2 == NewY(c2)
      th == RFloor(Theta(cfg, c1, c2), 140)
      ybar == VAxpy(th, VSub(y2, st.y), y2)
      want == VAxpy(RNeg(c1.s), VAdd(LtMul(cfg, ybar), st.g), st.x)
  IN VNearS(want, c1.v, cfg.ftol,
            RMul(RMul(RAdd(One, c1.s), RAdd(One, th)),
                 RAdd(RMul(RMul(LNorm(cfg), LNorm(cfg)), RAdd(PdScale(st), NormInf(y2))), NormInf(st.g))))

PdOptions(cfg, st, ev) ==
  {p \in (DOMAIN ev.p1) \X (DOMAIN ev.p2) :
     /\ VNearS(ev.p1[p[1]].z, ev.x, cfg.ftol, RAdd(One, NormInf(ev.x)))
     /\ RLt(Zero, ev.p2[p[2]].s) /\ RLt(Zero, ev.p1[p[1]].s)
     /\ DualStep(cfg, st, ev.p2[p[2]])
     /\ PrimalStep(cfg, st, ev.p1[p[1]], ev.p2[p[2]])}

RelEq(a, b) == RLe(RAbs(RSub(a, b)), RMul(Eps(12), RAbs(a)))
StepsOk(cfg, st, c1, c2) ==
  IF cfg.ls THEN \E t \in st.taus : RelEq(t, Tau(c2))
  ELSE RelEq(cfg.tau, Tau(c2)) /\ RelEq(cfg.sigma, c1.s)
LsOk(cfg, st, ev, c1, c2) ==
  LET d == VSub(c1.z, st.x)
      n == Norm2Sq(d)
      tau2 == RDiv(c1.s, cfg.ratio)
      lin == RSub(RSub(c1.f, st.f), Dot(st.g, d))
      noise == RMul(RMul(Two, c1.s), RMul(Eps(12), RAdd(RAdd(One, RAbs(st.f)), RMul(NormInf(st.g), NormInf(d)))))
  IN \/ ~cfg.ls \/ RLe(n, RMul(R(11, 10), Eps(20)))
     \/ RLe(RAdd(RMul(RMul(c1.s, tau2), Norm2Sq(LMul(cfg, d))), RMul(RMul(Two, c1.s), lin)),
            RAdd(RMul(Half, n), noise))
PdGood(cfg, st, ev, O) ==
  {q \in O : StepsOk(cfg, st, ev.p1[q[1]], ev.p2[q[2]]) /\ LsOk(cfg, st, ev, ev.p1[q[1]], ev.p2[q[2]])}

PdIteration(cfg, st, ev) ==
  LET O == PdOptions(cfg, st, ev) IN
  IF O = {} THEN "pd-not-an-iteration"
  ELSE IF \A q \in O : ~StepsOk(cfg, st, ev.p1[q[1]], ev.p2[q[2]]) THEN "pd-step-sizes"
  ELSE IF PdGood(cfg, st, ev, O) = {} THEN "pd-line-search"
  ELSE ""

\* Several calls of prox_1 may explain the step: all their dual steps remain possible.  After a step too short
\* to be judged the dual step may also stay as it was.
PdNext(cfg, st, ev) ==
  LET G == PdGood(cfg, st, ev, PdOptions(cfg, st, ev))
      q == CHOOSE q \in G : TRUE
      c2 == ev.p2[q[2]]
      y2 == NewY(c2)
      dx == VSub(st.x, ev.x)
      short == RLe(Norm2Sq(dx), RMul(R(12, 10), Eps(20)))
      res(c1) == LET th == RFloor(Theta(cfg, c1, c2), 140)
                     ybar == VAxpy(th, VSub(y2, st.y), y2)
                 IN SqrtUp(Norm2Sq(VAdd(VScale(RDiv(One, c1.s), dx),
                                        VAdd(VSub(ev.g, st.g), LtMul(cfg, VSub(y2, ybar))))))
  IN [x |-> ev.x, f |-> ev.f, g |-> ev.g, y |-> y2, k |-> st.k + 1, stop |-> ev.ret,
      taus |-> (IF cfg.ls THEN {RDiv(ev.p1[p[1]].s, cfg.ratio) : p \in G} ELSE {cfg.tau})
               \cup (IF short THEN st.taus ELSE {}),
      inc |-> RAdd(SqrtLo(Norm2Sq(dx)), SqrtLo(DistSq(st.y, y2))),
      \* residuals of the optimality conditions at (x', y')
      r1 |-> FoldSet(LAMBDA p, m : RMax(m, res(ev.p1[p[1]])), Zero, G),
      r2 |-> SqrtUp(Norm2Sq(VAdd(VScale(c2.s, VSub(st.y, y2)), LMul(cfg, dx))))]

(***************************************************************************)
(* The minimizer (f strongly convex with modulus mu), by a witness         *)
(* (xs, ys, xi): ys in the subdifferential of h at L xs, xi of g at xs,    *)
(* grad f(xs) + xi + L' ys = 0.  The last step satisfies the optimality    *)
(* conditions up to residuals r1, r2, so                                   *)
(*    mu |x - xs|^2 <= r1 |x - xs| + r2 |y - ys|.                          *)
(* ev.target, when given, is an absolute accuracy to be reached.           *)
(***************************************************************************)
PdWitness(cfg, ev) ==
  /\ SubGrad(ev.P1, ev.xi, ev.xs, Eps(7)) /\ SubGrad(ev.P2, ev.ys, LMul(cfg, ev.xs), Eps(7))
  /\ RLe(NormInf(VAdd(ev.gs, VAdd(ev.xi, LtMul(cfg, ev.ys)))), RMul(Eps(7), LNorm(cfg)))
PdOptimum(cfg, st, ev) ==
  LET D == SqrtUp(DistSq(st.y, ev.ys))
      bound == RAdd(RAdd(RDiv(st.r1, ev.mu), SqrtUp(RDiv(RMul(st.r2, D), ev.mu))), RMul(Eps(5), RAdd(One, NormInf(ev.xs))))
  IN IF ~PdWitness(cfg, ev) THEN "pd-witness"
     ELSE IF RLt(RSqr(bound), DistSq(st.x, ev.xs)) THEN "pd-result-worse-than-its-residuals"
     ELSE IF ev.target # "none" /\ RLt(RSqr(RMul(ev.target, RAdd(One, NormInf(ev.xs)))), DistSq(ev.x, ev.xs))
          THEN "pd-does-not-converge"
     ELSE ""

PdClause(cfg, st, ev) ==
  IF ev.k = "sync" THEN ""
  ELSE IF ~VIsNum(ev.x) \/ Len(ev.x) # Len(cfg.x0) THEN "pd-iterate-not-a-point"
  ELSE IF ev.k = "opt" THEN PdOptimum(cfg, st, ev)
  ELSE IF ev.k = "ret" THEN
    IF ev.x # st.x THEN "pd-result-not-the-last-iterate"
    ELSE IF ev.success /\ st.stop THEN "pd-success-after-stop"
    ELSE IF ev.success # (RIsNum(ev.cert) /\ RLt(ev.cert, cfg.tol) /\ ~st.stop) /\ ~st.stop THEN "pd-success-flag"
    ELSE IF ev.success /\ RLt(RMul(R(11, 10), RAdd(cfg.tol, RMul(cfg.ftol, PdScale(st)))), st.inc) THEN "pd-success-still-moving"
    ELSE IF ~ev.success /\ ~st.stop /\ st.k < cfg.maxit THEN "pd-stops-early"
    ELSE ""
  ELSE IF st.stop THEN "pd-continues-after-stop"
  ELSE IF st.k >= cfg.maxit THEN "pd-exceeds-budget"
  ELSE PdIteration(cfg, st, ev)

PdAfter(cfg, st, ev) ==
  CASE ev.k = "it" -> PdNext(cfg, st, ev)
    [] ev.k = "sync" -> [st EXCEPT !.x = ev.x, !.y = NewY(ev.p2[Len(ev.p2)]), !.f = ev.f, !.g = ev.g,
                                   !.taus = IF cfg.ls THEN {RDiv(ev.p1[i].s, cfg.ratio) : i \in DOMAIN ev.p1}
                                                           \cup {Tau(ev.p2[i]) : i \in DOMAIN ev.p2}
                                            ELSE {cfg.tau},
                                   !.k = ev.n, !.stop = FALSE]
    [] OTHER -> st
================================================================================
