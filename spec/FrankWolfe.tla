------------------------------- MODULE FrankWolfe -------------------------------
(***************************************************************************)
(* The (pairwise) Frank-Wolfe method as seen by its user.                  *)
(*                                                                         *)
(* Observable events                                                       *)
(*   "lmo"  the oracle is called: query u, iterate x, active set act; it   *)
(*          answers direction d, maximum step smax and, when pairwise, the *)
(*          vertices fw and away.  f, g are the objective and its gradient *)
(*          at x, computed by the user's own functions.                    *)
(*   "cb"   the callback: iterate x, step it announces, what it returns    *)
(*   "ret"  the result                                                     *)
(*                                                                         *)
(* State: the last oracle call (has = FALSE before the first), the number  *)
(* t of steps taken before it, whether the callback has been called since  *)
(* and asked to stop, and the step it saw.                                 *)
(*                                                                         *)
(* Configuration: S (set), pair, rule ("backtracking", "DR", "sublinear",  *)
(* "user"), L (Lipschitz constant given, for DR), Lhi (no accepted         *)
(* estimate of the backtracking rule exceeds it; "inf" if unknown), tol,   *)
(* maxit, ftol (rounding).                                                 *)
(* Active sets are sequences of [id, p, w]: vertex id, the vertex, weight. *)
(***************************************************************************)
EXTENDS Sets

FwStart == [has |-> FALSE, t |-> 0, cb |-> FALSE, stop |-> FALSE, step |-> "none"]

Gap(ev) == Dot(ev.u, ev.d)
Scale(cfg, ev) == RAdd(RAdd(One, NormInf(ev.x)), NormInf(ev.d))

\* the step along prev.d that leads to x, and its projection on the allowed interval
StepTo(prev, x) ==
  LET n == Norm2Sq(prev.d) IN
  IF n = Zero THEN Zero ELSE RDiv(Dot(VSub(x, prev.x), prev.d), n)
Clip(g, prev) == RMax(Zero, RMin(prev.smax, g))
Reaches(cfg, prev, g, x) == VNearS(VAxpy(g, prev.d, prev.x), x, cfg.ftol, Scale(cfg, prev))

SublinearStep(t, prev) == RMin(R(2, t + 2), prev.smax)
DrStep(cfg, prev) == RMin(RDiv(Gap(prev), RMul(Norm2Sq(prev.d), cfg.L)), prev.smax)

(***************************************************************************)
(* C01: feasibility, and steps between 0 and the announced maximum.        *)
(***************************************************************************)
StepClause(cfg, st, x) ==
  LET prev == st.prev
      g == StepTo(prev, x)
  IN IF ~Reaches(cfg, prev, g, x) THEN "fw-not-along-the-direction"
     ELSE IF ~Reaches(cfg, prev, Clip(g, prev), x) THEN "fw-step-outside-bounds"
     ELSE IF cfg.rule = "sublinear" /\ ~Reaches(cfg, prev, SublinearStep(st.t, prev), x)
          THEN "fw-sublinear-step"
     ELSE ""

FeasibleTol(cfg) == RMul(cfg.ftol, RAdd(One, cfg.S.r))

FwC01(cfg, st, ev) ==
  IF ~VIsNum(ev.x) THEN "fw-iterate-not-a-point"
  ELSE IF ~InSet(cfg.S, ev.x, ev.Wx, FeasibleTol(cfg)) THEN "fw-infeasible"
  ELSE IF ev.k = "lmo" THEN IF st.has THEN StepClause(cfg, st, ev.x) ELSE ""
  \* callbacks during the run see the iterate of the last query, the one after the run the result
  ELSE IF ~st.has THEN ""
  ELSE IF Reaches(cfg, st.prev, Zero, ev.x) THEN ""
  ELSE IF ev.k = "cb" THEN IF st.cb THEN StepClause(cfg, st, ev.x) ELSE "fw-callback-point"
  ELSE StepClause(cfg, st, ev.x)

(***************************************************************************)
(* C02: the active set is a convex decomposition of the iterate, updated   *)
(* by moving the step's weight from the away vertex to the FW vertex.      *)
(***************************************************************************)
WeightOf(act, id) == LET ks == {k \in DOMAIN act : act[k].id = id} IN
                     IF ks = {} THEN Zero ELSE act[CHOOSE k \in ks : TRUE].w
Decomposes(act, x, tol) ==
  VNearS(x, [p \in DOMAIN x |-> VSum([k \in DOMAIN act |-> RMul(act[k].w, act[k].p[p])])], tol,
         RAdd(One, NormInf(x)))
ActClause(cfg, act, x) ==
  IF \E k \in DOMAIN act : ~RIsNum(act[k].w) \/ ~RLt(Zero, act[k].w) THEN "active-set-weight-not-positive"
  ELSE IF \E k, j \in DOMAIN act : k # j /\ act[k].id = act[j].id THEN "active-set-duplicate"
  ELSE IF ~Near(VSum([k \in DOMAIN act |-> act[k].w]), One, cfg.ftol) THEN "active-set-weights-do-not-sum-to-one"
  ELSE IF ~Decomposes(act, x, RMul(cfg.ftol, RAdd(One, cfg.S.r))) THEN "active-set-does-not-decompose-x"
  ELSE ""

\* weights after moving g from the away to the FW vertex
Moved(prev, g, id) ==
  RSub(RAdd(WeightOf(prev.act, id), IF id = prev.fw THEN g ELSE Zero), IF id = prev.away THEN g ELSE Zero)
Ids(act) == {act[k].id : k \in DOMAIN act}
TransferClause(cfg, st, act) ==
  LET prev == st.prev
      g == IF prev.fw = prev.away THEN Zero
           ELSE RSub(WeightOf(prev.act, prev.away), WeightOf(act, prev.away))
      \* the announced step is all the weight there is (an oracle may announce less)
      dropped == st.step # "none" /\ st.step = WeightOf(prev.act, prev.away) /\ prev.fw # prev.away
  IN IF \E id \in Ids(prev.act) \cup Ids(act) \cup {prev.fw} :
           ~Near(WeightOf(act, id), Moved(prev, g, id), cfg.ftol) THEN "active-set-transfer"
     ELSE IF dropped /\ prev.away \in Ids(act) THEN "active-set-exhausted-vertex-kept"
     ELSE ""

FwC02(cfg, st, ev) ==
  IF ev.k = "cb" THEN ""
  ELSE IF ActClause(cfg, ev.act, ev.x) # "" THEN ActClause(cfg, ev.act, ev.x)
  ELSE IF ~st.has THEN ""
  ELSE IF ev.k = "ret" /\ Reaches(cfg, st.prev, Zero, ev.x) /\ Ids(ev.act) = Ids(st.prev.act)
          /\ \A id \in Ids(ev.act) : Near(WeightOf(ev.act, id), WeightOf(st.prev.act, id), cfg.ftol) THEN ""
  ELSE TransferClause(cfg, st, ev.act)

(***************************************************************************)
(* C03: queries, certificate, step rules, stopping.                        *)
(***************************************************************************)
Noise(ev) == RAdd(Eps(60), RMul(Eps(13), RMul(NormInf(ev.u), RMul(R(Len(ev.x), 1), NormInf(ev.d)))))
LsEps == RMul(R(120, 1), Eps(9))      \* float32 machine epsilon is 1.1920929e-7

ProgressClause(cfg, st, ev) ==
  LET prev == st.prev
      g == Clip(StepTo(prev, ev.x), prev)
      n == Norm2Sq(prev.d)
      gtol == RMul(RMul(R(4, 1), cfg.ftol), Scale(cfg, prev))
      fnoise == RMul(Eps(13), RAdd(One, RAbs(prev.f)))
  IN IF cfg.rule = "DR" /\ ~Reaches(cfg, prev, DrStep(cfg, prev), ev.x) THEN "fw-demyanov-rubinov-step"
     ELSE IF cfg.rule = "backtracking" /\ ~prev.exhausted /\
             ~RLe(RSub(ev.f, prev.f),
                  RAdd(RMul(R(-1, 2), RMul(g, Gap(prev))),
                       RAdd(LsEps, RAdd(fnoise, RMul(gtol, NormInf(prev.u))))))
          THEN "fw-insufficient-decrease"
     ELSE IF cfg.rule = "backtracking" /\ RIsNum(cfg.Lhi) /\ n # Zero /\
             ~RLe(RMul(RMin(prev.smax, RDiv(Gap(prev), RMul(n, cfg.Lhi))), R(99, 100)),
                  RAdd(g, RDiv(gtol, SqrtLo(n))))
          THEN "fw-step-shorter-than-the-line-search-allows"
     ELSE ""

FwC03(cfg, st, ev) ==
  IF ev.k = "lmo" THEN
    IF ~VNearS(VNeg(ev.g), ev.u, cfg.gtol, NormInf(ev.g)) THEN "fw-query-not-minus-gradient"
    ELSE IF ~st.has THEN ""
    ELSE IF st.stop THEN "fw-continues-after-stop"
    ELSE IF RLt(Gap(st.prev), RSub(cfg.tol, Noise(st.prev))) THEN "fw-continues-below-tolerance"
    ELSE ProgressClause(cfg, st, ev)
  ELSE IF ev.k = "ret" THEN
    IF ~st.has THEN "fw-no-query"
    ELSE IF ~RIsNum(ev.cert) THEN "fw-certificate-not-a-number"
    ELSE IF ~RLe(RAbs(RSub(ev.cert, Gap(st.prev))), Noise(st.prev)) THEN "fw-certificate-not-the-gap"
    ELSE IF ev.success # RLe(ev.cert, cfg.tol) THEN "fw-success-flag"
    ELSE IF st.t + 1 < cfg.maxit /\ ~st.stop /\ ~RLe(ev.cert, cfg.tol) THEN "fw-stops-early"
    ELSE IF st.t + 1 > cfg.maxit THEN "fw-exceeds-budget"
    ELSE ""
  ELSE ""

\* One direct update of an active set: g moves from the away to the FW vertex, more than is there is refused
Clauses_Update(ev) ==
  LET have == WeightOf(ev.before, ev.away)
      want(id) == RSub(RAdd(WeightOf(ev.before, id), IF id = ev.fw THEN ev.g ELSE Zero),
                       IF id = ev.away THEN ev.g ELSE Zero)
      same == ev.fw = ev.away
  IN IF ~same /\ RLt(RAdd(have, Eps(9)), ev.g) THEN IF ev.raised THEN "" ELSE "active-set-oversized-step-accepted"
     ELSE IF ev.raised THEN "active-set-valid-step-refused"
     ELSE IF \E id \in Ids(ev.before) \cup Ids(ev.after) \cup {ev.fw} :
             ~Near(WeightOf(ev.after, id), want(id), Eps(12)) THEN "active-set-transfer"
     ELSE IF \E k \in DOMAIN ev.after : ~RLt(Zero, ev.after[k].w) THEN "active-set-weight-not-positive"
     ELSE IF ~same /\ ev.g = have /\ ev.away \in Ids(ev.after) THEN "active-set-exhausted-vertex-kept"
     ELSE ""

FwClause(cfg, st, ev) ==
  CASE cfg.prop = "C01" -> FwC01(cfg, st, ev)
    [] cfg.prop = "C02" -> FwC02(cfg, st, ev)
    [] cfg.prop = "C03" -> FwC03(cfg, st, ev)
    [] cfg.prop = "all" -> IF FwC01(cfg, st, ev) # "" THEN FwC01(cfg, st, ev)
                           ELSE IF cfg.pair /\ FwC02(cfg, st, ev) # "" THEN FwC02(cfg, st, ev)
                           ELSE FwC03(cfg, st, ev)

FwAfter(cfg, st, ev) ==
  CASE ev.k = "lmo" -> [has |-> TRUE, prev |-> ev, t |-> IF st.has THEN st.t + 1 ELSE 0, cb |-> FALSE,
                        stop |-> FALSE, step |-> "none"]
    [] ev.k = "cb"  -> [st EXCEPT !.cb = TRUE, !.stop = @ \/ ev.ret, !.step = IF st.cb THEN @ ELSE ev.step]
    [] OTHER -> st
================================================================================
