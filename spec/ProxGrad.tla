-------------------------------- MODULE ProxGrad --------------------------------
(***************************************************************************)
(* Proximal gradient and its accelerated (FISTA) form, seen by the user.   *)
(*                                                                         *)
(* Observable events                                                       *)
(*   "cb"   the callback at the start of an iteration: iterate x with the  *)
(*          objective f, gradient g and penalty pen there ("none" when not *)
(*          known), the calls of the user's proximal operator (prox:       *)
(*          [v, s, z]) and the steps the user's rule returned since the    *)
(*          previous event, and whether the callback asks to stop.  yw is  *)
(*          a witness: f and g at the extrapolation point.                 *)
(*   "ret"  the result; wz is a witness for stationarity: the user's       *)
(*          proximal operator applied to the gradient step at x.           *)
(*                                                                         *)
(* State: the last callback, the Nesterov scalar t, the extrapolation      *)
(* point y, the number k of iterations started, whether to stop.           *)
(*                                                                         *)
(* Configuration: x0, acc, rule ("backtracking", "user"), hasprox, tol,    *)
(* maxit, Lf (gradient Lipschitz constant or "inf"), ls (the line search   *)
(* never gave up), ftol (rounding), traced (the run keeps its certificates:*)
(* certs of "ret").                                                        *)
(***************************************************************************)
EXTENDS Sets

PgStart(cfg) == [has |-> FALSE, t |-> One, y |-> cfg.x0, k |-> 0, stop |-> FALSE]

\* keep 110 significant bits
Round(a) == IF a = Zero THEN Zero ELSE RFloor(a, 110 - RLog2(a))
NextT(t) == Round(RMul(Half, RAdd(One, SqrtLo(RAdd(One, RMul(R(4, 1), RSqr(t)))))))
Extrapolate(t, xold, xnew) == VAxpy(Round(RDiv(RSub(t, One), NextT(t))), VSub(xnew, xold), xnew)

\* where the iteration starts from: the point, its gradient and value
Base(cfg, st) == IF cfg.acc THEN [x |-> st.y, g |-> st.prev.yw.g, f |-> st.prev.yw.f]
                 ELSE [x |-> st.prev.x, g |-> st.prev.g, f |-> st.prev.f]

GradStep(b, s) == VAxpy(RNeg(s), b.g, b.x)
StepScale(b, s) == RAdd(RAdd(One, NormInf(b.x)), RMul(RAbs(s), NormInf(b.g)))

\* without a proximal operator the step shows in the iterate
PlainStep(b, x) == LET n == Norm2Sq(b.g) IN
                   IF n = Zero THEN One ELSE RDiv(Dot(VSub(b.x, x), b.g), n)
Calls(cfg, b, ev) == IF cfg.hasprox THEN ev.prox
                     ELSE <<[v |-> ev.x, s |-> PlainStep(b, ev.x), z |-> ev.x]>>

\* calls that take a gradient step from the base and lead to the new iterate
Taken(cfg, b, ev) ==
  LET cs == Calls(cfg, b, ev) IN
  {k \in DOMAIN cs : /\ VNearS(cs[k].z, ev.x, cfg.ftol, RAdd(One, NormInf(ev.x)))
                     /\ VNearS(GradStep(b, cs[k].s), cs[k].v, cfg.ftol, StepScale(b, cs[k].s))}

FNoise(b, d, s) ==
  RMul(Eps(12), RAdd(RAdd(One, RAbs(b.f)),
                     RAdd(RMul(R(Len(d), 1), RMul(NormInf(b.g), NormInf(d))), RDiv(Norm2Sq(d), s))))
UpperBound(b, x, fx, s) ==
  LET d == VSub(x, b.x) IN
  RLe(fx, RAdd(RAdd(b.f, Dot(b.g, d)), RAdd(RDiv(Norm2Sq(d), RMul(Two, s)), FNoise(b, d, s))))

\* a user's step is used as it is
FromRule(cfg, b, ev, s) ==
  cfg.rule = "user" => \E k \in DOMAIN ev.steps :
                         IF cfg.hasprox THEN ev.steps[k] = s
                         ELSE VNearS(GradStep(b, ev.steps[k]), ev.x, cfg.ftol, StepScale(b, ev.steps[k]))
\* too short a step to read its size from the iterate
Blurred(cfg, b, x) == ~cfg.hasprox /\ RLe(DistInf(x, b.x), RMul(Eps(9), RAdd(One, NormInf(x))))

IterationClause(cfg, st, ev) ==
  LET b == Base(cfg, st)
      cs == Calls(cfg, b, ev)
      T == Taken(cfg, b, ev)
      total(e) == RAdd(e.f, e.pen)
  IN IF T = {} THEN IF cfg.acc THEN "pg-not-an-accelerated-step" ELSE "pg-not-a-proximal-gradient-step"
     ELSE IF ~Blurred(cfg, b, ev.x) /\ \A k \in T : ~RLt(Zero, cs[k].s) THEN "pg-step-not-positive"
     ELSE IF \A k \in T : ~FromRule(cfg, b, ev, cs[k].s) THEN "pg-step-not-the-users"
     ELSE IF cfg.rule = "backtracking" /\ cfg.ls /\ ~Blurred(cfg, b, ev.x) /\ \A k \in T : ~UpperBound(b, ev.x, ev.f, cs[k].s)
          THEN "pg-upper-bound"
     ELSE IF cfg.rule = "backtracking" /\ cfg.ls /\ ~cfg.acc /\ RIsNum(st.prev.pen) /\ RIsNum(ev.pen)
             /\ ~RLe(total(ev), RAdd(total(st.prev), FNoise(b, VSub(ev.x, b.x), One))) THEN "pg-objective-increases"
     ELSE ""

\* the certificate of the last step; the line search may have enlarged its step by a tenth since
CertClause(cfg, st, ev) ==
  LET b == Base(cfg, st)
      cs == Calls(cfg, b, ev)
      T == Taken(cfg, b, ev)
      here == [x |-> ev.x, g |-> ev.g, f |-> ev.f]
      noise(s) == RMul(cfg.ftol, RDiv(StepScale(here, s), s))
      len(k) == SqrtLo(DistSq(ev.x, b.x))
      stepped(k) ==
        /\ RLe(RMul(ev.cert, cs[k].s), RAdd(len(k), RMul(cfg.ftol, StepScale(b, cs[k].s))))
        /\ RLe(len(k), RAdd(RMul(RMul(IF cfg.rule = "user" THEN One ELSE R(1101, 1000), ev.cert), cs[k].s),
                            RMul(cfg.ftol, StepScale(b, cs[k].s))))
      mapping(k) ==
        /\ VNearS(GradStep(here, cs[k].s), cs[k].v, cfg.ftol, StepScale(here, cs[k].s))
        /\ Near(RMul(ev.cert, cs[k].s), SqrtLo(DistSq(ev.x, cs[k].z)), RMul(cfg.ftol, StepScale(here, cs[k].s)))
  IN IF ~RIsNum(ev.cert) THEN "pg-certificate-not-a-number"
     ELSE IF Blurred(cfg, b, ev.x) THEN ""
     ELSE IF ~cfg.acc THEN IF \E k \in T : stepped(k) THEN "" ELSE "pg-certificate"
     ELSE IF cfg.hasprox THEN IF \E k \in DOMAIN cs : mapping(k) THEN "" ELSE "pg-certificate"
     ELSE IF Near(ev.cert, SqrtLo(Norm2Sq(ev.g)), RMul(Eps(6), RAdd(One, NormInf(ev.g)))) THEN ""
     ELSE "pg-certificate"

\* A successful run is stationary: |x - prox(x - s g)| / s is at most tol, times 1.1 (1 + L s) without
\* acceleration, where the certificate belongs to the previous iterate.  Residuals below the square root of
\* L times the rounding error of f cannot be told apart by a line search on values of f.
Stationary(cfg, st, ev) ==
  LET w == ev.wz
      here == [x |-> ev.x, g |-> ev.g, f |-> ev.f]
      b == Base(cfg, st)
      used == VMaxOf(<<Zero>> \o [k \in DOMAIN Calls(cfg, b, ev) |-> Calls(cfg, b, ev)[k].s])
      blur == RMul(R(8, 1), SqrtUp(RMul(RMul(RPow2(-52), RAdd(One, RAbs(ev.f))), cfg.Lf)))
      factor == IF cfg.acc THEN One ELSE RMul(R(1101, 1000), RAdd(One, RMul(cfg.Lf, used)))
  IN RLe(SqrtLo(DistSq(ev.x, w.z)),
         RAdd(RMul(w.s, RAdd(RMul(factor, cfg.tol), blur)), RMul(cfg.ftol, StepScale(here, w.s))))

\* the certificates of all finished iterations in order, the last of them the reported one
TraceClause(cfg, st, ev) ==
  LET done == IF st.stop THEN st.k - 1 ELSE st.k
  IN IF Len(ev.certs) # (IF cfg.traced THEN done ELSE 0) THEN "pg-number-of-traced-certificates"
     ELSE IF ~cfg.traced \/ done = 0 THEN ""
     ELSE IF ev.certs[done] # ev.cert THEN "pg-traced-certificate"
     ELSE IF \E k \in 1..(done - 1) : RIsNum(ev.certs[k]) /\ RLt(ev.certs[k], cfg.tol)
          THEN "pg-continues-below-tolerance"
     ELSE ""

RunClause(cfg, st, ev) ==
  IF ~st.has THEN
    IF cfg.maxit > 0 THEN "pg-no-iteration"
    ELSE IF ev.x # cfg.x0 THEN "pg-moves-without-iterating"
    ELSE IF ev.success THEN "pg-success-flag" ELSE ""
  ELSE IF st.stop THEN
    IF ev.x # st.prev.x THEN "pg-moves-after-stop"
    ELSE IF ev.success THEN "pg-success-after-stop" ELSE ""
  ELSE IF IterationClause(cfg, st, ev) # "" THEN IterationClause(cfg, st, ev)
  ELSE IF CertClause(cfg, st, ev) # "" THEN CertClause(cfg, st, ev)
  ELSE IF ev.success # RLt(ev.cert, cfg.tol) THEN "pg-success-flag"
  ELSE IF ~ev.success /\ st.k < cfg.maxit THEN "pg-stops-early"
  ELSE IF ev.success /\ RIsNum(cfg.Lf) /\ ~Stationary(cfg, st, ev) THEN "pg-success-not-stationary"
  ELSE ""

RetClause(cfg, st, ev) ==
  IF RunClause(cfg, st, ev) # "" THEN RunClause(cfg, st, ev) ELSE TraceClause(cfg, st, ev)

PgClause(cfg, st, ev) ==
  IF ~VIsNum(ev.x) \/ Len(ev.x) # Len(cfg.x0) THEN "pg-iterate-not-a-point"
  ELSE IF ev.k = "ret" THEN RetClause(cfg, st, ev)
  ELSE IF ~st.has THEN IF ev.x # cfg.x0 THEN "pg-start" ELSE ""
  ELSE IF st.stop THEN "pg-continues-after-stop"
  ELSE IF st.k >= cfg.maxit THEN "pg-exceeds-budget"
  ELSE IterationClause(cfg, st, ev)

\* the recorder's witness has to be at the extrapolation point
PgWitness(cfg, st, ev) ==
  ~cfg.acc \/ ev.k # "cb"
  \/ VNearS(IF st.has THEN Extrapolate(st.t, st.prev.x, ev.x) ELSE ev.x, ev.yw.y, Eps(14),
            RAdd(One, NormInf(ev.yw.y)))

PgAfter(cfg, st, ev) ==
  IF ev.k # "cb" THEN st
  ELSE [has |-> TRUE, prev |-> ev, k |-> st.k + 1, stop |-> ev.ret,
        t |-> IF st.has THEN NextT(st.t) ELSE One,
        y |-> IF st.has THEN Extrapolate(st.t, st.prev.x, ev.x) ELSE ev.x]
================================================================================
