------------------------------- MODULE ThreeSplit -------------------------------
(***************************************************************************)
(* Davis-Yin three-operator splitting with adaptive step, seen by the      *)
(* user: f smooth, g with proximal operator prox_1, h with prox_2.         *)
(*     x  = prox_1(z - s (u + grad f(z)), s)                               *)
(*     z' = prox_2(x + s u, s),   u' = u + (x - z') / s                    *)
(*                                                                         *)
(* Observable events                                                       *)
(*   "cb"   the callback at the end of an iteration: x, the calls p1 and   *)
(*          p2 of the two operators since the previous event ([v, s, z],   *)
(*          with f at the output and, for p2, also the gradient g there),  *)
(*          whether the callback asks to stop                              *)
(*   "ret"  the result                                                     *)
(* State: z with f and g there, u, the step, the certificate, the number k *)
(* of iterations, whether to stop, and what the last x-step said about the *)
(* subgradient xi of g at x.                                               *)
(*                                                                         *)
(* Configuration: x0, step ("none" or the given one), ls, hlip ("none" or  *)
(* the Lipschitz constant of h), tol, maxit, gaveup (a line search may     *)
(* have run out), ftol.                                                    *)
(* When the Lipschitz constant of h is given, the slack of the last upper  *)
(* bound pays for a larger step: s^2 grows by at most 2 s slack / hlip^2,  *)
(* and s by at most 2 %.  cap is the largest step the next search may use. *)
(***************************************************************************)
EXTENDS Prox

TsStart(cfg) == [k |-> 0, stop |-> FALSE, cert |-> Zero]
TsRound(v) == [i \in DOMAIN v |-> RFloor(v[i], 220)]

TsScale(w, s, u, g) == RAdd(RAdd(One, NormInf(w)), RMul(s, RAdd(NormInf(u), NormInf(g))))

\* the x-step c1 and the z-step c2 from (z, u)
XStep(cfg, z, u, g, c) ==
  VNearS(VAxpy(RNeg(c.s), VAdd(u, g), z), c.v, cfg.ftol, TsScale(z, c.s, u, g))
ZStep(cfg, c1, u, c) ==
  /\ c.s = c1.s
  /\ VNearS(VAxpy(c.s, u, c1.z), c.v, cfg.ftol, TsScale(c1.z, c.s, u, u))

TsNoise(f, g, d, s) ==
  RAdd(RPow2(-52), RMul(Eps(12), RAdd(RAdd(One, RAbs(f)),
       RAdd(RMul(R(Len(d), 1), RMul(NormInf(g), NormInf(d))), RDiv(Norm2Sq(d), s)))))
TsBound(z, f, g, c) ==
  LET d == VSub(c.z, z) IN
  RLe(c.f, RAdd(RAdd(f, Dot(g, d)), RAdd(RDiv(Norm2Sq(d), RMul(Two, c.s)), TsNoise(f, g, d, c.s))))

\* the pairs of calls that make up one iteration from (z, u) and lead to ev.x
Pairs(cfg, z, u, g, ev) ==
  {p \in (DOMAIN ev.p1) \X (DOMAIN ev.p2) :
     /\ VNearS(ev.p1[p[1]].z, ev.x, cfg.ftol, RAdd(One, NormInf(ev.x)))
     /\ XStep(cfg, z, u, g, ev.p1[p[1]])
     /\ ZStep(cfg, ev.p1[p[1]], u, ev.p2[p[2]])}

\* before the first iteration z is prox_2 of the start; which of the calls that was shows in its argument
First(cfg, ev) == {i \in DOMAIN ev.p2 : ev.p2[i].v = cfg.x0 /\ \A j \in 1..(i - 1) : ev.p2[j].v # cfg.x0}

\* state before the iteration ev ends; at the first one it depends on the initial call i
Before(cfg, st, ev, i) ==
  IF st.k > 0 THEN st
  ELSE [k |-> 0, stop |-> FALSE, z |-> ev.p2[i].z, f |-> ev.p2[i].f, g |-> ev.p2[i].g,
        u |-> VZero(Len(cfg.x0)), s |-> ev.p2[i].s, cap |-> ev.p2[i].s]
Starts(cfg, st, ev) == IF st.k > 0 THEN {0} ELSE First(cfg, ev)
Options(cfg, st, ev) ==
  {q \in Starts(cfg, st, ev) \X ((DOMAIN ev.p1) \X (DOMAIN ev.p2)) :
     LET b == Before(cfg, st, ev, q[1]) IN q[2] \in Pairs(cfg, b.z, b.u, b.g, ev)}

Cap(cfg, b, c) ==
  IF cfg.hlip = "none" THEN c.s
  ELSE LET d == VSub(c.z, b.z)
           slack == RAdd(RSub(RAdd(RAdd(b.f, Dot(b.g, d)), RDiv(Norm2Sq(d), RMul(Two, c.s))), c.f),
                         TsNoise(b.f, b.g, d, c.s))
           most == RMul(R(102, 100), c.s)
       IN RMul(RAdd(One, Eps(9)),
               IF RSgn(cfg.hlip) = 0 THEN most
               ELSE RMin(most, SqrtUp(RAdd(RSqr(c.s), RMul(RDiv(RMul(Two, c.s), RSqr(cfg.hlip)), RMax(Zero, slack))))))
StepAllowed(cfg, b, s) ==
  IF ~cfg.ls THEN s = cfg.step
  ELSE IF b.k = 0 /\ cfg.step # "none" /\ b.s # cfg.step THEN FALSE
  ELSE RLe(s, b.cap)

TsIteration(cfg, st, ev) ==
  LET O == Options(cfg, st, ev)
      good(q) ==
        LET b == Before(cfg, st, ev, q[1])
            c == ev.p1[q[2][1]]
        IN StepAllowed(cfg, b, c.s)
      bound(q) ==
        LET b == Before(cfg, st, ev, q[1])
            c == ev.p1[q[2][1]]
        IN \/ ~cfg.ls \/ cfg.gaveup
           \/ RLe(DistSq(c.z, b.z), RSqr(RMul(R(11, 10), Eps(7))))
           \/ TsBound(b.z, b.f, b.g, c)
  IN IF O = {} THEN "ts-not-an-iteration"
     ELSE IF \A q \in O : ~good(q) THEN "ts-step-size"
     ELSE IF \A q \in O : ~(good(q) /\ bound(q)) THEN "ts-upper-bound"
     ELSE ""

TsNext(cfg, st, ev) ==
  LET O == Options(cfg, st, ev)
      q == CHOOSE q \in O : TRUE
      b == Before(cfg, st, ev, q[1])
      c1 == ev.p1[q[2][1]]
      c2 == ev.p2[q[2][2]]
  IN [k |-> st.k + 1, stop |-> ev.ret, x |-> ev.x, z |-> c2.z, f |-> c2.f, g |-> c2.g, s |-> c1.s,
      cap |-> Cap(cfg, b, c1),
      u |-> TsRound(VAdd(b.u, VScale(RDiv(One, c1.s), VSub(c1.z, c2.z)))),
      cert |-> RDiv(SqrtLo(DistSq(c1.z, b.z)), c1.s),
      xi |-> VSub(VScale(RDiv(One, c1.s), VSub(c1.v, c1.z)), VZero(Len(ev.x))),
      zold |-> b.z]

TsCertNoise(cfg, st) == RMul(cfg.ftol, RDiv(TsScale(st.x, st.s, st.u, st.g), st.s))
TsRet(cfg, st, ev) ==
  IF st.k = 0 THEN "ts-no-iteration"
  ELSE IF ev.x # st.x THEN "ts-result-not-the-last-iterate"
  ELSE IF ~RIsNum(ev.cert) \/ ~Near(ev.cert, st.cert, TsCertNoise(cfg, st)) THEN "ts-certificate"
  ELSE IF ev.success # (~st.stop /\ st.k > 1 /\ RLt(ev.cert, cfg.tol)) THEN "ts-success-flag"
  ELSE IF ~ev.success /\ ~st.stop /\ st.k < cfg.maxit THEN "ts-stops-early"
  ELSE ""

TsClause(cfg, st, ev) ==
  IF ~VIsNum(ev.x) \/ Len(ev.x) # Len(cfg.x0) THEN "ts-iterate-not-a-point"
  ELSE IF ev.k = "ret" THEN TsRet(cfg, st, ev)
  ELSE IF ev.k = "opt" THEN "" \* judged by Clauses_TsOptimum
  ELSE IF st.stop THEN "ts-continues-after-stop"
  ELSE IF st.k >= cfg.maxit THEN "ts-exceeds-budget"
  ELSE IF st.k > 1 /\ RLt(st.cert, RSub(cfg.tol, TsCertNoise(cfg, st))) THEN "ts-continues-below-tolerance"
  ELSE TsIteration(cfg, st, ev)

TsAfter(cfg, st, ev) == IF ev.k = "cb" THEN TsNext(cfg, st, ev) ELSE st

(***************************************************************************)
(* The minimizer, when f is strongly convex with modulus mu.  xs is a      *)
(* witness: xi1 in the subdifferential of P1 at xs, xi2 of P2, and         *)
(* grad f(xs) + xi1 + xi2 = 0 up to wtol (so it is within wtol / mu of the *)
(* minimizer).  The last step gives subgradients at x and z that add up to *)
(* a vector of norm cert, hence                                            *)
(*   mu |z - xs|^2 <= cert |z - xs| + s cert |xi - xi1|.                   *)
(***************************************************************************)
TsOptimum(cfg, st, ev) ==
  LET res == NormInf(VAdd(ev.gs, VAdd(ev.xi1, ev.xi2)))
      D == SqrtUp(DistSq(st.xi, ev.xi1))
      a == RDiv(RAdd(cfg.tol, Eps(9)), ev.mu)
      bound == RAdd(RAdd(a, SqrtUp(RMul(RMul(a, st.s), D))), RAdd(RMul(st.s, cfg.tol), Eps(6)))
  IN IF ~SubGrad(ev.P1, ev.xi1, ev.xs, Eps(8)) \/ ~SubGrad(ev.P2, ev.xi2, ev.xs, Eps(8)) \/ RLt(Eps(8), res)
     THEN "ts-witness"
     ELSE IF RLt(RSqr(bound), DistSq(st.x, ev.xs)) THEN "ts-success-not-optimal"
     ELSE ""
================================================================================
