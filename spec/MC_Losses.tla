-------------------------------- MODULE MC_Losses --------------------------------
(***************************************************************************)
(* The loss definitions against each other, on a grid of margins and       *)
(* targets:  the derivative is monotone (the losses are convex) and lies   *)
(* between the difference quotients of the value, the curvature between    *)
(* those of the derivative; curvature constants bound both.                *)
(***************************************************************************)
EXTENDS Losses, TLC
CONSTANTS K
VARIABLES z, y, f
Types == {[t |-> "log", delta |-> One], [t |-> "square", delta |-> One], [t |-> "huber", delta |-> One],
          [t |-> "huber", delta |-> R(5, 2)], [t |-> "hinge", delta |-> One]}
Ys(t) == IF t = "log" THEN {Zero, One, R(1, 4)} ELSE {Zero, R(-3, 2), R(2, 1)}
Init == /\ f \in Types /\ z \in {R(i, 2) : i \in (0 - K)..K} /\ y \in Ys(f.t)
Next == UNCHANGED <<z, y, f>>
Spec == Init /\ [][Next]_<<z, y, f>>
H == R(1, 64)
Slack == Eps(15)
V(t) == PhiVal(f, t, y)
Dv(t) == PhiDer(f, t, y)
Convex == RLe(Dv(z), RAdd(Dv(RAdd(z, H)), Slack))
DerivativeOfValue ==
  LET q == RDiv(RSub(V(RAdd(z, H)), V(z)), H) IN
  RLe(Dv(z), RAdd(q, Slack)) /\ RLe(q, RAdd(Dv(RAdd(z, H)), Slack))
Curvature ==
  LET q == RDiv(RSub(Dv(RAdd(z, H)), Dv(z)), H) IN
  /\ RLe(q, RAdd(CurvConst(f), Slack))
  /\ f.t = "log" => RLe(RAbs(RSub(q, PhiDer2(f, RAdd(z, RMul(Half, H))))), R(1, 1000))
NonNegative == RLe(RNeg(Slack), V(z))
\* the value at a label is zero exactly where the prediction is perfect (square, huber)
Zeroed == f.t # "log" => (V(y) = Zero /\ Dv(y) = Zero)
================================================================================
