------------------------------ MODULE ElemSelfTest -----------------------------
(* Functional equations and known values pin down Elem.tla. *)
EXTENDS Elem, TLC
VARIABLE k
Rel(a, b) == RLe(RAbs(RSub(a, b)), RMul(RPow2(-60), RMax(RAbs(a), RAbs(b))))
T == {R(0, 1), R(1, 1), R(-1, 1), R(1, 3), R(-7, 5), R(45, 2), R(-37, 1), R(700, 1), R(-745, 1), R(1, 1000000)}
\* e to 18 digits; e > 1 is the value of the series, an independent bound: sum 1/i! for i <= 20
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN One ELSE RMul(R(n, 1), Fact(n - 1))
RECURSIVE ESum(_)
ESum(n) == IF n < 0 THEN Zero ELSE RAdd(RDiv(One, Fact(n)), ESum(n - 1))
Ok ==
  CASE k = 0 -> /\ Rel(Log1p(One), Ln2) /\ Exp(Zero) = One /\ Rel(Exp(One), ESum(25))
                /\ \A a \in T : \A b \in T :
                      RLt(RAdd(a, b), R(-1000, 1)) \/ Rel(Exp(RAdd(a, b)), RMul(Exp(a), Exp(b)))
    [] k = 1 -> \* log1p inverts exp:  exp(log1p(y)) = 1 + y
                \A y \in {Zero, One, Half, R(1, 3), R(1, 1048576), RPow2(-200)} :
                   /\ Rel(Exp(Log1p(y)), RAdd(One, y))
                   /\ RLe(Log1p(y), RMul(y, RAdd(One, RPow2(-60))))
                   /\ RGe(Log1p(y), RMul(RSub(y, RMul(Half, RSqr(y))), RSub(One, RPow2(-60))))
    [] k = 2 -> \A t \in T : /\ Rel(RAdd(Sigmoid(t), Sigmoid(RNeg(t))), One)
                             /\ Rel(RSub(Softplus(t), Softplus(RNeg(t))), t)
                             /\ Rel(SigmoidD(t), RMul(Sigmoid(t), Sigmoid(RNeg(t))))
                             /\ RLe(Exp(RNeg(Softplus(t))), One)
                             /\ Rel(Exp(RNeg(Softplus(RNeg(t)))), Sigmoid(t))
    [] k = 3 -> \A t \in T : \A h \in {R(1, 7), R(3, 1)} : RLt(Exp(t), Exp(RAdd(t, h)))
    [] OTHER -> TRUE
Init == k = 0
Next == k < 4 /\ k' = k + 1
Spec == Init /\ [][Next]_k
================================================================================
