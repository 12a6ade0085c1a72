---------------------------------- MODULE Elem ---------------------------------
(***************************************************************************)
(* Elementary functions of rationals, to a relative error below 2^-60.     *)
(*                                                                         *)
(* Exp: t = k ln 2 + r with 0 <= r < ln 2 (ln 2 to 2^-200), a Taylor       *)
(* polynomial of degree 24 (remainder < 2^-90 relative) evaluated with     *)
(* 2^-100 rounding, scaled by 2^k.  For t < -1000 the value is 0 (the      *)
(* true one is below 2^-1442, under the smallest float).                                       *)
(* Log1p, for 0 <= y <= 1: 2 artanh(y / (2 + y)), 40 terms (9^-40).        *)
(* ElemSelfTest.tla checks the functional equations.                       *)
(***************************************************************************)
EXTENDS Vec

\* keep 110 significant bits
Trim(a) == IF a = Zero THEN Zero ELSE RFloor(a, 110 - RLog2(a))

RECURSIVE AtanhSum(_, _, _, _)
\* sum_{j >= k} z^(2j+1) / (2j+1), with pw = z^(2k+1); terms below eps are dropped
AtanhSum(pw, z2, k, eps) ==
  IF k > 40 \/ RLe(pw, eps) THEN Zero
  ELSE RAdd(Trim(RDiv(pw, R(2 * k + 1, 1))), AtanhSum(Trim(RMul(pw, z2)), z2, k + 1, eps))

Log1p(y) == LET z == Trim(RDiv(y, RAdd(Two, y))) IN
            Trim(RMul(Two, AtanhSum(z, Trim(RSqr(z)), 0, RMul(z, RPow2(-110)))))

\* ln 2, rounded down to 2^-200 (ElemSelfTest.tla compares it with 2 artanh(1/3))
Ln2 == "58b90bfbe8e7bcd5e4f1d9cc01f97b57a079a193394c5b16c5/80000000000000000000000000000000000000000000000000"

RECURSIVE ExpPoly(_, _, _)
\* 1 + r/k (1 + r/(k+1) (...)), Horner
ExpPoly(r, k, n) == IF k > n THEN One
                    ELSE RAdd(One, Trim(RMul(RDiv(r, R(k, 1)), ExpPoly(r, k + 1, n))))

Exp(t) ==
  IF RLt(t, R(-1000, 1)) THEN Zero
  ELSE LET k == RInt(RDiv(t, Ln2))
           r == Trim(RSub(t, RMul(R(k, 1), Ln2)))
       IN RMul(Trim(ExpPoly(r, 1, 24)), RPow2(k))

\* log(1 + e^t), 1 / (1 + e^-t), and the derivative of the latter
Softplus(t) == RAdd(RMax(t, Zero), Log1p(Exp(RNeg(RAbs(t)))))
Sigmoid(t)  == LET e == Exp(RNeg(RAbs(t))) IN
               IF RSgn(t) >= 0 THEN RDiv(One, RAdd(One, e)) ELSE RDiv(e, RAdd(One, e))
SigmoidD(t) == LET e == Exp(RNeg(RAbs(t))) IN RDiv(e, RSqr(RAdd(One, e)))
================================================================================
