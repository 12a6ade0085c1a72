---------------------------------- MODULE Vec ----------------------------------
(***************************************************************************)
(* Vectors (sequences of rationals) and matrices (sequences of rows).      *)
(*                                                                         *)
(* The definitions below are executable; for speed TLC evaluates the ones  *)
(* marked (J) with java/vr/RatOverrides.java.  VecRef.tla repeats them     *)
(* under other names, and RatSelfTest.tla compares the two.                *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, SequencesExt

VZero(n)      == [i \in 1..n |-> Zero]
VUnit(n, k)   == [i \in 1..n |-> IF i = k THEN One ELSE Zero]
VSum(a)       == FoldLeft(RAdd, Zero, a)                                          \* (J)
Dot(a, b)     == FoldLeft(RAdd, Zero, [i \in DOMAIN a |-> RMul(a[i], b[i])])      \* (J)
Norm1(a)      == FoldLeft(RAdd, Zero, [i \in DOMAIN a |-> RAbs(a[i])])            \* (J)
NormInf(a)    == FoldLeft(RMax, Zero, [i \in DOMAIN a |-> RAbs(a[i])])            \* (J)
VAdd(a, b)    == [i \in DOMAIN a |-> RAdd(a[i], b[i])]                            \* (J)
VSub(a, b)    == [i \in DOMAIN a |-> RSub(a[i], b[i])]                            \* (J)
VScale(c, a)  == [i \in DOMAIN a |-> RMul(c, a[i])]                               \* (J)
VAxpy(c, d, x) == [i \in DOMAIN x |-> RAdd(x[i], RMul(c, d[i]))]                  \* (J)  x + c d
MatVec(A, x)  == [i \in DOMAIN A |-> Dot(A[i], x)]                                \* (J)
MatTVec(A, y, n) ==
  [j \in 1..n |-> FoldLeft(RAdd, Zero, [i \in DOMAIN A |-> RMul(A[i][j], y[i])])] \* (J)
VIsNum(a)     == \A i \in DOMAIN a : RIsNum(a[i])                                 \* (J)  also: is a sequence

VNeg(a)       == VScale(R(-1, 1), a)
Norm2Sq(a)    == Dot(a, a)
Norm2(a)      == SqrtLo(Norm2Sq(a))
DistSq(a, b)  == LET d == VSub(a, b) IN Dot(d, d)
DistInf(a, b) == NormInf(VSub(a, b))
VMaxOf(a)     == FoldLeft(RMax, a[1], a)
VMinOf(a)     == FoldLeft(RMin, a[1], a)

\* Agreement up to rounding: |a_i - b_i| <= tol (1 + max |a|), and same length.
VNear(a, b, tol) ==
  /\ Len(a) = Len(b)
  /\ VIsNum(a) /\ VIsNum(b)
  /\ RLe(DistInf(a, b), RMul(tol, RAdd(One, NormInf(a))))

\* Agreement relative to a given scale
VNearS(a, b, tol, scale) ==
  /\ Len(a) = Len(b)
  /\ VIsNum(a) /\ VIsNum(b)
  /\ RLe(DistInf(a, b), RMul(tol, scale))

RNear(a, b, tol) == RIsNum(a) /\ RIsNum(b) /\ RLe(RAbs(RSub(a, b)), RMul(tol, RAdd(One, RAbs(a))))
RNearS(a, b, tol, scale) == RIsNum(a) /\ RIsNum(b) /\ RLe(RAbs(RSub(a, b)), RMul(tol, scale))
RLeTol(a, b, tol) == RLe(a, RAdd(b, tol))

\* Sub-vector of the (1-based) indices in the sequence g
VPick(x, g) == [k \in DOMAIN g |-> x[g[k]]]

\* The matrix with the given rows transposed (n columns)
MatT(A, n) == [j \in 1..n |-> [i \in DOMAIN A |-> A[i][j]]]

Col(A, j) == [i \in DOMAIN A |-> A[i][j]]
================================================================================
