------------------------------ MODULE RatSelfTest ------------------------------
(* The Java evaluation of Rat.tla and Vec.tla against RatRef.tla. *)
EXTENDS Vec, RatRef, TLC
VARIABLE k
P == -5..5
D == {1, 2, 3, 4, 6}
F == {<<p, q>> : p \in P, q \in D}
Of(f) == R(f[1], f[2])
Rep(s, f) == s = Of(f)          \* canonical, so string equality is number equality
POW == <<1, 2, 4, 8, 16, 32>>

Scalar == \A a \in F : \A b \in F :
  /\ Rep(RAdd(Of(a), Of(b)), FAdd(a, b))
  /\ Rep(RSub(Of(a), Of(b)), FSub(a, b))
  /\ Rep(RMul(Of(a), Of(b)), FMul(a, b))
  /\ (b[1] # 0 => Rep(RDiv(Of(a), Of(b)), FDiv(a, b)))
  /\ RLe(Of(a), Of(b)) = FLe(a, b)
  /\ RLt(Of(a), Of(b)) = FLt(a, b)
  /\ (Of(a) = Of(b)) = FEq(a, b)
  /\ Rep(RMax(Of(a), Of(b)), FMax(a, b))
  /\ Rep(RMin(Of(a), Of(b)), FMin(a, b))

Unary == \A a \in F :
  /\ Rep(RNeg(Of(a)), FNeg(a)) /\ Rep(RAbs(Of(a)), FAbs(a))
  /\ RSgn(Of(a)) = (IF a[1] > 0 THEN 1 ELSE IF a[1] < 0 THEN -1 ELSE 0)
  /\ \A j \in 0..5 : LET f == RFloor(Of(a), j) IN
       /\ RLe(f, Of(a)) /\ RLt(Of(a), RAdd(f, R(1, POW[j + 1])))
       /\ RFloor(RMul(f, R(POW[j + 1], 1)), 0) = RMul(f, R(POW[j + 1], 1))
  /\ \A j \in 0..5 : LET f == RFloor(RMul(R(64, 1), Of(a)), 0 - j) IN
       /\ RLe(f, RMul(R(64, 1), Of(a))) /\ RLt(RMul(R(64, 1), Of(a)), RAdd(f, R(POW[j + 1], 1)))
       /\ RFloor(RDiv(f, R(POW[j + 1], 1)), 0) = RDiv(f, R(POW[j + 1], 1))
  /\ LET i == RInt(Of(a)) IN RLe(R(i, 1), Of(a)) /\ RLt(Of(a), R(i + 1, 1))
  /\ \A j \in 0..5 : RPow2(j) = R(POW[j + 1], 1) /\ RPow2(0 - j) = R(1, POW[j + 1])
  /\ (a[1] >= 0 => \A j \in 0..5 : LET r == RSqrt(Of(a), j) IN
       /\ RLe(RSqr(r), Of(a)) /\ RLt(Of(a), RSqr(RAdd(r, R(1, POW[j + 1]))))
       /\ RFloor(RMul(r, R(POW[j + 1], 1)), 0) = RMul(r, R(POW[j + 1], 1)))
  /\ (a[1] # 0 => LET e == RLog2(Of(a)) IN
       /\ -3 <= e /\ e <= 2
       /\ RLe(R(POW[e + 4], 8), RAbs(Of(a))) /\ RLt(RAbs(Of(a)), R(2 * POW[e + 4], 8)))
  /\ RIsNum(Of(a)) /\ RIsNum(RShow(Of(a))) \in BOOLEAN

NotNum == ~RIsNum("nan") /\ ~RIsNum("inf") /\ ~RIsNum("-inf") /\ ~RIsNum("") /\ ~RIsNum(3)
          /\ ~VIsNum(<<"1", "nan">>) /\ VIsNum(<<"1", "-1/2">>) /\ ~VIsNum("1")

G == {<<0, 1>>, <<1, 1>>, <<-1, 2>>, <<2, 3>>, <<-3, 4>>}
V2 == [1..2 -> G]
VOf(v) == [i \in DOMAIN v |-> Of(v[i])]
\* the operators of Vec, spelled out with the scalar operators
RECURSIVE S_(_, _)
S_(f, n) == IF n = 0 THEN Zero ELSE RAdd(S_(f, n - 1), f[n])
Vectors == \A a \in V2 : \A b \in V2 :
  LET x == VOf(a) y == VOf(b) IN
  /\ Rep(Dot(x, y), FDot(a, b))
  /\ VAdd(x, y) = [i \in 1..2 |-> RAdd(x[i], y[i])]
  /\ VSub(x, y) = [i \in 1..2 |-> RSub(x[i], y[i])]
  /\ VScale(x[1], y) = [i \in 1..2 |-> RMul(x[1], y[i])]
  /\ VAxpy(x[1], x, y) = [i \in 1..2 |-> RAdd(y[i], RMul(x[1], x[i]))]
  /\ VSum(x) = S_(x, 2) /\ Norm1(x) = S_([i \in 1..2 |-> RAbs(x[i])], 2)
  /\ NormInf(x) = RMax(RAbs(x[1]), RAbs(x[2]))
  /\ MatVec(<<x, y, x>>, y) = <<Dot(x, y), Dot(y, y), Dot(x, y)>>
  /\ MatTVec(<<x, y>>, y, 2) = <<Dot(<<x[1], y[1]>>, y), Dot(<<x[2], y[2]>>, y)>>
Long == LET x == [i \in 1..30 |-> R(i - 15, i)] IN
  /\ Dot(x, x) = S_([i \in 1..30 |-> RMul(x[i], x[i])], 30)
  /\ VSum(x) = S_(x, 30)
  /\ Dot(<<>>, <<>>) = Zero /\ VSum(<<>>) = Zero /\ NormInf(<<>>) = Zero

Init == k = 0
Next == k < 5 /\ k' = k + 1
Spec == Init /\ [][Next]_k
Agree == CASE k = 0 -> Scalar [] k = 1 -> Unary [] k = 2 -> NotNum [] k = 3 -> Vectors [] k = 4 -> Long [] OTHER -> TRUE
================================================================================
