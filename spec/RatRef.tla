-------------------------------- MODULE RatRef ---------------------------------
(* Reference meaning of Rat.tla and Vec.tla over pairs <<p, q>> of integers, q > 0, not reduced. *)
EXTENDS Integers, Sequences
FAdd(a, b) == <<a[1] * b[2] + b[1] * a[2], a[2] * b[2]>>
FSub(a, b) == <<a[1] * b[2] - b[1] * a[2], a[2] * b[2]>>
FMul(a, b) == <<a[1] * b[1], a[2] * b[2]>>
FDiv(a, b) == IF b[1] > 0 THEN <<a[1] * b[2], a[2] * b[1]>> ELSE <<-(a[1] * b[2]), a[2] * (-b[1])>>
FNeg(a)    == <<-a[1], a[2]>>
FAbs(a)    == IF a[1] < 0 THEN FNeg(a) ELSE a
FLe(a, b)  == a[1] * b[2] <= b[1] * a[2]
FLt(a, b)  == a[1] * b[2] < b[1] * a[2]
FEq(a, b)  == a[1] * b[2] = b[1] * a[2]
FMax(a, b) == IF FLe(b, a) THEN a ELSE b
FMin(a, b) == IF FLe(a, b) THEN a ELSE b
RECURSIVE FSumTo(_, _)
FSumTo(f, n) == IF n = 0 THEN <<0, 1>> ELSE FAdd(FSumTo(f, n - 1), f[n])
FDot(a, b) == FSumTo([i \in DOMAIN a |-> FMul(a[i], b[i])], Len(a))
================================================================================
