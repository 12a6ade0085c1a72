---------------------------------- MODULE Rat ----------------------------------
(***************************************************************************)
(* Exact rational numbers.                                                 *)
(*                                                                         *)
(* Every float64 is a rational, so everything the implementation computes  *)
(* can be logged without loss and compared exactly.  A rational is the     *)
(* string "p" or "p/q" (hexadecimal, lowest terms, q > 1): equality of the *)
(* strings is equality of the numbers.  "nan", "inf" and "-inf" are what   *)
(* the recorders write for floats that are not numbers.                    *)
(*                                                                         *)
(* TLC evaluates these operators with java/vr/RatOverrides.java            *)
(* (BigInteger arithmetic); their meaning is the one given in the comments *)
(* and, executably, in RatRef.tla over pairs of integers.  RatSelfTest.tla *)
(* compares the two on a grid of values.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences

R(p, q)     == CHOOSE s \in STRING : TRUE    \* p/q for integers p, q # 0
RAdd(a, b)  == CHOOSE s \in STRING : TRUE    \* a + b
RSub(a, b)  == CHOOSE s \in STRING : TRUE    \* a - b
RMul(a, b)  == CHOOSE s \in STRING : TRUE    \* a * b
RDiv(a, b)  == CHOOSE s \in STRING : TRUE    \* a / b for b # 0
RNeg(a)     == CHOOSE s \in STRING : TRUE    \* -a
RAbs(a)     == CHOOSE s \in STRING : TRUE    \* |a|
RMax(a, b)  == CHOOSE s \in STRING : TRUE
RMin(a, b)  == CHOOSE s \in STRING : TRUE
RLe(a, b)   == CHOOSE s \in BOOLEAN : TRUE   \* a <= b
RLt(a, b)   == CHOOSE s \in BOOLEAN : TRUE   \* a < b
RSgn(a)     == CHOOSE s \in Int : TRUE       \* -1, 0 or 1
RFloor(a, k) == CHOOSE s \in STRING : TRUE   \* largest multiple of 2^-k that is <= a
RSqrt(a, k)  == CHOOSE s \in STRING : TRUE   \* largest multiple of 2^-k whose square is <= a
RInt(a)     == CHOOSE s \in Int : TRUE       \* the integer floor(a), if it fits TLC's integers
RPow2(k)    == CHOOSE s \in STRING : TRUE    \* 2^k for an integer k of either sign
RLog2(a)    == CHOOSE s \in Int : TRUE       \* floor(log2 |a|); 0 for a = 0
RShow(a)    == CHOOSE s \in STRING : TRUE    \* decimal rendering, for messages
RIsNum(a)   == CHOOSE s \in BOOLEAN : TRUE   \* is this a rational (not nan, inf or another value)?

Zero == "0"
One  == "1"
Two  == "2"
Half == R(1, 2)

RGe(a, b) == RLe(b, a)
RGt(a, b) == RLt(b, a)
RSqr(a)   == RMul(a, a)

\* 10^-k as a rational, for tolerances
RECURSIVE Ten(_)
Ten(k) == IF k = 0 THEN One ELSE RMul(R(10, 1), Ten(k - 1))
Eps(k) == RDiv(One, Ten(k))

\* |a - b| <= tol
Near(a, b, tol) == RLe(RAbs(RSub(a, b)), tol)

\* Square root with about 80 significant bits, rounded down; and its upper neighbour.
SqrtLo(a) == IF a = Zero THEN Zero ELSE RSqrt(a, 80 - (RLog2(a) \div 2))
SqrtUp(a) == IF a = Zero THEN Zero
             ELSE RMul(SqrtLo(a), RAdd(One, R(1, 1073741824)))
================================================================================
