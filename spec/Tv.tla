----------------------------------- MODULE Tv -----------------------------------
(***************************************************************************)
(* One-dimensional total variation by the taut string: the running sums of *)
(* the solution form the shortest path from (0, 0) to (n, W_n) inside the  *)
(* tube |z_k - W_k| <= lam, W the running sums of the signal w.            *)
(*                                                                         *)
(* State: the last knot (i, z) of the path, the end k of the window looked *)
(* at, and the slopes emitted so far (x).  Extend widens the window while  *)
(* some straight line from the knot stays inside the tube, Knot bends the  *)
(* string where it touches the tube, Finish draws the last segment.        *)
(***************************************************************************)
EXTENDS Prox
CONSTANT Signals       \* pairs <<w, lam>>
VARIABLES w, lam, i, z, k, x
tvvars == <<w, lam, i, z, k, x>>

N == Len(w)
W(j) == VSum(SubSeq(w, 1, j))
Wide(j) == IF j = N THEN Zero ELSE lam
Lo(j) == RSub(W(j), Wide(j))
Up(j) == RAdd(W(j), Wide(j))
Slope(j, v) == RDiv(RSub(v, z), R(j - i, 1))

\* best lower and upper slopes over the window i+1..m
LowSlope(m) == FoldLeft(RMax, Slope(i + 1, Lo(i + 1)), [j \in 1..(m - i) |-> Slope(i + j, Lo(i + j))])
UpSlope(m)  == FoldLeft(RMin, Slope(i + 1, Up(i + 1)), [j \in 1..(m - i) |-> Slope(i + j, Up(i + j))])
Straight(m) == RLe(LowSlope(m), UpSlope(m))

Init == /\ \E s \in Signals : w = s[1] /\ lam = s[2]
        /\ i = 0 /\ z = Zero /\ k = 1 /\ x = <<>>

Extend == /\ k < N /\ Straight(k + 1)
          /\ k' = k + 1
          /\ UNCHANGED <<w, lam, i, z, x>>

\* the point where the string leaves a straight line: the last one that attains the binding slope
Knot ==
  /\ k < N /\ ~Straight(k + 1)
  /\ LET bendUp == RLt(UpSlope(k), LowSlope(k + 1))      \* k+1 needs a steeper line than the ceiling allows
         s == IF bendUp THEN UpSlope(k) ELSE LowSlope(k)
         js == {j \in (i + 1)..k : Slope(j, IF bendUp THEN Up(j) ELSE Lo(j)) = s}
         j == CHOOSE q \in js : \A r \in js : r <= q
     IN /\ x' = x \o [t \in 1..(j - i) |-> s]
        /\ i' = j
        /\ z' = RAdd(z, RMul(s, R(j - i, 1)))
        /\ k' = j + 1
  /\ UNCHANGED <<w, lam>>

Finish == /\ k = N /\ i < N
          /\ x' = x \o [t \in 1..(N - i) |-> Slope(N, W(N))]
          /\ i' = N /\ z' = W(N)
          /\ UNCHANGED <<w, lam, k>>

Next == Extend \/ Knot \/ Finish
Spec == Init /\ [][Next]_tvvars /\ WF_tvvars(Next)

TypeOk == Len(x) = i /\ i <= N
InTube == i > 0 => RLe(Lo(i), z) /\ RLe(z, Up(i))
Done == i = N
\* the path found is the proximal point of total variation
Optimal == Done => IsProx([t |-> "tv", a |-> One], lam, w, x, [ok |-> FALSE], [ok |-> FALSE], Zero)
\* and the judgement run by run agrees, for runs of one and of two entries, and is sharp
AsRun(m) == [lens |-> [j \in 1..N |-> m], w |-> w, lo |-> x, hi |-> x, lam |-> RMul(R(m, 1), lam), tol |-> Zero]
RunsAgree == Done => /\ Clauses_TvRun(AsRun(1)) = "" /\ Clauses_TvRun(AsRun(2)) = ""
                     /\ \A j \in 1..N : Clauses_TvRun([AsRun(1) EXCEPT !.lo[j] = RAdd(@, One), !.hi[j] = RAdd(@, One)]) # ""
                     /\ (RSgn(lam) > 0 /\ x # w => Clauses_TvRun([AsRun(1) EXCEPT !.lo = w, !.hi = w]) # "")
\* total variation never grows, and the mean is kept
Shrinks == Done => RLe(Tv(x), Tv(w)) /\ VSum(x) = VSum(w)
Terminates == <>Done
================================================================================
