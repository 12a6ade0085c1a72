--------------------------------- MODULE Oracles --------------------------------
(***************************************************************************)
(* The oracles as algorithms, on top of the characterizations in Sets.tla: *)
(* the coordinate rule of the L1 ball and the simplex, and the pairwise    *)
(* rule of the L1 ball.  Checked against Sets.tla in MC_Oracles.           *)
(***************************************************************************)
EXTENDS Sets

ArgMax(v) == CHOOSE i \in DOMAIN v : \A j \in DOMAIN v : RLt(v[j], v[i]) \/ (v[i] = v[j] /\ i <= j)

LmoL1(S, u) == LET i == ArgMax([k \in DOMAIN u |-> RAbs(u[k])]) IN
               [sign |-> R(RSgn(u[i]), 1), i |-> i]
LmoSimplex(S, u) == VScale(S.r, VUnit(Len(u), ArgMax(u)))

\* active sets: sequences of [sign, i, w] with distinct vertices and weights that sum to one
IsActive(S, act) ==
  /\ act # <<>>
  /\ \A k \in DOMAIN act : RLt(Zero, act[k].w)
  /\ VSum([k \in DOMAIN act |-> act[k].w]) = One
  /\ \A k, j \in DOMAIN act : k # j => act[k].sign # act[j].sign \/ act[k].i # act[j].i
PointOf(S, n, act) ==
  [p \in 1..n |-> VSum([k \in DOMAIN act |->
      IF act[k].i = p THEN RMul(act[k].w, RMul(S.r, act[k].sign)) ELSE Zero])]

\* away vertex: least correlated with u; ties go to the first
AwayIdx(act, u) ==
  LET c(k) == RMul(act[k].sign, u[act[k].i]) IN
  CHOOSE k \in DOMAIN act : \A j \in DOMAIN act : RLt(c(k), c(j)) \/ (c(k) = c(j) /\ k <= j)
================================================================================
