-------------------------------- MODULE MC_Prox --------------------------------
(***************************************************************************)
(* The optimality conditions that judge proximal points, compared with the *)
(* definition (minimizer of lam N(z) + |z - x|^2 / 2) on a grid of z, and  *)
(* with the closed forms of soft and group thresholding.                   *)
(***************************************************************************)
EXTENDS Prox, TLC, Json
CONSTANTS N, K, D        \* x in {-K..K}^N, z on a grid of step 1/D
VARIABLES x, p
Grid(k, d) == {R(i, d) : i \in (0 - k)..k}
Pens == {[t |-> "l1", a |-> One], [t |-> "l1", a |-> Half], [t |-> "tv", a |-> Half], [t |-> "tv", a |-> One],
         [t |-> "group", a |-> One, g |-> <<<<1>>, <<2, 3>>>>], [t |-> "group", a |-> Half, g |-> <<<<2>>>>],
         [t |-> "group", a |-> One, g |-> <<<<1, 2, 3>>>>],
         [t |-> "tvcols", a |-> Half, m |-> 3, n |-> 1], [t |-> "tvrows", a |-> Half, m |-> 3, n |-> 1],
         [t |-> "zero", a |-> One]}
Zs == [1..N -> Grid(K * D, D)]
Init == x \in [1..N -> Grid(K, 1)] /\ p \in Pens
Next == UNCHANGED <<x, p>>
Spec == Init /\ [][Next]_<<x, p>>

Tiny == Eps(15)
Obj(z) == RAdd(RMul(p.a, PNorm(p, z, [ok |-> FALSE])), RMul(Half, DistSq(z, x)))
Ok(z) == IsProx(p, One, x, z, [ok |-> FALSE], [ok |-> FALSE], Tiny)
Good == {z \in Zs : Ok(z)}
NoFalseMinimizer == \A z \in Good : \A q \in Zs : RLe(Obj(z), RAdd(Obj(q), Eps(12)))
AtMostOne == Cardinality(Good) <= 1

Shrink(v, lam) == RSub(RMax(RSub(v, lam), Zero), RMax(RSub(RNeg(v), lam), Zero))
\* the rule of the code for a group, in exact arithmetic up to the square root
GShrink(w, lam) == LET nn == SqrtLo(Norm2Sq(w)) IN
  IF RLt(lam, nn) THEN VScale(RSub(One, RDiv(lam, nn)), w) ELSE VZero(Len(w))
GroupRule == [j \in 1..N |->
   IF InGroup(p, j)
   THEN LET k == CHOOSE k \in DOMAIN p.g : \E i \in DOMAIN p.g[k] : p.g[k][i] = j
            i == CHOOSE i \in DOMAIN p.g[k] : p.g[k][i] = j
        IN GShrink(VPick(x, p.g[k]), p.a)[i]
   ELSE x[j]]
ClosedForms ==
  /\ p.t = "l1" => Ok([j \in 1..N |-> Shrink(x[j], p.a)])
  /\ p.t = "group" => Ok(GroupRule)
  /\ p.t = "zero" => Ok(x)
Gen == PrintT(<<"GEN", ToJson([x |-> x])>>)
================================================================================
