-------------------------------- MODULE MC_Sets --------------------------------
(***************************************************************************)
(* Exhaustive checks of Sets.tla on small grids.                           *)
(*                                                                         *)
(* The variational characterization of projections that judges the code is *)
(* compared with the definition: on a grid of points p it accepts exactly  *)
(* those nearest to x among all grid points of the set (whenever the set's *)
(* projection is a grid point it is accepted, and nothing else is).        *)
(* The support functions are compared with the maximum over the grid's     *)
(* points of the set, which contains the vertices.                         *)
(***************************************************************************)
EXTENDS Sets, TLC
CONSTANTS K, D          \* coordinates are -K/D .. K/D in steps of 1/D
VARIABLES x, s
Coord == {R(i, D) : i \in (0 - K)..K}
Pts   == {<<a, b>> : a \in Coord, b \in Coord}
SetsC == {[t |-> "l1", r |-> One], [t |-> "linf", r |-> Half], [t |-> "simplex", r |-> One],
          [t |-> "poly", r |-> One, v |-> <<<<One, Zero>>, <<Zero, One>>, <<R(-1, 1), Zero>>>>]}
\* membership in the polytope above, without a witness: |a| + b <= 1, b >= 0
In(S, p) == IF S.t = "poly" THEN RLe(RAdd(RAbs(p[1]), p[2]), One) /\ RLe(Zero, p[2])
            ELSE InSet(S, p, "none", Zero)
Members(S) == {p \in Pts : In(S, p)}

Init == x \in Pts /\ s \in SetsC
Next == UNCHANGED <<x, s>>
Spec == Init /\ [][Next]_<<x, s>>

\* the variational inequality, exactly
Vi(S, y, p) == RLe(Supp(S, VSub(y, p), "none"), Dot(VSub(y, p), p))
Closest(S, y, p) == \A q \in Members(S) : RLe(DistSq(y, p), DistSq(y, q))

SupportIsMax == LET m == Members(s) IN
  /\ \A p \in m : RLe(Dot(x, p), Supp(s, x, "none"))
  /\ \E p \in m : Dot(x, p) = Supp(s, x, "none")
ViImpliesNearest == \A p \in Members(s) : Vi(s, x, p) => Closest(s, x, p)
UniqueNearest == Cardinality({p \in Members(s) : Vi(s, x, p)}) <= 1
FeasibleFixed == In(s, x) => Vi(s, x, x)
\* exact projections known in closed form
LinfProj == s.t = "linf" => Vi(s, x, [i \in 1..2 |-> RMax(RNeg(s.r), RMin(s.r, x[i]))])
================================================================================
