------------------------------- MODULE MC_Oracles -------------------------------
(***************************************************************************)
(* Every direction u on a grid and every active set of at most three       *)
(* vertices with weights in quarters.  GEN lines: the cases, replayed into *)
(* the code by checks/c04.py.                                              *)
(***************************************************************************)
EXTENDS Oracles, TLC, Json
CONSTANTS N, K
VARIABLES u, act
Ball == [t |-> "l1", r |-> Two]
Spx  == [t |-> "simplex", r |-> Two]
Grid == {R(i, 1) : i \in (0 - K)..K}
Vert == [sign : {"1", "-1"}, i : 1..N]
Q(i) == R(i, 4)
Weights == {<<Q(4)>>} \cup {<<Q(a), Q(4 - a)>> : a \in 1..3}
           \cup {<<Q(1), Q(1), Q(2)>>, <<Q(1), Q(2), Q(1)>>, <<Q(2), Q(1), Q(1)>>}
With(vs, ws) == [k \in DOMAIN ws |-> [sign |-> vs[k].sign, i |-> vs[k].i, w |-> ws[k]]]
Acts == UNION {{With(vs, ws) : vs \in {v \in [DOMAIN ws -> Vert] :
                    \A a, b \in DOMAIN ws : a # b => v[a] # v[b]}} : ws \in Weights}
Init == u \in [1..N -> Grid] /\ act \in Acts
Next == UNCHANGED <<u, act>>
Spec == Init /\ [][Next]_<<u, act>>

x == PointOf(Ball, N, act)
s == L1Vertex(Ball, N, LmoL1(Ball, u))
a == act[AwayIdx(act, u)]
v == L1Vertex(Ball, N, a)
pd == VSub(s, v)

ActiveOk == IsActive(Ball, act) /\ InSet(Ball, x, "none", Zero)
L1Optimal == InSet(Ball, s, "none", Zero) /\ MaximizesOver(Ball, u, s, "none", Zero)
SimplexOptimal == InSet(Spx, LmoSimplex(Spx, u), "none", Zero) /\ MaximizesOver(Spx, u, LmoSimplex(Spx, u), "none", Zero)
\* the vanilla gap is non-negative, the pairwise one no smaller
Gaps == RLe(Zero, Dot(u, VSub(s, x))) /\ RLe(Dot(u, VSub(s, x)), Dot(u, pd))
\* every step up to the weight of the away vertex stays in the set
StepFeasible == \A k \in 0..4 : InSet(Ball, VAxpy(RMul(R(k, 4), a.w), pd, x), "none", Zero)
\* what judges the code accepts the algorithm
Judged == Clauses_PairwiseOracle(
  [S |-> Ball, u |-> u, d |-> pd, rep |-> LmoL1(Ball, u), away |-> [sign |-> a.sign, i |-> a.i], act |-> act,
   smax |-> a.w, tol |-> Zero, xscale |-> Zero]) = ""
\* and rejects any other active vertex that is strictly worse, and any smaller maximum step
JudgeIsSharp == \A k \in DOMAIN act :
  RLt(Dot(u, v), Dot(u, L1Vertex(Ball, N, act[k]))) =>
  Clauses_PairwiseOracle(
   [S |-> Ball, u |-> u, d |-> VSub(s, L1Vertex(Ball, N, act[k])), rep |-> LmoL1(Ball, u),
    away |-> [sign |-> act[k].sign, i |-> act[k].i], act |-> act, smax |-> act[k].w, tol |-> Zero,
    xscale |-> Zero]) = "pairwise-away-not-worst"
Gen == PrintT(<<"GEN", ToJson([u |-> u, act |-> act])>>)
================================================================================
