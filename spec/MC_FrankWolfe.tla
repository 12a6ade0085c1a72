------------------------------ MODULE MC_FrankWolfe ------------------------------
(***************************************************************************)
(* Pairwise and vanilla Frank-Wolfe on the L1 ball of radius one in two    *)
(* dimensions, minimizing a quadratic whose centre an adversary may move   *)
(* at every step (so that every sequence of queries occurs), with the step *)
(* rules of the code and with arbitrary fractions of the maximum step.     *)
(* Every behaviour of depth at most D is enumerated in exact arithmetic.   *)
(*                                                                         *)
(* hist records the queries, step fractions and resulting states: GEN      *)
(* lines, replayed into the code by checks/c02.py.                         *)
(***************************************************************************)
EXTENDS FrankWolfe, Oracles, TLC, Json
CONSTANTS D, Rules, Pair
VARIABLES x, act, t, hist, ok, gapok

Ball == [t |-> "l1", r |-> One]
Us == {<<R(2, 1), One>>, <<One, R(-2, 1)>>, <<R(-2, 1), R(-1, 1)>>, <<R(-1, 1), R(2, 1)>>, <<R(1, 2), R(-1, 1)>>}
Cfg(rule) == [S |-> Ball, pair |-> Pair, rule |-> rule, L |-> One, Lhi |-> "inf", tol |-> R(-1000, 1),
              maxit |-> 1000, ftol |-> Zero, gtol |-> Zero, prop |-> "all"]
Vid(v) == ToString(v)
VtxOf(rep) == L1Vertex(Ball, 2, rep)
AsAct(a) == [k \in DOMAIN a |-> [id |-> Vid(VtxOf(a[k])), p |-> VtxOf(a[k]), w |-> a[k].w]]

Start0 == [sign |-> "1", i |-> 1, w |-> One]
Init == /\ x = VtxOf(Start0) /\ act = <<Start0>> /\ t = 0 /\ hist = <<>> /\ ok = "" /\ gapok = TRUE

Without(a, rep) == SelectSeq(a, LAMBDA e : e.sign # rep.sign \/ e.i # rep.i)
Has(a, rep) == \E k \in DOMAIN a : a[k].sign = rep.sign /\ a[k].i = rep.i
Add(a, rep, g) == IF Has(a, rep) THEN [k \in DOMAIN a |-> IF a[k].sign = rep.sign /\ a[k].i = rep.i
                                                           THEN [a[k] EXCEPT !.w = RAdd(@, g)] ELSE a[k]]
                  ELSE Append(a, [sign |-> rep.sign, i |-> rep.i, w |-> g])
\* update of the code: add to the FW vertex, take from the away vertex, drop it when exhausted
Update(a, fw, away, g) ==
  LET b == Add(Add(a, fw, g), away, RNeg(g)) IN
  IF \E k \in DOMAIN b : b[k].sign = away.sign /\ b[k].i = away.i /\ b[k].w = Zero THEN Without(b, away) ELSE b

Query(u) ==
  LET fw == LmoL1(Ball, u)
      s == VtxOf(fw)
      aw == act[AwayIdx(act, u)]
      away == [sign |-> aw.sign, i |-> aw.i]
  IN [k |-> "lmo", x |-> x, Wx |-> "none", u |-> u, g |-> VNeg(u), f |-> Zero, exhausted |-> TRUE,
      d |-> IF Pair THEN VSub(s, VtxOf(away)) ELSE VSub(s, x),
      smax |-> IF Pair THEN aw.w ELSE One, act |-> AsAct(act),
      fw |-> Vid(s), away |-> Vid(VtxOf(away)), fwr |-> fw, awr |-> away]

StepOf(rule, q, frac) ==
  CASE rule = "sublinear" -> SublinearStep(t, q)
    [] rule = "DR" -> IF Norm2Sq(q.d) = Zero THEN Zero ELSE RMax(Zero, DrStep(Cfg(rule), q))
    [] rule = "user" -> RMul(frac, q.smax)

Step == /\ t < D
        /\ \E u \in Us, rule \in Rules : \E frac \in IF rule = "user" THEN {Half, One} ELSE {One} :
           LET q == Query(u)
               g == StepOf(rule, q, frac)
               x2 == VAxpy(g, q.d, x)
               a2 == IF Pair THEN Update(act, q.fwr, q.awr, g) ELSE act
               st == [has |-> TRUE, prev |-> q, t |-> t, cb |-> TRUE, stop |-> FALSE, step |-> g]
               ret == [k |-> "ret", x |-> x2, Wx |-> "none", act |-> AsAct(a2), cert |-> Gap(q), success |-> FALSE]
           IN /\ x' = x2 /\ act' = a2 /\ t' = t + 1
              /\ hist' = Append(hist, [u |-> u, g |-> g, x |-> x2, act |-> a2])
              \* the clauses that judge the code accept every step of the algorithm
              /\ ok' = IF FwC01(Cfg(rule), st, ret) # "" THEN FwC01(Cfg(rule), st, ret)
                       ELSE IF Pair THEN FwC02(Cfg(rule), st, ret) ELSE ""
              /\ gapok' = RLe(Zero, Gap(q))
Next == Step
Spec == Init /\ [][Next]_<<x, act, t, hist, ok, gapok>>

Feasible == InSet(Ball, x, "none", Zero)
Decomposition == Pair => IsActive(Ball, act) /\ PointOf(Ball, 2, act) = x
Accepted == ok = ""
GapNonNegative == gapok
\* an update that keeps an exhausted vertex, or that moves a different weight, is rejected
Sharp == (Pair /\ hist # <<>>) =>
  LET bad == [act EXCEPT ![1].w = RAdd(@, R(1, 8))] IN
  ActClause(Cfg("user"), AsAct(bad), x) # ""
Gen == t = D => PrintT(<<"GEN", ToJson(hist)>>)
================================================================================
