------------------------------ MODULE MC_ThreeSplit -----------------------------
(***************************************************************************)
(* Three-operator splitting on every separable problem of a grid:          *)
(*    H/2 (x - c)^2  +  a |x|  +  indicator of [0, b]                      *)
(* in two dimensions, with a fixed step, from every start of the grid.     *)
(* Checked: the clauses accept every step and reject perturbed ones; a     *)
(* state that repeats is optimal and conversely the minimizer with its     *)
(* multipliers is a fixed point; the error bound of ThreeSplit.tla.        *)
(***************************************************************************)
EXTENDS ThreeSplit, TLC, Json
CONSTANTS D, Cs, As, Xs, Steps, GenOn
VARIABLES par, st, hist, ok, facts

Q(n) == R(n, 4)
Vecs(S) == {<<Q(a - 5), Q(b - 5)>> : a \in S, b \in S}
Hs == {<<R(1, 1), R(2, 1)>>, <<R(3, 1), R(1, 1)>>}
Fv(p, v) == RMul(Half, Dot(p.H, [i \in DOMAIN v |-> RSqr(RSub(v[i], p.c[i]))]))
Gv(p, v) == [i \in DOMAIN v |-> RMul(p.H[i], RSub(v[i], p.c[i]))]
Soft1(v, lam) == RSub(RMax(RSub(v, lam), Zero), RMax(RSub(RNeg(v), lam), Zero))
Soft(v, lam) == [i \in DOMAIN v |-> Soft1(v[i], lam)]
Box(v) == [i \in DOMAIN v |-> RMax(Zero, RMin(One, v[i]))]
\* the minimizer, coordinate by coordinate
Best(p) == Box([i \in 1..2 |-> Soft1(p.c[i], RDiv(p.a, p.H[i]))])

Cfg(p) == [x0 |-> p.x0, step |-> p.s, ls |-> FALSE, hlip |-> "none", tol |-> Zero, maxit |-> D + 1, gaveup |-> FALSE,
           ftol |-> Eps(18)]
C1(p, v, s) == [v |-> v, s |-> s, z |-> Soft(v, RMul(s, p.a)), f |-> Fv(p, Soft(v, RMul(s, p.a)))]
C2(p, v, s) == [v |-> v, s |-> s, z |-> Box(v), f |-> Fv(p, Box(v)), g |-> Gv(p, Box(v))]

Init == /\ \E H \in Hs, c \in Vecs(Cs), a \in As, x0 \in Vecs(Xs), s \in Steps :
             par = [H |-> H, c |-> c, a |-> Q(a), x0 |-> x0, s |-> Q(s)]
        /\ st = TsStart(Cfg(par)) /\ hist = <<>> /\ ok = "" /\ facts = TRUE

Event(p) ==
  LET c0 == C2(p, p.x0, p.s)
      z == IF st.k = 0 THEN c0.z ELSE st.z
      u == IF st.k = 0 THEN VZero(2) ELSE st.u
      c1 == C1(p, VAxpy(RNeg(p.s), VAdd(u, Gv(p, z)), z), p.s)
      c2 == C2(p, VAxpy(p.s, u, c1.z), p.s)
  IN [k |-> "cb", x |-> c1.z, ret |-> FALSE, p1 |-> <<c1>>,
      p2 |-> IF st.k = 0 THEN <<c0, c2>> ELSE <<c2>>]

Next ==
  /\ Len(hist) < D
  /\ LET p == par
         ev == Event(p)
         n == TsNext(Cfg(p), st, ev)
         best == Best(p)
         \* subgradient of the penalty at x, and its counterpart at the minimizer
         xi == n.xi
     IN /\ ok' = TsClause(Cfg(p), st, ev)
        /\ st' = n
        /\ hist' = Append(hist, [x |-> n.x, z |-> n.z])
        /\ facts' =
             \* the two subgradients are subgradients
             /\ \A i \in 1..2 : IF RSgn(n.x[i]) > 0 THEN xi[i] = p.a ELSE IF RSgn(n.x[i]) < 0 THEN xi[i] = RNeg(p.a)
                                ELSE RLe(RAbs(xi[i]), p.a)
             /\ \A i \in 1..2 : IF n.z[i] = Zero THEN RLe(n.u[i], Zero) ELSE IF n.z[i] = One THEN RLe(Zero, n.u[i])
                                ELSE RLe(RAbs(n.u[i]), RPow2(-200))
             \* fixed points are minimizers
             /\ (st.k > 0 /\ n.z = st.z /\ n.x = n.z => n.z = best)
             \* error bound: mu = 1, any minimizer multiplier is within |xi| <= a
             /\ RLe(DistSq(n.zold, best),
                    RAdd(RMul(n.cert, SqrtUp(DistSq(n.zold, best))),
                         RAdd(RMul(RMul(p.s, n.cert), RMul(R(4, 1), p.a)), Eps(15)))) \/ st.k = 0
        /\ UNCHANGED par
Spec == Init /\ [][Next]_<<par, st, hist, ok, facts>>

Accepted == ok = ""
Facts == facts
Sharp == (st.k > 0 /\ Len(hist) < D) =>
  LET ev == Event(par)
      moved == [ev EXCEPT !.p1[1].v[1] = RAdd(@, R(1, 64))]
      dual == [ev EXCEPT !.p2[1].v[2] = RAdd(@, R(1, 64))]
      other == [ev EXCEPT !.p2[1].s = RMul(Two, @)]
  IN /\ TsClause(Cfg(par), st, moved) # ""
     /\ TsClause(Cfg(par), st, dual) # ""
     /\ TsClause(Cfg(par), st, other) # ""
Gen == (GenOn /\ Len(hist) = D) =>
  PrintT(<<"GEN", ToJson([H |-> par.H, c |-> par.c, a |-> par.a, x0 |-> par.x0, s |-> par.s, hist |-> hist])>>)
================================================================================
