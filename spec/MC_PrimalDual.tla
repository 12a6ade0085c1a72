------------------------------ MODULE MC_PrimalDual -----------------------------
(***************************************************************************)
(* Primal-dual splitting for   H/2 (x - c)^2 + a | L x |_1   with x of two *)
(* entries, every L of a set of integer matrices (one row, square, more    *)
(* rows than columns, rank deficient), every start of a grid, with and     *)
(* without line search.                                                    *)
(* Checked: the clauses accept every step and reject perturbed ones; fixed *)
(* points are exactly the saddle points; and, without line search and for  *)
(* steps within Condat's bound, the distance to every saddle point of the  *)
(* grid problem never increases in the metric of the method (convergence). *)
(***************************************************************************)
EXTENDS PrimalDual, TLC, Json
CONSTANTS D, Cs, As, Xs, Modes, GenOn
VARIABLES par, st, hist, ok, facts

Q(n) == R(n, 4)
Vecs(S) == {<<Q(a - 5), Q(b - 5)>> : a \in S, b \in S}
I(n) == R(n, 1)
Ls == {<<<<I(1), I(-1)>>>>, <<<<I(1), I(0)>>, <<I(0), I(1)>>>>, <<<<I(1), I(1)>>, <<I(1), I(1)>>>>,
       <<<<I(2), I(0)>>, <<I(-1), I(1)>>, <<I(0), I(1)>>>>}
Hd == <<R(1, 1), R(2, 1)>>
Fv(p, v) == RMul(Half, Dot(Hd, [i \in DOMAIN v |-> RSqr(RSub(v[i], p.c[i]))]))
Gv(p, v) == [i \in DOMAIN v |-> RMul(Hd[i], RSub(v[i], p.c[i]))]
Soft(v, lam) == [i \in DOMAIN v |-> RSub(RMax(RSub(v[i], lam), Zero), RMax(RSub(RNeg(v[i]), lam), Zero))]

\* without line search: sigma = 1/8, tau = 1/4 (1/sigma - tau |L|^2 >= 8 - 6/4 >= 2/2); with it tau = 1/2, ratio 1/2
Cfg(p) == [x0 |-> p.x0, f0 |-> Fv(p, p.x0), g0 |-> Gv(p, p.x0), L |-> p.L, ls |-> p.ls,
           sigma |-> IF p.ls THEN One ELSE R(1, 8), tau |-> IF p.ls THEN Half ELSE R(1, 4),
           ratio |-> Half, tol |-> Zero, maxit |-> D + 1, ftol |-> Eps(18)]

C2(p, tau) == LET w == VScale(RDiv(One, tau), VAxpy(tau, LMul(Cfg(p), st.x), st.y)) IN
              [v |-> w, s |-> RDiv(One, tau), z |-> Soft(w, RDiv(p.a, tau))]
C1(p, sigma, c2) ==
  LET y2 == NewY(c2)
      th == IF p.ls THEN RDiv(RDiv(sigma, Half), Tau(c2)) ELSE One
      v == VAxpy(RNeg(sigma), VAdd(LtMul(Cfg(p), VAxpy(th, VSub(y2, st.y), y2)), st.g), st.x)
  IN [v |-> v, s |-> sigma, z |-> v, f |-> Fv(p, v)]

\* is (x, y) a saddle point?
Saddle(p, x, y) ==
  /\ VAdd(Gv(p, x), LtMul(Cfg(p), y)) = VZero(2)
  /\ \A i \in DOMAIN y : LET w == LMul(Cfg(p), x)[i] IN
        IF RSgn(w) > 0 THEN y[i] = p.a ELSE IF RSgn(w) < 0 THEN y[i] = RNeg(p.a) ELSE RLe(RAbs(y[i]), p.a)

\* squared distance in the metric of the method
Metric(p, dx, dy) ==
  RAdd(RAdd(RDiv(Norm2Sq(dx), R(1, 8)), RDiv(Norm2Sq(dy), R(1, 4))),
       RMul(Two, Dot(LMul(Cfg(p), dx), dy)))
\* saddle points with multipliers at the bounds: y = a e for e in {-1, 1}^m, x from the first condition
Signs(m) == [1..m -> {I(-1), I(1)}]
Saddles(p) ==
  LET m == Len(p.L)
      cand == {LET y == VScale(p.a, e)
                   w == LtMul(Cfg(p), y)
               IN [y |-> y, x |-> [i \in 1..2 |-> RSub(p.c[i], RDiv(w[i], Hd[i]))]] : e \in Signs(m)}
  IN {q \in cand : Saddle(p, q.x, q.y)}

Init == /\ \E L \in Ls, c \in Vecs(Cs), a \in As, x0 \in Vecs(Xs), ls \in Modes :
             LET p == [L |-> L, c |-> c, a |-> Q(a), x0 |-> x0, ls |-> ls] IN
             par = [L |-> L, c |-> c, a |-> Q(a), x0 |-> x0, ls |-> ls, saddles |-> Saddles(p)]
        /\ st = PdStart(Cfg(par)) /\ hist = <<>> /\ ok = "" /\ facts = TRUE

Next ==
  /\ Len(hist) < D
  /\ \E sigma \in IF par.ls THEN {R(1, 8), R(1, 16)} ELSE {R(1, 8)} :
     LET p == par
         c2 == C2(p, CHOOSE t \in st.taus : TRUE)
         c1 == C1(p, sigma, c2)
         ev == [k |-> "it", x |-> c1.z, f |-> Fv(p, c1.z), g |-> Gv(p, c1.z), p1 |-> <<c1>>, p2 |-> <<c2>>, ret |-> FALSE]
         n == PdNext(Cfg(p), st, ev)
     IN /\ LsOk(Cfg(p), st, ev, c1, c2)
        /\ ok' = PdClause(Cfg(p), st, ev)
        /\ st' = n
        /\ hist' = Append(hist, n.x)
        /\ facts' =
             /\ (n.x = st.x /\ n.y = st.y) = Saddle(p, st.x, st.y)
             /\ (~p.ls => \A q \in p.saddles :
                   RLe(Metric(p, VSub(n.x, q.x), VSub(n.y, q.y)),
                       RAdd(Metric(p, VSub(st.x, q.x), VSub(st.y, q.y)), RPow2(-120))))
             \* the residuals bound the error
             /\ \A q \in p.saddles :
                   RLe(DistSq(n.x, q.x), RAdd(RMul(n.r1, SqrtUp(DistSq(n.x, q.x))),
                                              RAdd(RMul(n.r2, SqrtUp(DistSq(n.y, q.y))), RPow2(-60))))
        /\ UNCHANGED par
Spec == Init /\ [][Next]_<<par, st, hist, ok, facts>>

Accepted == ok = ""
Facts == facts
Sharp == (Len(hist) < D) =>
  LET c2 == C2(par, CHOOSE t \in st.taus : TRUE)
      c1 == C1(par, R(1, 16), c2)
      ev == [k |-> "it", x |-> c1.z, f |-> Fv(par, c1.z), g |-> Gv(par, c1.z), p1 |-> <<c1>>, p2 |-> <<c2>>, ret |-> FALSE]
      e1 == [ev EXCEPT !.p1[1].v[1] = RAdd(@, R(1, 64))]
      e2 == [ev EXCEPT !.p2[1].v[1] = RAdd(@, R(1, 64))]
  IN PdClause(Cfg(par), st, e1) # "" /\ PdClause(Cfg(par), st, e2) # ""
Gen == (GenOn /\ Len(hist) = D /\ ~par.ls) =>
  PrintT(<<"GEN", ToJson([L |-> par.L, c |-> par.c, a |-> par.a, x0 |-> par.x0, hist |-> hist])>>)
================================================================================
