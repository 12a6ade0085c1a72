------------------------------- MODULE MC_ProxGrad ------------------------------
(***************************************************************************)
(* Proximal gradient, plain and accelerated, on every separable quadratic  *)
(* plus L1 penalty of a grid, with every sequence of steps from Steps.     *)
(* Checks the facts the property rests on (upper bound implies descent,    *)
(* fixed points are minimizers, the certificate of the step bounds the     *)
(* residual at the new point) and that the clauses which judge the code    *)
(* accept these behaviours and reject perturbed ones.                      *)
(***************************************************************************)
EXTENDS ProxGrad, Prox, TLC, Json
CONSTANTS D, Hs, Cs, As, Xs, Steps, Accs, GenOn
VARIABLES par, x, st, hist, ok, facts

HsDef == {<<1, 2>>, <<4, 0>>}
Q(n) == R(n, 4)
Vecs(S) == {<<Q(a - 5), Q(b - 5)>> : a \in S, b \in S}   \* configuration files have no negative numbers
F0(p, v) == RMul(Half, Dot(p.H, [i \in DOMAIN v |-> RSqr(RSub(v[i], p.c[i]))]))
G0(p, v) == [i \in DOMAIN v |-> RMul(p.H[i], RSub(v[i], p.c[i]))]
Soft(v, lam) == [i \in DOMAIN v |-> RSub(RMax(RSub(v[i], lam), Zero), RMax(RSub(RNeg(v[i]), lam), Zero))]
Pen(p, v) == RMul(p.a, Norm1(v))
Cfg(p) == [x0 |-> p.x0, acc |-> p.acc, rule |-> "user", hasprox |-> TRUE, tol |-> Zero, maxit |-> D + 1,
           Lf |-> VMaxOf(p.H), ls |-> TRUE, ftol |-> Eps(18)]

Cb(p, v, prox, steps, y) ==
  [k |-> "cb", x |-> v, f |-> F0(p, v), g |-> G0(p, v), pen |-> Pen(p, v), prox |-> prox, steps |-> steps,
   ret |-> FALSE, yw |-> [y |-> y, g |-> G0(p, y), f |-> F0(p, y)]]

Init == /\ \E H \in Hs, c \in Vecs(Cs), a \in As, x0 \in Vecs(Xs), acc \in Accs :
             par = [H |-> <<R(H[1], 1), R(H[2], 1)>>, c |-> c, a |-> Q(a), x0 |-> x0, acc |-> acc]
        /\ x = par.x0
        /\ st = PgAfter(Cfg(par), PgStart(Cfg(par)), Cb(par, par.x0, <<>>, <<>>, par.x0))
        /\ hist = [steps |-> <<>>, xs |-> <<>>]
        /\ ok = "" /\ facts = TRUE

\* residual of the optimality condition at v, by a gradient mapping with step s
Map(p, v, s) == VSub(v, Soft(VAxpy(RNeg(s), G0(p, v), v), RMul(s, p.a)))
IsMin(p, v) == \A i \in DOMAIN v : LET g == G0(p, v)[i] IN
                 IF RSgn(v[i]) > 0 THEN g = RNeg(p.a) ELSE IF RSgn(v[i]) < 0 THEN g = p.a
                 ELSE RLe(RAbs(g), p.a)

Next ==
  /\ Len(hist.steps) < D
  /\ \E sn \in Steps :
     LET p == par
         s == Q(sn)
         b == Base(Cfg(p), st)
         v == GradStep(b, s)
         z == Soft(v, RMul(s, p.a))
         y2 == IF p.acc THEN Extrapolate(st.t, x, z) ELSE z
         ev == Cb(p, z, <<[v |-> v, s |-> s, z |-> z]>>, <<s>>, y2)
         d == VSub(z, b.x)
         tot(w) == RAdd(F0(p, w), Pen(p, w))
     IN /\ x' = z
        /\ ok' = PgClause(Cfg(p), st, ev)
        /\ st' = PgAfter(Cfg(p), st, ev)
        /\ hist' = [steps |-> Append(hist.steps, s), xs |-> Append(hist.xs, z)]
        /\ facts' =
             /\ (RLe(RMul(s, VMaxOf(p.H)), One) => UpperBound(b, z, F0(p, z), s))
             /\ (~p.acc /\ UpperBound(b, z, F0(p, z), s) =>
                   RLe(RAdd(tot(z), RDiv(Norm2Sq(d), RMul(Two, s))), RAdd(tot(x), Eps(10))))
             /\ (~p.acc => (z = x) = IsMin(p, x))
             /\ (~p.acc => RLe(Norm2Sq(Map(p, z, s)),
                               RMul(RSqr(RAdd(One, RMul(s, VMaxOf(p.H)))), DistSq(z, x))))
        /\ UNCHANGED par
Spec == Init /\ [][Next]_<<par, x, st, hist, ok, facts>>

Accepted == ok = ""
Facts == facts
\* an iterate moved by 1/64 is not a step of the method
Sharp == (hist.steps # <<>> /\ Len(hist.steps) < D) =>
  LET s == Q(CHOOSE a \in Steps : TRUE)
      b == Base(Cfg(par), st)
      v == GradStep(b, s)
      z == Soft(v, RMul(s, par.a))
      w == [z EXCEPT ![1] = RAdd(@, R(1, 64))]
      ev == Cb(par, w, <<[v |-> v, s |-> s, z |-> z]>>, <<s>>, w)
  IN PgClause(Cfg(par), st, ev) # ""
Gen == (GenOn /\ Len(hist.steps) = D) =>
  PrintT(<<"GEN", ToJson([H |-> par.H, c |-> par.c, a |-> par.a, x0 |-> par.x0, acc |-> par.acc,
                          steps |-> hist.steps, xs |-> hist.xs])>>)
================================================================================
