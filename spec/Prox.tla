---------------------------------- MODULE Prox ---------------------------------
(***************************************************************************)
(* Penalties and their proximal operators, by optimality conditions.       *)
(*                                                                         *)
(* All the penalties here are seminorms N (times P.a).  z is the proximal  *)
(* point of x with step s iff G = x - z satisfies, with lam = s a,         *)
(*     dual norm of G at most lam   and   <G, z> = lam N(z).               *)
(* P.t is "l1"; "group" with P.g the groups (1-based, sequences);          *)
(* "trace" with shape P.m, P.n; "tv", total variation of a vector;         *)
(* "tvcols", "tvrows" of each column / row of an m x n matrix; "tv2",      *)
(* both; or "zero".                                                        *)
(***************************************************************************)
EXTENDS Sets

InGroup(P, j) == \E k \in DOMAIN P.g : \E i \in DOMAIN P.g[k] : P.g[k][i] = j

Diffs(x) == IF Len(x) < 2 THEN <<>> ELSE [i \in 1..(Len(x) - 1) |-> RSub(x[i + 1], x[i])]
Tv(x) == Norm1(Diffs(x))
Columns(x, m, n) == [j \in 1..n |-> [i \in 1..m |-> x[(i - 1) * n + j]]]
TvAll(vs) == VSum([k \in DOMAIN vs |-> Tv(vs[k])])

\* N(z); W is an SVD of z for the trace norm
PNorm(P, z, W) ==
  CASE P.t = "zero"   -> Zero
    [] P.t = "l1"     -> Norm1(z)
    [] P.t = "group"  -> VSum([k \in DOMAIN P.g |-> SqrtLo(Norm2Sq(VPick(z, P.g[k])))])
    [] P.t = "trace"  -> NucOf(W)
    [] P.t = "tv"     -> Tv(z)
    [] P.t = "tvcols" -> TvAll(Columns(z, P.m, P.n))
    [] P.t = "tvrows" -> TvAll(Rows(z, P.m, P.n))
    [] P.t = "tv2"    -> RAdd(TvAll(Columns(z, P.m, P.n)), TvAll(Rows(z, P.m, P.n)))

\* running sums of G, which are the dual variables of total variation
RECURSIVE Partial(_, _, _)
Partial(G, k, acc) == IF k > Len(G) THEN <<>>
                      ELSE LET a == RAdd(acc, G[k]) IN <<a>> \o Partial(G, k + 1, a)
TvDual(G, lam, tol) ==
  LET U == Partial(G, 1, Zero) IN
  /\ RLe(NormInf(U), RAdd(lam, tol))
  /\ RLe(RAbs(U[Len(U)]), tol)

\* Dual norm of G at most lam; W is an SVD of G for the trace norm
PDualOk(P, lam, G, W, tol) ==
  CASE P.t = "zero"   -> RLe(NormInf(G), tol)
    [] P.t = "l1"     -> RLe(NormInf(G), RAdd(lam, tol))
    [] P.t = "group"  -> /\ \A k \in DOMAIN P.g : RLe(Norm2Sq(VPick(G, P.g[k])), RSqr(RAdd(lam, tol)))
                         /\ \A j \in DOMAIN G : InGroup(P, j) \/ G[j] = Zero
    [] P.t = "trace"  -> SvdOk(Rows(G, P.m, P.n), W, SvTol) /\ RLe(SpecOf(W), RAdd(lam, tol))
    [] P.t = "tv"     -> TvDual(G, lam, tol)
    [] P.t = "tvcols" -> \A j \in 1..P.n : TvDual(Columns(G, P.m, P.n)[j], lam, tol)
    [] P.t = "tvrows" -> \A i \in 1..P.m : TvDual(Rows(G, P.m, P.n)[i], lam, tol)

IsProx(P, step, x, z, Wz, WG, tol) ==
  LET lam == RMul(step, P.a)
      scale == RAdd(RAdd(One, NormInf(x)), RMin(lam, NormInf(x)))
      G == VSub(x, z)
      t == RMul(RMul(tol, R(Len(x), 1)), scale)
  IN /\ PDualOk(P, lam, G, WG, t)
     /\ RLe(RMul(lam, PNorm(P, z, Wz)), RAdd(Dot(G, z), RMul(t, scale)))

Clauses_Prox(ev) ==
  LET P == ev.P IN
  IF ~VIsNum(ev.z) THEN "prox-not-a-point"
  ELSE IF Len(ev.z) # Len(ev.x) THEN "prox-shape"
  ELSE IF P.t = "trace" /\ ~SvdOk(Rows(ev.z, P.m, P.n), ev.Wz, SvTol) THEN "prox-witness"
  ELSE IF ~IsProx(P, ev.step, ev.x, ev.z, ev.Wz, ev.WG, ev.tol) THEN "prox-not-minimizer"
  ELSE ""

Clauses_Value(ev) ==
  LET P == ev.P IN
  IF ~RIsNum(ev.val) THEN "value-not-a-number"
  ELSE IF P.t = "trace" /\ ~SvdOk(Rows(ev.x, P.m, P.n), ev.Wx, SvTol) THEN "value-witness"
  ELSE IF ~RNearS(RMul(P.a, PNorm(P, ev.x, ev.Wx)), ev.val, ev.tol,
                  RAdd(RMul(P.a, RMul(NormInf(ev.x), R(Len(ev.x), 1))), Eps(200))) THEN "value"
  ELSE ""

(***************************************************************************)
(* 2-D total variation, where the code stops at a tolerance.  A dual point *)
(* q (one entry per vertical difference ev.qv, horizontal ev.qh, bounded   *)
(* by lam) gives z_q = w - D'q and bounds the distance of z from the       *)
(* minimizer:  |z - z*|^2 <= 2 (primal(z) - dual(q)).                      *)
(***************************************************************************)
\* D'q for the differences x[i+1,j] - x[i,j] (qv: (m-1) x n) and x[i,j+1] - x[i,j] (qh: m x (n-1))
DtQ(qv, qh, m, n) ==
  [e \in 1..(m * n) |->
    LET i == ((e - 1) \div n) + 1
        j == ((e - 1) % n) + 1
        up   == IF i > 1 THEN qv[i - 1][j] ELSE Zero
        down == IF i < m THEN qv[i][j] ELSE Zero
        left == IF j > 1 THEN qh[i][j - 1] ELSE Zero
        rgt  == IF j < n THEN qh[i][j] ELSE Zero
    IN RSub(RAdd(up, left), RAdd(down, rgt))]

Clauses_Tv2Prox(ev) ==
  LET P == ev.P  lam == RMul(ev.step, P.a)
      dq == DtQ(ev.qv, ev.qh, P.m, P.n)
      bounded == \A i \in DOMAIN ev.qv : RLe(NormInf(ev.qv[i]), lam)
      boundedh == \A i \in DOMAIN ev.qh : RLe(NormInf(ev.qh[i]), lam)
      \* primal: lam TV(z) + |z - w|^2 / 2;  dual: <w, D'q> - |D'q|^2 / 2
      primal == RAdd(RMul(lam, PNorm(P, ev.z, "none")), RMul(Half, DistSq(ev.z, ev.x)))
      dual == RSub(Dot(ev.x, dq), RMul(Half, Norm2Sq(dq)))
      zq == VSub(ev.x, dq)
      refgap == RSub(RAdd(RMul(lam, PNorm(P, zq, "none")), RMul(Half, Norm2Sq(dq))), dual)
  IN IF ~VIsNum(ev.z) \/ Len(ev.z) # Len(ev.x) THEN "prox-not-a-point"
     ELSE IF ~bounded \/ ~boundedh THEN "tv2-witness"
     \* the witness has to be good enough to decide:  |zq - z*| <= acc
     ELSE IF ~RLe(RMul(Two, refgap), RSqr(ev.acc)) THEN "tv2-witness-gap"
     ELSE IF ~RLe(DistSq(ev.z, zq), RSqr(RMul(Two, ev.acc))) THEN "prox-not-minimizer"
     ELSE ""

\* a long piecewise-constant signal, run by run: run r has lens[r] entries equal to w[r], and the result is
\* constant on it too (lo and hi are its smallest and largest entry there).  The dual of the problem is the
\* running sum of the residual, of which only the values at the ends of the runs matter.
Clauses_TvRun(ev) ==
  LET n == Len(ev.w)
      res == [r \in 1..n |-> RMul(R(ev.lens[r], 1), RSub(ev.w[r], ev.lo[r]))]
      cum == FoldLeft(LAMBDA acc, v : Append(acc, IF acc = <<>> THEN v ELSE RAdd(acc[Len(acc)], v)), <<>>, res)
      total == FoldLeft(LAMBDA acc, v : acc + v, 0, ev.lens)
      xt == RMul(ev.tol, RAdd(One, NormInf(ev.w)))
      ct == RMul(R(total, 1), xt)
  IN IF ~VIsNum(ev.lo) \/ ~VIsNum(ev.hi) \/ Len(ev.lo) # n \/ Len(ev.hi) # n THEN "prox-not-a-point"
     ELSE IF ~VNear(ev.lo, ev.hi, xt) THEN "tv-run-not-constant"
     ELSE IF \/ ~RLe(RAbs(cum[n]), ct)
             \/ \E r \in 1..(n - 1) : ~RLe(RAbs(cum[r]), RAdd(ev.lam, ct))
             \/ \E r \in 1..(n - 1) :
                  /\ RLt(xt, RAbs(RSub(ev.lo[r + 1], ev.lo[r])))
                  /\ ~RLe(RAbs(RAdd(cum[r], IF RLt(ev.lo[r], ev.lo[r + 1]) THEN ev.lam ELSE RNeg(ev.lam))), ct)
          THEN "prox-not-minimizer"
     ELSE ""

\* the difference operator: |L x|_1 = TV(x)
Clauses_TvOperator(ev) ==
  IF \E i \in DOMAIN ev.L : ~VIsNum(ev.L[i]) \/ Len(ev.L[i]) # ev.P.m * ev.P.n THEN "tv-operator-shape"
  ELSE IF \E k \in DOMAIN ev.xs :
       ~RNear(PNorm(ev.P, ev.xs[k], "none"), Norm1(MatVec(ev.L, ev.xs[k])), Eps(12)) THEN "tv-operator"
  ELSE ""

\* xi is a subgradient of P at x
SubGrad(P, xi, x, tol) ==
  CASE P.t = "zero"   -> RLe(NormInf(xi), tol)
    [] P.t = "ridge"  -> VNearS(VScale(P.a, x), xi, One, tol)
    [] P.t = "nonneg" -> \A i \in DOMAIN x : /\ RLe(RNeg(tol), x[i]) /\ RLe(xi[i], tol)
                                             /\ RLe(RAbs(RMul(xi[i], x[i])), tol)
    [] P.t = "box"    -> /\ RLe(NormInf(x), RAdd(P.r, tol))
                         /\ RLe(RMul(P.r, Norm1(xi)), RAdd(Dot(xi, x), tol))
    [] OTHER -> PDualOk(P, P.a, xi, "none", tol) /\ RLe(RMul(P.a, PNorm(P, x, "none")), RAdd(Dot(xi, x), tol))
================================================================================
