---------------------------------- MODULE Sets ---------------------------------
(***************************************************************************)
(* Convex sets by membership and support function, and what follows from   *)
(* them: optimal vertices (linear minimization oracles) and nearest points *)
(* (projections).                                                          *)
(*                                                                         *)
(* A set is a record S with S.t one of "l1", "l2", "linf", "simplex",      *)
(* "trace", "poly" and radius S.r; "trace" also has the shape S.m, S.n,    *)
(* and "poly" the vertices S.v (the set is their convex hull).             *)
(* Facts about singular values are decided with a witness W, an SVD        *)
(* supplied by the recorder and verified here (SvdOk).                     *)
(***************************************************************************)
EXTENDS Vec

Rows(x, m, n) == [i \in 1..m |-> SubSeq(x, (i - 1) * n + 1, i * n)]

Orthonormal(U, k, tol) ==   \* the k columns of the matrix U
  \A a \in 1..k : \A b \in a..k :
     Near(Dot(Col(U, a), Col(U, b)), IF a = b THEN One ELSE Zero, tol)

\* M = U diag(s) V' up to tol (1 + |M|), U and V with orthonormal columns, s >= 0
SvdOk(M, W, tol) ==
  /\ W.ok
  /\ LET m == Len(M) n == Len(M[1]) k == Len(W.s)
         US == [i \in 1..m |-> [j \in 1..k |-> RMul(W.U[i][j], W.s[j])]]
         scale == RAdd(One, NormInf([i \in 1..m |-> NormInf(M[i])]))
     IN /\ k = IF m < n THEN m ELSE n
        /\ \A j \in 1..k : RLe(Zero, W.s[j])
        /\ Orthonormal(W.U, k, tol) /\ Orthonormal(W.V, k, tol)
        /\ \A i \in 1..m : \A j \in 1..n :
              RNearS(M[i][j], Dot(US[i], W.V[j]), tol, scale)

SvTol == Eps(11)
NucOf(W)  == VSum(W.s)
SpecOf(W) == FoldLeft(RMax, Zero, W.s)

\* x in S up to tol; W is an SVD of x for the trace ball.
\* For polytopes W is a convex combination (weights of the vertices).
InSet(S, x, W, tol) ==
  CASE S.t = "l1"      -> RLeTol(Norm1(x), S.r, tol)
    [] S.t = "l2"      -> RLe(Norm2Sq(x), RSqr(RAdd(S.r, tol)))
    [] S.t = "linf"    -> RLeTol(NormInf(x), S.r, tol)
    [] S.t = "simplex" -> /\ \A i \in DOMAIN x : RLe(RNeg(tol), x[i])
                          /\ Near(VSum(x), S.r, tol)
    [] S.t = "trace"   -> /\ SvdOk(Rows(x, S.m, S.n), W, SvTol)
                          /\ RLeTol(NucOf(W), S.r, tol)
    [] S.t = "poly"    -> /\ \A i \in DOMAIN W : RLe(RNeg(tol), W[i])
                          /\ Near(VSum(W), One, tol)
                          /\ RLe(DistInf(x, MatTVec(S.v, W, Len(x))), tol)

\* max over S of <u, s>; W is an SVD of u for the trace ball
Supp(S, u, W) ==
  CASE S.t = "l1"      -> RMul(S.r, NormInf(u))
    [] S.t = "l2"      -> RMul(S.r, SqrtLo(Norm2Sq(u)))
    [] S.t = "linf"    -> RMul(S.r, Norm1(u))
    [] S.t = "simplex" -> RMul(S.r, VMaxOf(u))
    [] S.t = "trace"   -> RMul(S.r, SpecOf(W))
    [] S.t = "poly"    -> VMaxOf(MatVec(S.v, u))

WitnessOk(S, u, W) == S.t = "trace" => SvdOk(Rows(u, S.m, S.n), W, SvTol)

\* s maximizes <u, .> over S, up to tol.
MaximizesOver(S, u, s, W, tol) == RLe(Supp(S, u, W), RAdd(Dot(u, s), tol))

(***************************************************************************)
(* Projections.  p in S is the nearest point of S to x iff                 *)
(*    <x - p, y - p> <= 0 for all y in S, that is                          *)
(*    Supp(x - p) <= <x - p, p>.                                           *)
(***************************************************************************)
Clauses_Projection(ev) ==
  LET S == ev.S  x == ev.x  p == ev.p
      scale == RAdd(RAdd(One, S.r), NormInf(x))
      ftol == RMul(ev.tol, scale)
      r == VSub(x, p)
  IN IF ~VIsNum(p) THEN "projection-not-a-point"
     ELSE IF Len(p) # Len(x) THEN "projection-shape"
     \* feasible relative to the size of the set, however far away x is
     ELSE IF ~InSet(S, p, ev.Wp, RMul(ev.tol, RMul(R(Len(x), 1), RAdd(One, S.r)))) THEN "projection-infeasible"
     ELSE IF ~WitnessOk(S, r, ev.Wr) THEN "projection-witness"
     ELSE IF ~RLe(Supp(S, r, ev.Wr), RAdd(Dot(r, p), RMul(ftol, scale))) THEN "projection-not-nearest"
     ELSE IF S.t # "trace" /\ InSet(S, x, "none", Zero) /\ ~VNearS(x, p, ev.tol, scale) THEN "projection-moves-feasible-point"
     ELSE IF ev.ind # "none" /\ ev.ind # Zero THEN "indicator-rejects-projection"
     ELSE ""

\* The indicator, on points that are not within rounding of the boundary
Clauses_Indicator(ev) ==
  LET margin == RMul(Eps(5), RAdd(One, ev.S.r)) IN
  IF ev.S.t = "trace" /\ ~SvdOk(Rows(ev.x, ev.S.m, ev.S.n), ev.Wx, SvTol) THEN "indicator-witness"
  ELSE IF InSet(ev.S, ev.x, ev.Wx, Zero) /\ ev.ind # Zero THEN "indicator-rejects-feasible"
  ELSE IF ~InSet(ev.S, ev.x, ev.Wx, margin) /\ ev.ind # "inf" THEN "indicator-accepts-infeasible"
  ELSE ""

(***************************************************************************)
(* Linear minimization oracles: from (u, x) the direction d = s - x with s *)
(* in S maximizing <u, s>, and a maximum step of one.                      *)
(***************************************************************************)
L1Vertex(S, n, rep) == VScale(RMul(S.r, rep.sign), VUnit(n, rep.i))
Clauses_Oracle(ev) ==
  LET S == ev.S  u == ev.u  x == ev.x
      scale == RAdd(RAdd(One, S.r), NormInf(x))
      s == VAdd(x, ev.d)
      tol == RMul(ev.tol, scale)
  IN IF ~VIsNum(ev.d) \/ Len(ev.d) # Len(x) THEN "oracle-no-direction"
     ELSE IF ~InSet(S, s, ev.Ws, tol) THEN "oracle-infeasible"
     ELSE IF ~WitnessOk(S, u, ev.Wu) THEN "oracle-witness"
     ELSE IF ~MaximizesOver(S, u, s, ev.Wu, RMul(tol, RAdd(NormInf(u), Eps(30)))) THEN "oracle-not-optimal"
     \* the vertex it names is the best one, whatever the size of u
     ELSE IF ev.rep.ok /\ ~MaximizesOver(S, u, L1Vertex(S, Len(x), ev.rep), "none", RMul(RMul(Eps(13), S.r), NormInf(u)))
          THEN "oracle-not-optimal"
     ELSE IF ev.smax # One THEN "oracle-max-step"
     ELSE IF ev.rep.ok /\ ~VNearS(s, VScale(RMul(S.r, ev.rep.sign), VUnit(Len(x), ev.rep.i)), ev.tol, scale)
          THEN "oracle-representation"
     ELSE ""

(***************************************************************************)
(* Pairwise oracle of the L1 ball over an active set ev.act, a sequence of *)
(* [sign, i, w]: d = s - v with v the active vertex least correlated with  *)
(* u; the maximum step is the weight of v.                                 *)
(***************************************************************************)
Clauses_PairwiseOracle(ev) ==
  LET S == ev.S  u == ev.u  n == Len(u)
      scale == RAdd(One, S.r)
      tol == RMul(RMul(ev.tol, scale), NormInf(u))
      corr(rep) == Dot(u, L1Vertex(S, n, rep))
      s == L1Vertex(S, n, ev.rep)
      v == L1Vertex(S, n, ev.away)
      mine == {k \in DOMAIN ev.act : ev.act[k].sign = ev.away.sign /\ ev.act[k].i = ev.away.i}
  IN IF ~VIsNum(ev.d) \/ Len(ev.d) # n THEN "pairwise-no-direction"
     ELSE IF ~InSet(S, s, "none", Zero) THEN "pairwise-vertex-infeasible"
     ELSE IF ~MaximizesOver(S, u, s, "none", tol) THEN "pairwise-vertex-not-optimal"
     ELSE IF mine = {} THEN "pairwise-away-not-active"
     ELSE IF \E k \in DOMAIN ev.act : RLt(corr(ev.act[k]), RSub(corr(ev.away), tol))
          THEN "pairwise-away-not-worst"
     ELSE IF ev.smax # ev.act[CHOOSE k \in mine : TRUE].w THEN "pairwise-max-step"
     \* s - v through x: (s - x) + x - v rounds relative to |x|
     ELSE IF ~VNearS(VSub(s, v), ev.d, ev.tol, RAdd(scale, ev.xscale)) THEN "pairwise-direction"
     ELSE ""
================================================================================
