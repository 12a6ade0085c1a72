--------------------------------- MODULE Losses --------------------------------
(***************************************************************************)
(* The losses: value, gradient, per-sample derivative, curvature.          *)
(* F = [t, A, b, alpha, delta, n]: t is "log", "square", "huber" or        *)
(* "hinge" (the squared hinge, a user's loss that is flat on one side), A    *)
(* the rows of the data matrix, n its number of columns.                   *)
(***************************************************************************)
EXTENDS Elem

PhiVal(F, z, y) ==
  CASE F.t = "log"    -> RAdd(RMul(y, Softplus(RNeg(z))), RMul(RSub(One, y), Softplus(z)))
    [] F.t = "square" -> RMul(Half, RSqr(RSub(z, y)))
    [] F.t = "huber"  -> LET r == RAbs(RSub(z, y)) IN
                         IF RLt(r, F.delta) THEN RMul(Half, RSqr(r))
                         ELSE RMul(F.delta, RSub(r, RMul(Half, F.delta)))
    [] F.t = "hinge"  -> RMul(Half, RSqr(RMin(Zero, RSub(z, y))))

PhiDer(F, z, y) ==
  CASE F.t = "log"    -> \* sigmoid(z) - y without cancellation
                         RSub(RMul(RSub(One, y), Sigmoid(z)), RMul(y, Sigmoid(RNeg(z))))
    [] F.t = "square" -> RSub(z, y)
    [] F.t = "huber"  -> RMax(RNeg(F.delta), RMin(F.delta, RSub(z, y)))
    [] F.t = "hinge"  -> RMin(Zero, RSub(z, y))

PhiDer2(F, z) == IF F.t = "log" THEN SigmoidD(z) ELSE One

Samples(F) == R(Len(F.A), 1)
LossVal(F, z, x) ==
  RAdd(RDiv(VSum([i \in DOMAIN z |-> PhiVal(F, z[i], F.b[i])]), Samples(F)),
       RMul(RMul(Half, F.alpha), Norm2Sq(x)))
LossGrad(F, z, x) ==
  VAxpy(F.alpha, x,
        VScale(RDiv(One, Samples(F)), MatTVec(F.A, [i \in DOMAIN z |-> PhiDer(F, z[i], F.b[i])], F.n)))

\* magnitude of the terms that are added up, for rounding
ValScale(F, z, x, v) == RAdd(RAdd(One, RAbs(v)), RAdd(NormInf(z), RMul(F.alpha, Norm2Sq(x))))
MatMax(A) == NormInf([i \in DOMAIN A |-> NormInf(A[i])])

Clauses_Loss(F, ev) ==
  LET z == MatVec(F.A, ev.x)
      v == LossVal(F, z, ev.x)
      g == LossGrad(F, z, ev.x)
      vs == ValScale(F, z, ev.x, v)
      gs == RMul(RAdd(One, MatMax(F.A)), RAdd(RAdd(One, NormInf(g)),
                 IF F.t = "square" THEN NormInf(z) ELSE RMul(NormInf(z), Eps(3))))
  IN IF ~RIsNum(ev.val) THEN "loss-not-a-number"
     ELSE IF ~RNearS(v, ev.val, ev.tol, vs) THEN "loss-value"
     ELSE IF ~RNearS(v, ev.valonly, ev.tol, vs) THEN "loss-value-only"
     ELSE IF ~RNearS(v, ev.call, ev.tol, vs) THEN "loss-call"
     ELSE IF ~VIsNum(ev.grad) \/ Len(ev.grad) # F.n THEN "loss-gradient-shape"
     ELSE IF ~VNearS(g, ev.grad, ev.tol, gs) THEN "loss-gradient"
     ELSE ""

\* relative agreement, for values that must not lose their sign or magnitude
RelNear(a, b, tol) == RLe(RAbs(RSub(a, b)), RMul(tol, RAbs(a)))

\* Per-sample derivatives at margins p.  Where the target is 0 or 1 nothing cancels, so the
\* agreement is relative (down to 10^-300, where floats run out).
Clauses_Deriv(F, ev) ==
  IF ~VIsNum(ev.d) \/ Len(ev.d) # Len(ev.p) THEN "deriv-shape"
  ELSE IF \E i \in DOMAIN ev.p :
     LET e == PhiDer(F, ev.p[i], ev.y[i]) IN
       IF F.t = "log" /\ ev.y[i] \in {Zero, One} /\ ~ev.f32
       THEN ~(RelNear(e, ev.d[i], ev.tol) \/ RLe(RAdd(RAbs(e), RAbs(ev.d[i])), Eps(300)))
       ELSE ~RNearS(e, ev.d[i], ev.tol, RAdd(One, RAdd(RAbs(ev.p[i]), RAbs(ev.y[i]))))
  THEN "deriv-value"
  ELSE ""

\* log(1 / (1 + exp(-t))), relative
Clauses_LogSig(ev) ==
  IF ~VIsNum(ev.v) \/ Len(ev.v) # Len(ev.ts) THEN "logsig-shape"
  ELSE IF \E i \in DOMAIN ev.ts :
     LET e == RNeg(Softplus(RNeg(ev.ts[i]))) IN
       ~(RelNear(e, ev.v[i], ev.tol) \/ RLe(RAdd(RAbs(e), RAbs(ev.v[i])), Eps(300)))
  THEN "logsig-value" ELSE ""

\* Hessian-vector product of the logistic loss
Clauses_Hessian(F, ev) ==
  LET z == MatVec(F.A, ev.x)
      w == MatVec(F.A, ev.s)
      h == VAxpy(F.alpha, ev.s,
             VScale(RDiv(One, Samples(F)),
                    MatTVec(F.A, [i \in DOMAIN z |-> RMul(PhiDer2(F, z[i]), w[i])], F.n)))
      sc == RAdd(One, RAdd(NormInf(h), RMul(RSqr(MatMax(F.A)), NormInf(ev.s))))
  IN IF ~VIsNum(ev.h) \/ Len(ev.h) # F.n THEN "hessian-shape"
     ELSE IF ~VNearS(h, ev.h, ev.tol, sc) THEN "hessian-value"
     ELSE ""

(***************************************************************************)
(* Lipschitz constants.  L bounds the variation of the gradient iff it     *)
(* bounds the curvature: c v'A'Av / (n v'v) + alpha <= L for every v (c =  *)
(* 1/4 for the logistic loss, whose curvature is largest at z = 0).  The   *)
(* recorder supplies the v's (leading singular vectors and random ones);   *)
(* every v gives a sound lower bound.  For the squared and the logistic    *)
(* loss the bound is attained (at z = 0 for the latter), so L is the least *)
(* such constant; the leading singular vector is among the v's.            *)
(***************************************************************************)
CurvConst(F) == IF F.t = "log" THEN R(1, 4) ELSE One
Rayleigh(F, v) == RDiv(Norm2Sq(MatVec(F.A, v)), Norm2Sq(v))
Clauses_Lipschitz(F, ev) ==
  LET curv == [k \in DOMAIN ev.vs |-> RAdd(RMul(CurvConst(F), RDiv(Rayleigh(F, ev.vs[k]), Samples(F))), F.alpha)]
  IN IF ~RIsNum(ev.L) THEN "lipschitz-not-a-number"
     ELSE IF \E k \in DOMAIN curv : RLt(RMul(ev.L, RAdd(One, ev.tol)), curv[k]) THEN "lipschitz-too-small"
     ELSE IF F.t \in {"log", "square"} /\ \A k \in DOMAIN curv : RLt(RMul(curv[k], RAdd(One, ev.tol)), ev.L)
          THEN "lipschitz-too-large"
     ELSE ""
Clauses_MaxLipschitz(F, ev) ==
  LET curv == [i \in DOMAIN F.A |-> RAdd(RMul(CurvConst(F), Norm2Sq(F.A[i])), F.alpha)]
  IN IF ~RIsNum(ev.L) THEN "lipschitz-not-a-number"
     ELSE IF \E i \in DOMAIN curv : RLt(RMul(ev.L, RAdd(One, ev.tol)), curv[i]) THEN "max-lipschitz-too-small"
     ELSE IF \A i \in DOMAIN curv : RLt(RMul(curv[i], RAdd(One, ev.tol)), ev.L) THEN "max-lipschitz-too-large"
     ELSE ""
\* gradients observed at two points vary by at most L |x - y|
Clauses_GradPair(ev) ==
  LET noise == RMul(Eps(14), RAdd(NormInf(ev.gx), NormInf(ev.gy)))
      bound == RAdd(RMul(RMul(ev.L, RAdd(One, ev.tol)), SqrtUp(DistSq(ev.x, ev.y))), noise)
  IN IF ~VIsNum(ev.gx) \/ ~VIsNum(ev.gy) \/ ~RIsNum(ev.L) THEN "lipschitz-gradient"
     ELSE IF ~RLe(DistSq(ev.gx, ev.gy), RSqr(bound)) THEN "lipschitz-violated"
     ELSE ""
================================================================================
