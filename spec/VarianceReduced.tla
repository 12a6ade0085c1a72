----------------------------- MODULE VarianceReduced ----------------------------
(***************************************************************************)
(* SAGA and SVRG with sparse updates, for                                  *)
(*    1/n sum_i phi(A_i x, b_i) + alpha/2 |x|^2 + sum_h g_h(x_h)           *)
(* over blocks h of features.  A sample touches the blocks in which it     *)
(* stores an entry; a block's weight d_h is n over the number of samples   *)
(* that touch it (1 if none does).  The step of sample i is                *)
(*    v_j = x_j - s ( (phi'(A_i x) - m_i) A_ij + d_h (avg_j + alpha x_j) ) *)
(* for the features j of the blocks h it touches, then the block prox with *)
(* step s d_h; all other features stay.  m is the derivative remembered    *)
(* for each sample: SAGA replaces m_i after the step and starts from 0,    *)
(* SVRG sets all of them at the point where an epoch starts.  avg = A'm/n. *)
(*                                                                         *)
(* Configuration: method, F (see Losses), sup (the 0-based blocks each     *)
(* sample touches), indptr (of the blocks), step, x0, tol, maxit, ftol.    *)
(* Events: "cb0" the callback before the first epoch, "step" a call of the *)
(* block operator (sample i, v before, z after, s, d, listed blocks),      *)
(* "epoch" the callback after one, "ret" the result.                       *)
(***************************************************************************)
EXTENDS Blocks, Losses

NS(cfg) == Len(cfg.F.A)
NF(cfg) == cfg.F.n
VrRound(v) == [i \in DOMAIN v |-> RFloor(v[i], 160)]

\* phi' of sample i (0-based) at x
Der(cfg, i, x) == RFloor(PhiDer(cfg.F, Dot(cfg.F.A[i + 1], x), cfg.F.b[i + 1]), 160)
DerAll(cfg, x) == [k \in 1..NS(cfg) |-> Der(cfg, k - 1, x)]
AvgGrad(cfg, mem) == VScale(RDiv(One, R(NS(cfg), 1)), MatTVec(cfg.F.A, mem, NF(cfg)))
ObjGrad(cfg, x) == VAxpy(cfg.F.alpha, x, AvgGrad(cfg, DerAll(cfg, x)))

BlockOfPos(cfg, j) == BlockOf(cfg.indptr, j - 1)
Touches(cfg, i, j) == \E k \in DOMAIN cfg.sup[i + 1] : cfg.sup[i + 1][k] = BlockOfPos(cfg, j)
WeightAt(cfg, j) == Weight(cfg.sup, BlockOfPos(cfg, j))

\* the direction of sample i at x with remembered derivatives mem
Direction(cfg, mem, x, i) ==
  LET diff == RSub(Der(cfg, i, x), mem[i + 1])
      avg == AvgGrad(cfg, mem)
  IN [j \in 1..NF(cfg) |->
        IF Touches(cfg, i, j)
        THEN RAdd(RMul(diff, cfg.F.A[i + 1][j]), RMul(WeightAt(cfg, j), RAdd(avg[j], RMul(cfg.F.alpha, x[j]))))
        ELSE Zero]

VrStart(cfg) ==
  [x |-> cfg.x0, mem |-> IF cfg.method = "saga" THEN VZero(NS(cfg)) ELSE DerAll(cfg, cfg.x0),
   seen |-> {}, k |-> 0, xe |-> cfg.x0, moved |-> "none", cb |-> FALSE]

\* after a step of sample i to z
VrStep(cfg, st, i, z) ==
  [st EXCEPT !.x = z, !.seen = @ \cup {i},
             !.mem = IF cfg.method = "saga" THEN [@ EXCEPT ![i + 1] = Der(cfg, i, st.x)] ELSE @]
VrEpochEnd(cfg, st, x) ==
  [st EXCEPT !.x = x, !.xe = x, !.seen = {}, !.k = @ + 1, !.moved = Norm1(VSub(x, st.xe)),
             !.mem = IF cfg.method = "saga" THEN @ ELSE DerAll(cfg, x)]

VrScale(cfg, st, dir) == RAdd(RAdd(One, NormInf(st.x)), RMul(cfg.step, RMul(R(2, 1), RAdd(NormInf(dir),
   RMul(R(NS(cfg), 1), RMul(RAdd(One, MatMax(cfg.F.A)), RAdd(NormInf(st.mem), RMul(RAdd(One, MatMax(cfg.F.A)), NormInf(st.x)))))))))

VrStepClause(cfg, st, ev) ==
  IF ~(ev.i \in 0..(NS(cfg) - 1)) THEN "vr-not-a-sample"
  ELSE IF ev.i \in st.seen THEN "epoch-repeats-a-sample"
  ELSE IF st.k >= cfg.maxit THEN "vr-exceeds-budget"
  ELSE IF ~VIsNum(ev.v) \/ Len(ev.v) # NF(cfg) THEN "vr-not-a-point"
  ELSE IF {ev.listed[k] : k \in DOMAIN ev.listed} # {cfg.sup[ev.i + 1][k] : k \in DOMAIN cfg.sup[ev.i + 1]}
          \/ Len(ev.listed) # Len(cfg.sup[ev.i + 1])
       THEN "vr-touched-blocks"
  ELSE IF \E k \in DOMAIN ev.listed :
            LET h == ev.listed[k] IN ~RNear(Weight(cfg.sup, h), ev.d[h + 1], Eps(14)) \/ ev.s # cfg.step
       THEN "vr-weights"
  ELSE LET dir == Direction(cfg, st.mem, st.x, ev.i)
           want == VAxpy(RNeg(cfg.step), dir, st.x)
       IN IF \E j \in 1..NF(cfg) : ~Touches(cfg, ev.i, j) /\ ev.v[j] # st.x[j] THEN "vr-moves-other-blocks"
          ELSE IF ~VNearS(want, ev.v, cfg.ftol, VrScale(cfg, st, dir)) THEN "vr-direction"
          ELSE ""

\* every sample that stores an entry had its turn (the others cannot change anything)
Visited(cfg, st) == \A i \in 0..(NS(cfg) - 1) : i \in st.seen \/ cfg.sup[i + 1] = <<>>

EpochClause(cfg, st, ev) ==
  IF ~Visited(cfg, st) THEN "epoch-misses-a-sample"
  ELSE IF ev.x # st.x THEN "vr-callback-not-the-iterate"
  ELSE ""

VrRetClause(cfg, st, ev) ==
  IF ev.x # st.x THEN "vr-result-not-the-last-iterate"
  ELSE IF st.seen # {} THEN "epoch-misses-a-sample"
  ELSE IF st.k = 0 THEN ""
  ELSE LET noise == RMul(Eps(14), RMul(R(NF(cfg) + 1, 1), RAdd(NormInf(st.x), st.moved)))
       IN IF ev.success /\ ~RLt(st.moved, RAdd(cfg.tol, noise)) THEN "vr-success-while-moving"
          ELSE IF ~ev.success /\ RLt(RAdd(st.moved, noise), cfg.tol) THEN "vr-success-flag"
          ELSE IF ~ev.success /\ st.k < cfg.maxit THEN "vr-stops-early"
          ELSE ""

\* Goes on although the last epoch moved less than the tolerance
Overdue(cfg, st) ==
  /\ st.k > 0
  /\ RLt(RAdd(st.moved, RMul(Eps(14), RMul(R(NF(cfg) + 1, 1), RAdd(NormInf(st.x), st.moved)))), cfg.tol)

(***************************************************************************)
(* Convergence (alpha > 0, so the minimizer xs is unique): xs is verified  *)
(* with the subgradient xi of the penalty P, then the result is compared.  *)
(***************************************************************************)
VrOptimum(cfg, st, ev) ==
  LET g == ObjGrad(cfg, ev.xs) IN
  IF ~SubGrad(ev.P, ev.xi, ev.xs, Eps(8)) \/ RLt(Eps(8), NormInf(VAdd(g, ev.xi))) THEN "vr-witness"
  ELSE IF RLt(RSqr(RMul(ev.target, RAdd(One, NormInf(ev.xs)))), DistSq(ev.x, ev.xs)) THEN "vr-does-not-converge"
  ELSE ""

VrClause(cfg, st, ev) ==
  CASE ev.k = "cb0"   -> IF st.cb \/ st.k > 0 \/ st.seen # {} THEN "vr-extra-callback"
                         ELSE IF ev.x # cfg.x0 THEN "vr-start" ELSE ""
    [] ev.k = "step"  -> IF Overdue(cfg, st) THEN "vr-continues-below-tolerance" ELSE VrStepClause(cfg, st, ev)
    [] ev.k = "epoch" -> EpochClause(cfg, st, ev)
    [] ev.k = "ret"   -> VrRetClause(cfg, st, ev)
    [] ev.k = "opt"   -> VrOptimum(cfg, st, ev)
VrAfter(cfg, st, ev) ==
  CASE ev.k = "cb0"   -> [st EXCEPT !.cb = TRUE]
    [] ev.k = "step"  -> VrStep(cfg, st, ev.i, ev.z)
    [] ev.k = "epoch" -> VrEpochEnd(cfg, st, ev.x)
    [] OTHER -> st
================================================================================
