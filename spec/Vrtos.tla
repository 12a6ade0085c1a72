---------------------------------- MODULE Vrtos ---------------------------------
(***************************************************************************)
(* Variance-reduced three-operator splitting with sparse updates, for      *)
(*    1/n sum_i phi(A_i x, b_i) + alpha/2 |x|^2 + g(x) + h(x)              *)
(* where g and h are separable over block structures 1 and 2, which need   *)
(* not agree.  State: the average point z, two prox points x1, x2, two     *)
(* dual-like variables y1, y2 and the remembered derivatives m (SAGA).     *)
(* Sample i, on the features j of the blocks of structure q it touches:    *)
(*   v_q = 2 z - y_q - s/2 ((phi'(A_i z) - m_i) A_ij + d_q (avg + alpha z))*)
(*   x_q = block prox of v_q with step s d_q,     y_q' = y_q + x_q - z     *)
(* and where it touches either structure                                   *)
(*   z' = (y_1'/d_1 + y_2'/d_2) / (1/d_1 + 1/d_2).                         *)
(* Everything else stays.                                                  *)
(*                                                                         *)
(* Configuration: F, sup1, ip1, sup2, ip2, step, x0, maxit, ftol.          *)
(* Events: "step" (sample i; v1, z1, v2, z2 arguments and results of the   *)
(* two block operators with s1, s2, d1, d2, listed1, listed2), "cb" the    *)
(* callback (the first one precedes the first epoch; steps before it, the  *)
(* warm-up of the code, belong to no epoch), "ret", "opt".                 *)
(***************************************************************************)
EXTENDS VarianceReduced

\* the view of structure q as a configuration of VarianceReduced
View(cfg, q) == [F |-> cfg.F, sup |-> IF q = 1 THEN cfg.sup1 ELSE cfg.sup2,
                 indptr |-> IF q = 1 THEN cfg.ip1 ELSE cfg.ip2, step |-> cfg.step, ftol |-> cfg.ftol]

VtStart(cfg) ==
  [z |-> cfg.x0, x1 |-> cfg.x0, x2 |-> cfg.x0, y1 |-> VZero(cfg.F.n), y2 |-> VZero(cfg.F.n),
   mem |-> VZero(NS(cfg)), seen |-> {}, k |-> 0, cb |-> FALSE]

\* the argument of the block operator of structure q, for sample i
VtArg(cfg, st, q, i) ==
  LET c == View(cfg, q)
      dir == Direction(c, st.mem, st.z, i)
      x == IF q = 1 THEN st.x1 ELSE st.x2
      y == IF q = 1 THEN st.y1 ELSE st.y2
  IN [j \in 1..cfg.F.n |->
        IF Touches(c, i, j) THEN RSub(RSub(RAdd(st.z[j], st.z[j]), y[j]), RMul(RMul(Half, cfg.step), dir[j])) ELSE x[j]]
VtDual(cfg, st, q, i, xq) ==
  LET y == IF q = 1 THEN st.y1 ELSE st.y2 IN
  [j \in 1..cfg.F.n |-> IF Touches(View(cfg, q), i, j) THEN RAdd(y[j], RSub(xq[j], st.z[j])) ELSE y[j]]

\* after sample i, whose block operators answered z1 and z2
VtStep(cfg, st, i, z1, z2) ==
  LET y1 == VrRound(VtDual(cfg, st, 1, i, z1))
      y2 == VrRound(VtDual(cfg, st, 2, i, z2))
      c1 == View(cfg, 1)
      c2 == View(cfg, 2)
      z == [j \in 1..cfg.F.n |->
              IF Touches(c1, i, j) \/ Touches(c2, i, j)
              THEN LET a == RDiv(One, WeightAt(c1, j))
                       b == RDiv(One, WeightAt(c2, j))
                   IN RDiv(RAdd(RMul(a, y1[j]), RMul(b, y2[j])), RAdd(a, b))
              ELSE st.z[j]]
  IN [st EXCEPT !.z = VrRound(z), !.x1 = z1, !.x2 = z2, !.y1 = y1, !.y2 = y2,
                !.mem[i + 1] = Der(cfg, i, st.z), !.seen = IF st.cb THEN @ \cup {i} ELSE @]

VtScale(cfg, st, q) ==
  RAdd(RAdd(VrScale(View(cfg, q), [x |-> st.z, mem |-> st.mem], Direction(View(cfg, q), st.mem, st.z, 0)),
            RMul(Two, NormInf(IF q = 1 THEN st.y1 ELSE st.y2))), RMul(R(3, 1), NormInf(st.z)))

ListedOk(cfg, q, i, listed, d, s) ==
  LET sup == View(cfg, q).sup[i + 1] IN
  /\ {listed[k] : k \in DOMAIN listed} = {sup[k] : k \in DOMAIN sup} /\ Len(listed) = Len(sup)
  /\ \A k \in DOMAIN listed : RNear(Weight(View(cfg, q).sup, listed[k]), d[listed[k] + 1], Eps(14)) /\ s = cfg.step

VtStepClause(cfg, st, ev) ==
  IF ~(ev.i \in 0..(NS(cfg) - 1)) THEN "vt-not-a-sample"
  ELSE IF st.cb /\ ev.i \in st.seen THEN "epoch-repeats-a-sample"
  ELSE IF st.k >= cfg.maxit THEN "vt-exceeds-budget"
  ELSE IF ~VIsNum(ev.v1) \/ ~VIsNum(ev.v2) \/ Len(ev.v1) # NF(cfg) \/ Len(ev.v2) # NF(cfg) THEN "vt-not-a-point"
  ELSE IF ~ListedOk(cfg, 1, ev.i, ev.listed1, ev.d1, ev.s1) \/ ~ListedOk(cfg, 2, ev.i, ev.listed2, ev.d2, ev.s2)
       THEN "vt-weights"
  ELSE IF \E j \in 1..NF(cfg) : \/ ~Touches(View(cfg, 1), ev.i, j) /\ ev.v1[j] # st.x1[j]
                                \/ ~Touches(View(cfg, 2), ev.i, j) /\ ev.v2[j] # st.x2[j]
       THEN "vt-moves-other-blocks"
  ELSE IF ~VNearS(VtArg(cfg, st, 1, ev.i), ev.v1, cfg.ftol, VtScale(cfg, st, 1)) THEN "vt-first-argument"
  ELSE IF ~VNearS(VtArg(cfg, st, 2, ev.i), ev.v2, cfg.ftol, VtScale(cfg, st, 2)) THEN "vt-second-argument"
  ELSE ""

VtVisited(cfg, st) == \A i \in 0..(NS(cfg) - 1) : i \in st.seen \/ (cfg.sup1[i + 1] = <<>> /\ cfg.sup2[i + 1] = <<>>)
VtSame(cfg, st, x) == VNearS(st.z, x, cfg.ftol, RAdd(VtScale(cfg, st, 1), VtScale(cfg, st, 2)))

\* a feature no sample touches keeps its start value for good
VtUntouched(cfg, x) ==
  \A j \in 1..NF(cfg) :
     (\A i \in 0..(NS(cfg) - 1) : ~Touches(View(cfg, 1), i, j) /\ ~Touches(View(cfg, 2), i, j)) => x[j] = cfg.x0[j]

VtOptimum(cfg, ev) ==
  LET g == ObjGrad(cfg, ev.xs) IN
  IF ~SubGrad(ev.P1, ev.xi1, ev.xs, Eps(8)) \/ ~SubGrad(ev.P2, ev.xi2, ev.xs, Eps(8))
     \/ RLt(Eps(8), NormInf(VAdd(g, VAdd(ev.xi1, ev.xi2)))) THEN "vt-witness"
  ELSE IF RLt(RSqr(RMul(ev.target, RAdd(One, NormInf(ev.xs)))), DistSq(ev.x, ev.xs)) THEN "vt-does-not-converge"
  ELSE ""

VtClause(cfg, st, ev) ==
  CASE ev.k = "step" -> VtStepClause(cfg, st, ev)
    [] ev.k = "cb"   -> IF ~VIsNum(ev.x) \/ Len(ev.x) # NF(cfg) THEN "vt-not-a-point"
                        ELSE IF st.cb /\ ~VtVisited(cfg, st) THEN "epoch-misses-a-sample"
                        ELSE IF ~VtSame(cfg, st, ev.x) THEN "vt-callback-not-the-average-point"
                        ELSE IF ~VtUntouched(cfg, ev.x) THEN "vt-moves-other-blocks" ELSE ""
    [] ev.k = "ret"  -> IF ev.x # st.z THEN "vt-result-not-the-last-iterate"
                        ELSE IF st.seen # {} THEN "epoch-misses-a-sample" ELSE ""
    [] ev.k = "opt"  -> VtOptimum(cfg, ev)
VtAfter(cfg, st, ev) ==
  CASE ev.k = "step" -> VtStep(cfg, st, ev.i, ev.z1, ev.z2)
    [] ev.k = "cb"   -> [st EXCEPT !.z = ev.x, !.seen = {}, !.k = IF st.cb THEN @ + 1 ELSE @, !.cb = TRUE]
    [] OTHER -> st
================================================================================
