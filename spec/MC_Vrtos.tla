--------------------------------- MODULE MC_Vrtos -------------------------------
(***************************************************************************)
(* Variance-reduced three-operator splitting on square losses with small   *)
(* integer data, g = lam |x|_1 and h the indicator of x >= 0, for every    *)
(* pair of block structures, order of the samples and warm-up.             *)
(* Checked: the clauses accept every step and reject perturbed ones;       *)
(* features no sample touches stay; and a state is left alone by every     *)
(* sample exactly when its duals are those of an optimal z (fixed points   *)
(* are minimizers, and minimizers are fixed points).                       *)
(***************************************************************************)
EXTENDS Vrtos, TLC, Json
CONSTANTS D, Data, Alphas, Lams, Xs, Warm, FixOn, GenOn
VARIABLES par, st, order, hist, ok

I(n) == R(n, 1)
As == << <<<<1, 0>>, <<0, 1>>, <<1, 1>>>>,
         <<<<2, -1>>, <<0, 0>>, <<1, 0>>>>,
         <<<<1, 0>>, <<2, 0>>, <<-1, 0>>>>,
         <<<<1, 2>>, <<-1, 1>>, <<0, 3>>>> >>
Mat(k) == [i \in 1..3 |-> [j \in 1..2 |-> I(As[k][i][j])]]
Bs == <<I(1), I(-2), I(3)>>
Parts == {<<0, 1, 2>>, <<0, 2>>}
SupOf(A, ip) == [i \in DOMAIN A |->
   SelectSeq([h \in 1..NBlocks(ip) |-> h - 1],
             LAMBDA h : \E k \in DOMAIN Feats(ip, h) : A[i][Feats(ip, h)[k]] # Zero)]
Cfg(p) == [F |-> [t |-> "square", A |-> p.A, b |-> Bs, alpha |-> p.alpha, delta |-> One, n |-> 2],
           sup1 |-> p.sup1, ip1 |-> p.ip1, sup2 |-> p.sup2, ip2 |-> p.ip2, step |-> p.step, x0 |-> p.x0, maxit |-> D,
           ftol |-> Eps(18)]
Soft(v, lam) == RSub(RMax(RSub(v, lam), Zero), RMax(RSub(RNeg(v), lam), Zero))
P1(p, i, v) == [j \in 1..2 |-> IF Touches(View(Cfg(p), 1), i, j)
                               THEN Soft(v[j], RMul(p.lam, RMul(p.step, WeightAt(View(Cfg(p), 1), j)))) ELSE v[j]]
P2(p, i, v) == [j \in 1..2 |-> IF Touches(View(Cfg(p), 2), i, j) THEN RMax(v[j], Zero) ELSE v[j]]

Init == /\ \E k \in Data, ip1 \in Parts, ip2 \in Parts, al \in Alphas, lam \in Lams, a \in Xs :
             par = [A |-> Mat(k), ip1 |-> ip1, ip2 |-> ip2, sup1 |-> SupOf(Mat(k), ip1), sup2 |-> SupOf(Mat(k), ip2),
                    alpha |-> R(al, 2), lam |-> R(lam, 4), x0 |-> <<I(a - 2), R(1, 2)>>, step |-> R(1, 16)]
        /\ st = VtStart(Cfg(par)) /\ order = <<>> /\ hist = <<>> /\ ok = ""

StepEv(p, s, i) ==
  LET c == Cfg(p)
      v1 == VtArg(c, s, 1, i)
      v2 == VtArg(c, s, 2, i)
  IN [k |-> "step", i |-> i, v1 |-> v1, z1 |-> P1(p, i, v1), v2 |-> v2, z2 |-> P2(p, i, v2), s1 |-> p.step, s2 |-> p.step,
      d1 |-> [h \in 1..NBlocks(c.ip1) |-> Weight(c.sup1, h - 1)],
      d2 |-> [h \in 1..NBlocks(c.ip2) |-> Weight(c.sup2, h - 1)],
      listed1 |-> c.sup1[i + 1], listed2 |-> c.sup2[i + 1]]
Do(ev) == /\ ok' = VtClause(Cfg(par), st, ev)
          /\ st' = VtAfter(Cfg(par), st, ev)
          /\ UNCHANGED par
Step == \E i \in IF st.cb THEN 0..2 ELSE Warm :
  /\ i \notin st.seen /\ st.k < D /\ (st.cb \/ order = <<>>)
  /\ Do(StepEv(par, st, i))
  /\ order' = Append(order, i) /\ UNCHANGED hist
Callback ==
  /\ st.cb => Cardinality(st.seen) = 3
  /\ Do([k |-> "cb", x |-> st.z])
  /\ hist' = Append(hist, st.z) /\ UNCHANGED order
Next == Step \/ Callback
Spec == Init /\ [][Next]_<<par, st, order, hist, ok>>

Accepted == ok = ""
Untouched == VtUntouched(Cfg(par), st.z)
Sharp == (st.k < D /\ Len(order) < 4 /\ st.cb) =>
  \A i \in (0..2) \ st.seen :
    LET ev == StepEv(par, st, i) IN
    \A j \in 1..2 : /\ VtClause(Cfg(par), st, [ev EXCEPT !.v1[j] = RAdd(@, R(1, 64))]) # ""
                    /\ VtClause(Cfg(par), st, [ev EXCEPT !.v2[j] = RAdd(@, R(1, 64))]) # ""

\* Fixed points, on the start states: z on a grid, candidate subgradients xi1 and xi2
FixedPoints == (FixOn /\ order = <<>> /\ ~st.cb) =>
  LET c == Cfg(par)
      v1 == View(c, 1)
      v2 == View(c, 2)
      grid == {R(k, 4) : k \in {-1, 0, 1, 2}}
      used(j) == \E i \in 0..2 : Touches(v1, i, j)
  IN \A zz \in {<<a, b>> : a \in {R(-1, 4), Zero, R(1, 4)}, b \in {Zero, R(1, 2)}}, xa \in grid, xb \in {R(-1, 2), Zero, R(1, 4)} :
     LET g == ObjGrad(c, zz)
         \* in the first coordinate xi2 balances xi1 or not (xb); in the second it always does
         xi1 == <<xa, IF RSgn(zz[2]) > 0 THEN par.lam ELSE Zero>>
         xi2 == <<xb, RSub(RNeg(g[2]), xi1[2])>>
         bal2 == <<RSub(RNeg(g[1]), xi1[1]), xi2[2]>>
         y(q, xi) == [j \in 1..2 |-> LET d == WeightAt(View(c, q), j) IN
                        RSub(zz[j], RMul(d, RMul(par.step, RAdd(RMul(Half, g[j]), xi[j]))))]
         state(xx2) == [VtStart(c) EXCEPT !.z = zz, !.x1 = zz, !.x2 = zz, !.y1 = y(1, xi1), !.y2 = y(2, xx2),
                                          !.mem = DerAll(c, zz), !.cb = TRUE]
         fixed(xx2) == \A i \in 0..2 : LET s == state(xx2)
                                           ev == StepEv(par, s, i)
                                           t == VtStep(c, s, i, ev.z1, ev.z2)
                                       IN /\ \A j \in 1..2 : Touches(v1, i, j) => t.x1[j] = zz[j] /\ RLe(RAbs(RSub(t.y1[j], s.y1[j])), RPow2(-100))
                                          /\ \A j \in 1..2 : Touches(v2, i, j) => t.x2[j] = zz[j] /\ RLe(RAbs(RSub(t.y2[j], s.y2[j])), RPow2(-100))
                                          /\ \A j \in 1..2 : RLe(RAbs(RSub(t.z[j], zz[j])), RPow2(-100))
         subg(xx2) == \A j \in 1..2 : used(j) =>
                        /\ SubGrad([t |-> "l1", a |-> par.lam], <<xi1[j]>>, <<zz[j]>>, Zero)
                        /\ SubGrad([t |-> "nonneg"], <<xx2[j]>>, <<zz[j]>>, Zero)
                        /\ RAdd(g[j], RAdd(xi1[j], xx2[j])) = Zero
     IN ((\A j \in 1..2 : used(j) = \E i \in 0..2 : Touches(v2, i, j)) => (fixed(xi2) = subg(xi2)) /\ (fixed(bal2) = subg(bal2)))
Gen == (GenOn /\ st.k = D) =>
  PrintT(<<"GEN", ToJson([A |-> par.A, b |-> Bs, ip1 |-> par.ip1, ip2 |-> par.ip2, alpha |-> par.alpha, lam |-> par.lam,
                          x0 |-> par.x0, step |-> par.step, order |-> order, hist |-> hist])>>)
================================================================================
