---------------------------- MODULE MC_VarianceReduced --------------------------
(***************************************************************************)
(* SAGA and SVRG on square losses with small integer data, with and        *)
(* without an L1 penalty, for every order of the samples in every epoch.   *)
(* Checked: the incrementally updated average is the mean of the           *)
(* remembered gradients; the directions average to the gradient of the     *)
(* objective; with fresh memory a point is left alone by every sample iff  *)
(* it is optimal (on the blocks some sample touches); the clauses accept   *)
(* every step and reject perturbed ones.                                   *)
(***************************************************************************)
EXTENDS VarianceReduced, TLC, Json
CONSTANTS D, Data, Alphas, Lams, Xs, Methods, GenOn
VARIABLES par, st, avg, order, hist, ok, facts

I(n) == R(n, 1)
As == << <<<<1, 0>>, <<0, 1>>, <<1, 1>>>>,
         <<<<2, -1>>, <<0, 0>>, <<1, 0>>>>,
         <<<<1, 0>>, <<2, 0>>, <<-1, 0>>>>,
         <<<<1, 2>>, <<-1, 1>>, <<0, 3>>>> >>
Mat(k) == [i \in 1..3 |-> [j \in 1..2 |-> I(As[k][i][j])]]
Bs == <<I(1), I(-2), I(3)>>
Parts == {<<0, 1, 2>>, <<0, 2>>}
SupOf(A, ip) == [i \in DOMAIN A |->
   SelectSeq([h \in 1..NBlocks(ip) |-> h - 1],
             LAMBDA h : \E k \in DOMAIN Feats(ip, h) : A[i][Feats(ip, h)[k]] # Zero)]
Cfg(p) == [method |-> p.method, F |-> [t |-> "square", A |-> p.A, b |-> Bs, alpha |-> p.alpha, delta |-> One, n |-> 2],
           sup |-> p.sup, indptr |-> p.ip, step |-> p.step, x0 |-> p.x0, tol |-> Zero, maxit |-> D, ftol |-> Eps(18)]
Soft(v, lam) == RSub(RMax(RSub(v, lam), Zero), RMax(RSub(RNeg(v), lam), Zero))
BProx(p, i, v) == [j \in 1..2 |-> IF Touches(Cfg(p), i, j)
                                 THEN Soft(v[j], RMul(p.lam, RMul(p.step, WeightAt(Cfg(p), j)))) ELSE v[j]]
Pen(p) == [t |-> "l1", a |-> p.lam]

Init == /\ \E k \in Data, ip \in Parts, al \in Alphas, lam \in Lams, a \in Xs, m \in Methods :
             par = [A |-> Mat(k), ip |-> ip, sup |-> SupOf(Mat(k), ip), alpha |-> R(al, 2), lam |-> R(lam, 4),
                    x0 |-> <<I(a - 2), R(1, 2)>>, method |-> m, step |-> R(1, 16), id |-> k]
        /\ st = VrStart(Cfg(par)) /\ avg = AvgGrad(Cfg(par), VrStart(Cfg(par)).mem)
        /\ order = <<>> /\ hist = <<>> /\ ok = "" /\ facts = TRUE

StepEv(i) ==
  LET c == Cfg(par)
      v == VAxpy(RNeg(c.step), Direction(c, st.mem, st.x, i), st.x)
  IN [k |-> "step", i |-> i, v |-> v, z |-> BProx(par, i, v), s |-> c.step, listed |-> c.sup[i + 1],
      d |-> [h \in 1..NBlocks(c.indptr) |-> Weight(c.sup, h - 1)]]

Step == \E i \in 0..2 :
  /\ i \notin st.seen /\ st.k < D
  /\ LET ev == StepEv(i)
         c == Cfg(par)
     IN /\ ok' = VrClause(c, st, ev)
        /\ st' = VrAfter(c, st, ev)
        /\ order' = Append(order, i)
        /\ avg' = IF par.method = "svrg" THEN avg
                  ELSE VAxpy(RDiv(RSub(Der(c, i, st.x), st.mem[i + 1]), I(3)), c.F.A[i + 1], avg)
        /\ facts' =
             /\ avg = AvgGrad(c, st.mem)
             \* unbiased, whatever is remembered
             /\ LET touched(j) == \E q \in 0..2 : Touches(c, q, j)
                    sum == FoldLeft(VAdd, VZero(2), [q \in 1..3 |-> Direction(c, st.mem, st.x, q - 1)])
                    g == ObjGrad(c, st.x)
                IN \A j \in 1..2 : touched(j) => RDiv(sum[j], I(3)) = g[j]
             \* with fresh memory, fixed points are the optimal points
             /\ LET mem == DerAll(c, st.x)
                    v(q) == VAxpy(RNeg(c.step), Direction(c, mem, st.x, q), st.x)
                    fixed == \A q \in 0..2 : BProx(par, q, v(q)) = st.x
                    g == ObjGrad(c, st.x)
                    opt(j) == \/ ~\E q \in 0..2 : Touches(c, q, j)
                              \/ SubGrad(Pen(par), <<RNeg(g[j])>>, <<st.x[j]>>, Zero)
                IN fixed = (opt(1) /\ opt(2))
        /\ UNCHANGED <<par, hist>>
Epoch ==
  /\ Cardinality(st.seen) = 3
  /\ LET ev == [k |-> "epoch", x |-> st.x]
         c == Cfg(par)
     IN /\ ok' = VrClause(c, st, ev)
        /\ st' = VrAfter(c, st, ev)
        /\ hist' = Append(hist, st.x)
        /\ avg' = AvgGrad(c, VrAfter(c, st, ev).mem)
        /\ UNCHANGED <<par, order, facts>>
Next == Step \/ Epoch
Spec == Init /\ [][Next]_<<par, st, avg, order, hist, ok, facts>>

Accepted == ok = ""
Facts == facts
Sharp == (st.k < D /\ Len(order) < 3) =>
  \A i \in (0..2) \ st.seen :
    LET ev == StepEv(i) IN
    /\ \A j \in 1..2 : VrClause(Cfg(par), st, [ev EXCEPT !.v[j] = RAdd(@, R(1, 64))]) # ""
    /\ par.sup[i + 1] # <<>> => VrClause(Cfg(par), st, [ev EXCEPT !.s = RMul(@, Two)]) # ""
    /\ st.seen # {} => VrClause(Cfg(par), st, [ev EXCEPT !.i = CHOOSE q \in st.seen : TRUE]) # ""
Gen == (GenOn /\ st.k = D) =>
  PrintT(<<"GEN", ToJson([A |-> par.A, b |-> Bs, ip |-> par.ip, alpha |-> par.alpha, lam |-> par.lam, x0 |-> par.x0,
                          method |-> par.method, step |-> par.step, order |-> order, hist |-> hist])>>)
================================================================================
