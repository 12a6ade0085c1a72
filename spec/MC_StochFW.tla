------------------------------- MODULE MC_StochFW -------------------------------
(***************************************************************************)
(* Stochastic Frank-Wolfe on the L1 ball in two dimensions, square losses  *)
(* of three samples with small integer data, for every sequence of batches.*)
(* Checked: feasibility; the incrementally updated aggregate is A' dual;   *)
(* the SAGA estimate averages to the gradient over the batches, whatever   *)
(* is remembered; with the full batch SAG and SAGA query minus the         *)
(* gradient; the sigma of LF are predictions at points of the set; the MHK *)
(* dual values are convex combinations of derivatives seen (and 0); the    *)
(* clauses accept every step and reject perturbed ones.                    *)
(***************************************************************************)
EXTENDS StochFW, Oracles, Json, TLC
CONSTANTS D, Data, Sizes, Variants, Rules, GenOn
VARIABLES par, st, agg, order, hist, tie, ok, facts

I(n) == R(n, 1)
As == << <<<<1, 0>>, <<0, 1>>, <<1, 1>>>>,
         <<<<2, -1>>, <<0, 0>>, <<1, 3>>>>,
         <<<<1, 2>>, <<-1, 1>>, <<0, 3>>>> >>
Mat(k) == [i \in 1..3 |-> [j \in 1..2 |-> I(As[k][i][j])]]
Bs == <<R(1, 3), I(-2), I(3)>>
Ball == [t |-> "l1", r |-> One]
Cfg(p) == [variant |-> p.variant, F |-> [t |-> "square", A |-> p.A, b |-> Bs, alpha |-> Zero, delta |-> One, n |-> 2],
           S |-> Ball, pair |-> FALSE, rule |-> p.rule, bs |-> p.bs, L |-> I(4), x0 |-> p.x0, act0 |-> <<>>,
           tol |-> Zero, maxit |-> D, ftol |-> Eps(18), prop |-> "C16"]
Batches(b) == {B \in SUBSET (1..3) : Cardinality(B) = b}
Seq2(B) == SetToSortSeq(B, LAMBDA a, c : a < c)

Init == /\ \E k \in Data, b \in Sizes, v \in Variants, r \in Rules, z \in {<<R(1, 2), R(-1, 4)>>, <<One, Zero>>} :
             par = [A |-> Mat(k), bs |-> b, variant |-> v, rule |-> r, x0 |-> z]
        /\ st = SfwStart(Cfg(par)) /\ agg = VZero(2) /\ order = <<>> /\ hist = <<>> /\ tie = FALSE
        /\ ok = "" /\ facts = TRUE

Tied(u) == RLe(RAbs(RSub(RAbs(u[1]), RAbs(u[2]))), Eps(6))
Answer(u, x) == LET s == L1Vertex(Ball, 2, LmoL1(Ball, u)) IN
  [u |-> u, x |-> x, d |-> VSub(s, x), smax |-> One, act |-> <<>>, fw |-> "", away |-> ""]
\* the event of a step that draws B
Event(c, s, B) ==
  LET b == Seq2(B)
      rho == SfwRho(c, s, R(1, 2))
      lf == c.variant = "LF"
      q0 == Answer(VNeg(SfwAgg(c, s.dual)), s.x)
      sigma == SfwSigma(c, s, b, VAdd(q0.x, q0.d), rho)
      dual == SfwDual(c, s, b, sigma, rho)
      q == IF lf THEN q0 ELSE Answer(VNeg(SfwEstimate(c, s, b, dual)), s.x)
      g == SfwStepSize(c, s, q, SfwAgg(c, dual), R(1, 2))
  IN [k |-> "step", batch |-> b, q |-> q, g |-> R(1, 2), r |-> R(1, 2), asked |-> 1, act |-> <<>>, Wx |-> "none",
      p |-> [k \in DOMAIN b |-> IF lf THEN sigma[b[k]] ELSE Dot(c.F.A[b[k]], s.x)],
      x |-> SfwRound(VAxpy(g, q.d, s.x))]

TrueGrad(c, x) == VScale(R(1, 3), MatTVec(c.F.A, [i \in 1..3 |-> PhiDer(c.F, Dot(c.F.A[i], x), c.F.b[i])], 2))
Step == \E B \in Batches(par.bs) :
  /\ st.t < D
  /\ LET c == Cfg(par)
         ev == Event(c, st, B)
         s2 == SfwAfter(c, st, ev)
     IN /\ ok' = SfwClause(c, st, ev)
        /\ st' = s2
        /\ order' = Append(order, ev.batch)
        /\ hist' = Append(hist, ev.x)
        /\ tie' = (tie \/ Tied(ev.q.u))
        /\ agg' = VAdd(agg, SfwAgg(c, VSub(s2.dual, st.dual)))
        /\ facts' =
             /\ VNear(agg, SfwAgg(c, st.dual), Eps(18))
             /\ InSet(Ball, st.x, "none", Eps(18))
             \* unbiased over the batch, whatever is remembered
             /\ c.variant = "SAGA" =>
                  LET est(C) == SfwEstimate(c, st, Seq2(C), SfwDual(c, st, Seq2(C), <<>>, One))
                      cs == SetToSeq(Batches(par.bs))
                      mean == VScale(R(1, Len(cs)), FoldLeft(VAdd, VZero(2), [k \in DOMAIN cs |-> est(cs[k])]))
                  IN VNear(mean, TrueGrad(c, st.x), Eps(18))
             /\ (c.variant \in {"SAG", "SAGA"} /\ par.bs = 3) => VNear(VNeg(ev.q.u), TrueGrad(c, st.x), Eps(18))
             \* |A_i s| for s in the ball is at most the largest entry of A_i
             /\ c.variant = "LF" => \A i \in 1..3 : RLeTol(RAbs(st.sigma[i]), NormInf(c.F.A[i]), Eps(18))
             /\ c.variant = "MHK" => \A i \in 1..3 :
                  RLeTol(RMul(I(3), RAbs(st.dual[i])), RAdd(NormInf(c.F.A[i]), RAbs(Bs[i])), Eps(18))
             \* a step of the rule that knows the curvature never increases the objective when the estimate is exact
             /\ (c.rule = "DR" /\ c.variant \in {"SAG", "SAGA"} /\ par.bs = 3 /\ par.A = Mat(1)) =>
                  RLeTol(LossVal(c.F, MatVec(c.F.A, ev.x), ev.x), LossVal(c.F, MatVec(c.F.A, st.x), st.x), Eps(18))
        /\ UNCHANGED par
Spec == Init /\ [][Step]_<<par, st, agg, order, hist, tie, ok, facts>>

Accepted == ok = ""
Facts == facts
ASSUME Cubes == \A t \in 0..60 : LET c == RSqr(R(2, t + 8)) IN Near(RMul(CubeRoot(c), RSqr(CubeRoot(c))), c, Eps(20))
Sharp == (st.t \in 1..1) =>
  \A B \in Batches(par.bs) :
    LET c == Cfg(par) ev == Event(c, st, B) IN
    /\ \A j \in 1..2 : SfwClause(c, st, [ev EXCEPT !.q.u[j] = RAdd(@, R(1, 64))]) # ""
    /\ \A k \in DOMAIN ev.p : SfwClause(c, st, [ev EXCEPT !.p[k] = RAdd(@, R(1, 64))]) # ""
    /\ \A j \in 1..2 : SfwClause(c, st, [ev EXCEPT !.x[j] = RAdd(@, R(1, 64))]) # ""
    /\ \A k \in DOMAIN ev.batch : \E m \in 1..3 : SfwClause(c, st, [ev EXCEPT !.batch[k] = m]) # ""
    /\ SfwClause(c, st, [ev EXCEPT !.asked = 2]) # ""
Gen == (GenOn /\ st.t = D) =>
  PrintT(<<"GEN", ToJson([A |-> par.A, b |-> Bs, bs |-> par.bs, variant |-> par.variant, rule |-> par.rule,
                          x0 |-> par.x0, order |-> order, hist |-> hist, tie |-> tie])>>)
================================================================================
