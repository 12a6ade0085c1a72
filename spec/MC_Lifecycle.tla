------------------------------- MODULE MC_Lifecycle -----------------------------
(***************************************************************************)
(* Every profile with every certificate sequence of length M over Vals,    *)
(* every tolerance, budget and stopping call.  Checked, for the machine of *)
(* Lifecycle: the budget is never exceeded; success is reported iff a      *)
(* tested certificate meets the tolerance, and the machine stops at the    *)
(* first one; a stopping call is the last one (but for the closing call),  *)
(* and the result is what it saw; runs with smaller budgets are prefixes.  *)
(* GEN: every scenario, scripted into the real solvers by checks/c18.py.   *)
(***************************************************************************)
EXTENDS Lifecycle, TLC, Json
CONSTANTS M, Vals, GenOn
VARIABLES par, s

Tols == {Half, R(3, 2), R(5, 2), "inf"}
Init == \E p \in Profiles, C \in [1..M -> Vals], tol \in Tols, b \in 1..M, k \in 0..M :
          /\ p = "pd" => \A j \in 1..M : C[j] = C[1]     \* refreshed every hundred iterations only
          /\ p = "ep" => k = 0
          /\ par = [profile |-> p, C |-> [j \in 1..M |-> R(C[j], 1)], tol |-> tol, budget |-> b, stopAt |-> k]
          /\ s = LifeStart(p)
Next == s.pc # "done" /\ s' = LifeStep(par.profile, par.C, par.tol, par.budget, par.stopAt, s) /\ UNCHANGED par
Spec == Init /\ [][Next]_<<par, s>>

Done == s.pc = "done"
Closing == IF par.profile = "fw" THEN 1 ELSE 0
Tested(j) == par.profile = "ts" => j > 1
Hit(j) == Tested(j) /\ Meets(par.C, j, par.tol)
Budget == s.n <= par.budget
FirstHit == Done =>
  LET last == IF par.profile = "fw" THEN s.n + 1 ELSE s.n IN   \* fw tests before it steps
  /\ s.success => Hit(last) /\ \A j \in 1..(last - 1) : ~Hit(j)
  /\ ~s.success => \A j \in 1..s.n : ~Hit(j) \/ (par.stopAt # 0 /\ j = last)
StopAtOnce == (Done /\ par.stopAt # 0 /\ Len(s.calls) - Closing >= par.stopAt) =>
  /\ Len(s.calls) - Closing = par.stopAt /\ ~s.success
  /\ s.calls[par.stopAt] = s.n
Exhausts == (Done /\ ~s.success /\ (par.stopAt = 0 \/ Len(s.calls) - Closing < par.stopAt)) => s.n = par.budget
Prefix == (Done /\ par.budget < M) =>
  LET o == Outcome(par.profile, par.C, par.tol, par.budget + 1, par.stopAt) IN
  /\ s.n <= o.n /\ (s.success => o = s)
  /\ SubSeq(o.calls, 1, Len(s.calls) - Closing) = SubSeq(s.calls, 1, Len(s.calls) - Closing)
SameAsRun == Done => s = Outcome(par.profile, par.C, par.tol, par.budget, par.stopAt)
Sharp == (Done /\ s.n > 0) =>
  LET X == [j \in 1..(M + 1) |-> <<R(j, 1)>>]
      cfg == [profile |-> par.profile, X |-> X, C |-> par.C, ftol |-> Eps(9), x0 |-> X[1]]
      ev == [k |-> "run", budget |-> par.budget, tol |-> par.tol, stopAt |-> par.stopAt, x |-> X[s.n + 1], cb |-> TRUE,
             seen |-> [j \in DOMAIN s.calls |-> X[s.calls[j] + 1]], success |-> s.success, nit |-> s.n]
  IN /\ LifeClause(cfg, ev) = ""
     /\ LifeClause(cfg, [ev EXCEPT !.x = X[s.n]]) # ""
     /\ LifeClause(cfg, [ev EXCEPT !.success = ~@]) # ""
     /\ LifeClause(cfg, [ev EXCEPT !.seen = Append(@, X[1])]) # ""
     /\ LifeClause(cfg, [ev EXCEPT !.nit = par.budget + 1]) # ""
Gen == (GenOn /\ Done) => PrintT(<<"GEN", ToJson([par |-> par, n |-> s.n, calls |-> s.calls, success |-> s.success])>>)
================================================================================
