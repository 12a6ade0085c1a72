-------------------------------- MODULE Recorder --------------------------------
(***************************************************************************)
(* The Trace callback.  cfg: q (its frequency), objective (it was given    *)
(* one).                                                                   *)
(*                                                                         *)
(* State: n (calls so far), due (what it must have recorded: for each call *)
(* 0, q, 2q, ... the iterate, its objective, the step size and the bounds  *)
(* that the harness's clock gives for the time).                           *)
(* Event "call": x, fx, step, lo, hi, ret (what it returned), and what it  *)
(* has recorded when the call is over: xs, fxs, steps, times (unless these *)
(* were not looked at then: seen is FALSE).                                *)
(* Event "look": the records at a later moment.                            *)
(***************************************************************************)
EXTENDS Vec

RecStart == [n |-> 0, due |-> <<>>]

RecDue(cfg, st, ev) ==
  IF ev.k = "call" /\ st.n % cfg.q = 0
  THEN Append(st.due, [x |-> ev.x, fx |-> ev.fx, step |-> ev.step, lo |-> ev.lo, hi |-> ev.hi])
  ELSE st.due

Records(cfg, due, ev) ==
  LET m == Len(due)
  IN IF Len(ev.xs) # (IF cfg.objective THEN 0 ELSE m) \/ Len(ev.fxs) # (IF cfg.objective THEN m ELSE 0)
     THEN "trace-number-of-records"
     ELSE IF Len(ev.steps) # m \/ Len(ev.times) # m THEN "trace-number-of-times-or-steps"
     ELSE IF \E k \in DOMAIN ev.xs : ~VNear(due[k].x, ev.xs[k], Zero) THEN "trace-wrong-iterate"
     ELSE IF \E k \in DOMAIN ev.fxs : ~RNear(due[k].fx, ev.fxs[k], "1/38d7ea4c68000") THEN "trace-wrong-objective"
     ELSE IF \E k \in 1..m : due[k].step # ev.steps[k] /\ ~RNear(due[k].step, ev.steps[k], Zero) THEN "trace-wrong-step-size"
     ELSE IF \E k \in 1..m : ~RIsNum(ev.times[k]) THEN "trace-time-not-a-number"
     ELSE IF \E k \in 2..m : RLt(ev.times[k], ev.times[k - 1]) THEN "trace-time-decreases"
     ELSE IF \E k \in 1..m : RLt(ev.times[k], due[k].lo) \/ RLt(due[k].hi, ev.times[k]) THEN "trace-wrong-time"
     ELSE ""

RecClause(cfg, st, ev) ==
  LET bad == IF ev.k = "call" /\ ~ev.seen THEN "" ELSE Records(cfg, RecDue(cfg, st, ev), ev)
  IN IF bad # "" THEN bad
     ELSE IF ev.k = "call" /\ ev.ret THEN "trace-stops-the-solver"
     ELSE ""
RecAfter(cfg, st, ev) == [n |-> IF ev.k = "call" THEN st.n + 1 ELSE st.n, due |-> RecDue(cfg, st, ev)]
================================================================================
