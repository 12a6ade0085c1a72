------------------------------- MODULE TraceBase -------------------------------
(***************************************************************************)
(* Judges recorded traces.  Each trace is a behaviour: it starts in        *)
(* Start(trace) and consumes one event at a time.  Clause(trace, st, ev)   *)
(* names the first clause of the specification the event breaks, "" if it  *)
(* is allowed, and After(trace, st, ev) is the state it leads to.          *)
(* All traces of a run are initial states of one state graph, so TLC's     *)
(* workers share them; each trace gets exactly one verdict.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Traces, Start(_), Clause(_, _, _), After(_, _, _)
VARIABLES tid, l, st, bad
tvars == <<tid, l, st, bad>>

TraceInit == /\ tid \in 1..Len(Traces)
             /\ l = 1
             /\ st = Start(Traces[tid])
             /\ bad = ""

TraceNext ==
  /\ bad = ""
  /\ l <= Len(Traces[tid].events)
  /\ LET ev == Traces[tid].events[l]
         c  == Clause(Traces[tid], st, ev)
     IN IF c = ""
        THEN /\ st' = After(Traces[tid], st, ev)
             /\ l' = l + 1
             /\ UNCHANGED <<tid, bad>>
        ELSE /\ bad' = c
             /\ UNCHANGED <<tid, l, st>>

TraceSpec == TraceInit /\ [][TraceNext]_tvars

\* an invariant only so that it is evaluated once per state
Verdict ==
  IF bad # "" \/ l > Len(Traces[tid].events)
  THEN PrintT(<<"VERDICT", tid, l, bad, "">>) ELSE TRUE
================================================================================
