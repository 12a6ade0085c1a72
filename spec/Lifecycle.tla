--------------------------------- MODULE Lifecycle ------------------------------
(***************************************************************************)
(* The protocol between a solver, its callback, its budget and its         *)
(* tolerance, as a machine over the iterates X_0, X_1, ... and the         *)
(* certificates C_1, C_2, ... the solver would produce if it never had to  *)
(* stop.  What the machine does is decided by                              *)
(*   tol, budget, stopAt (the call that returns False; 0 if none does)     *)
(* and the solver's profile:                                               *)
(*   "fw"  tests C_n+1 at X_n, then calls, then steps; a closing call      *)
(*   "pg"  calls with X_n, steps, tests                                    *)
(*   "ts"  steps, calls, tests (from the second iteration on)              *)
(*   "pd"  steps, tests, calls                                             *)
(*   "ep"  an opening call, then per iteration: steps, calls, tests; what  *)
(*         callbacks return is not looked at (the stochastic solvers)      *)
(*   "vt"  as "ep", without tests                                          *)
(* State: n iterations done, calls (indices of the iterates the callback   *)
(* saw), pc, success.                                                      *)
(***************************************************************************)
EXTENDS Vec

Profiles == {"fw", "pg", "ts", "pd", "ep"}
Meets(C, n, tol) == tol = "inf" \/ RLt(C[n], tol)

LifeStart(profile) ==
  [n |-> 0, calls |-> IF profile \in {"ep", "vt"} THEN <<0>> ELSE <<>>, pc |-> "loop", success |-> FALSE]

Call(s, k) == [s EXCEPT !.calls = Append(@, k)]
Finish(s) == [s EXCEPT !.pc = "done"]
Success(s) == [s EXCEPT !.success = TRUE, !.pc = "done"]
Stops(s, stopAt) == stopAt # 0 /\ Len(s.calls) = stopAt

\* one iteration of the loop, including the guard
LifeStep(profile, C, tol, budget, stopAt, s) ==
  LET body(t) ==
        CASE profile = "fw" ->
               IF Meets(C, t.n + 1, tol) THEN Success(t)
               ELSE LET c == Call(t, t.n) IN
                    IF Stops(c, stopAt) THEN Finish(c) ELSE [c EXCEPT !.n = @ + 1]
          [] profile = "pg" ->
               LET c == Call(t, t.n) IN
               IF Stops(c, stopAt) THEN Finish(c)
               ELSE LET m == [c EXCEPT !.n = @ + 1] IN IF Meets(C, m.n, tol) THEN Success(m) ELSE m
          [] profile = "ts" ->
               LET m == Call([t EXCEPT !.n = @ + 1], t.n + 1) IN
               IF Stops(m, stopAt) THEN Finish(m)
               ELSE IF m.n > 1 /\ Meets(C, m.n, tol) THEN Success(m) ELSE m
          [] profile = "pd" ->
               LET m == [t EXCEPT !.n = @ + 1] IN
               IF Meets(C, m.n, tol) THEN Success(m)
               ELSE LET c == Call(m, m.n) IN IF Stops(c, stopAt) THEN Finish(c) ELSE c
          [] profile = "ep" ->
               LET m == Call([t EXCEPT !.n = @ + 1], t.n + 1) IN
               IF Meets(C, m.n, tol) THEN Success(m) ELSE m
          [] profile = "vt" -> Call([t EXCEPT !.n = @ + 1], t.n + 1)
      closing(t) == IF profile = "fw" /\ t.pc = "done" THEN Call(t, t.n) ELSE t
  IN closing(IF s.n >= budget THEN Finish(s) ELSE body(s))

RECURSIVE LifeRun(_, _, _, _, _, _)
LifeRun(profile, C, tol, budget, stopAt, s) ==
  IF s.pc = "done" THEN s
  ELSE LifeRun(profile, C, tol, budget, stopAt, LifeStep(profile, C, tol, budget, stopAt, s))
Outcome(profile, C, tol, budget, stopAt) == LifeRun(profile, C, tol, budget, stopAt, LifeStart(profile))

(***************************************************************************)
(* Trace validation.  cfg: profile, X (X[k+1] is X_k; X_0 is a             *)
(* placeholder for the profiles that never show it), C, x0 (start, "none"  *)
(* if X_0 is not the start), ftol.                                         *)
(* Event "run": budget, tol, stopAt, seen (the points the callback saw,    *)
(* "none" without a callback), x, success, nit.                            *)
(***************************************************************************)
PointIs(cfg, k, v) == VNear(cfg.X[k + 1], v, cfg.ftol)

LifeRunClause(cfg, ev) ==
  LET stopAt == IF cfg.profile \in {"ep", "vt"} THEN 0 ELSE ev.stopAt
      o == Outcome(cfg.profile, cfg.C, ev.tol, ev.budget, stopAt)
  IN IF ~VIsNum(ev.x) THEN "life-result-not-a-point"
     ELSE IF ev.cb /\ Len(ev.seen) # Len(o.calls) THEN
            IF ev.stopAt # 0 /\ Len(ev.seen) > Len(o.calls) THEN "life-continues-after-stop"
            ELSE IF Len(ev.seen) > Len(o.calls) THEN "life-too-many-callbacks" ELSE "life-too-few-callbacks"
     ELSE IF ev.cb /\ \E k \in DOMAIN o.calls : ~PointIs(cfg, o.calls[k], ev.seen[k]) THEN "life-callback-not-the-iterate"
     ELSE IF ~PointIs(cfg, o.n, ev.x) THEN "life-result-point"
     ELSE IF ev.success # o.success THEN "life-success-flag"
     ELSE IF ev.nit > ev.budget THEN "life-exceeds-budget"
     ELSE ""

\* two runs that have to agree exactly (with and without a callback, whatever it returns)
LifeClause(cfg, ev) ==
  CASE ev.k = "start" -> IF VIsNum(cfg.x0) /\ ~VNear(cfg.x0, cfg.X[1], cfg.ftol) THEN "life-first-callback-not-the-start" ELSE ""
    [] ev.k = "run"   -> LifeRunClause(cfg, ev)
================================================================================
