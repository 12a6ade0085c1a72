---------------------------------- MODULE Purity --------------------------------
(***************************************************************************)
(* The frame condition of the library: arrays the caller holds - arguments *)
(* and earlier results - keep their contents through every call, and equal *)
(* calls give equal results.                                               *)
(*                                                                         *)
(* State: held (what the caller holds: handle -> contents), memo (what     *)
(* each call - operation, contents of its argument, seed - returned).      *)
(* Event "call": op, arg (a handle), others (handles of its other          *)
(* arguments), new (the handles of its results), after (contents of all    *)
(* handles, new ones included, after the call), res (the results as        *)
(* vectors; equal calls agree up to rounding), shared (a result occupies   *)
(* memory of the start point).                                             *)
(* Event "hold": handles the caller creates itself, with their contents.   *)
(***************************************************************************)
EXTENDS Vec

PureStart == [held |-> <<>>, memo |-> <<>>]

ValueOf(held, h) == LET k == CHOOSE k \in DOMAIN held : held[k].h = h IN held[k].v
Knows(held, h) == \E k \in DOMAIN held : held[k].h = h
Key(st, ev) == [op |-> ev.op, arg |-> ValueOf(st.held, ev.arg)]
HasMemo(st, key) == \E k \in DOMAIN st.memo : st.memo[k].key = key
Memo(st, key) == LET k == CHOOSE k \in DOMAIN st.memo : st.memo[k].key = key IN st.memo[k].res
SameResults(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : a[k] = b[k] \/ VNear(a[k], b[k], "1/3b9aca00")

PureCall(st, ev) ==
  IF \E k \in DOMAIN st.held : ~Knows(ev.after, st.held[k].h) THEN "purity-lost-track"
  ELSE IF ValueOf(ev.after, ev.arg) # ValueOf(st.held, ev.arg) THEN "purity-argument-modified"
  ELSE IF \E k \in DOMAIN st.held : ValueOf(ev.after, st.held[k].h) # st.held[k].v
       THEN "purity-modifies-what-the-caller-holds"
  ELSE IF ev.shared THEN "purity-result-is-the-start-point"
  ELSE IF HasMemo(st, Key(st, ev)) /\ ~SameResults(Memo(st, Key(st, ev)), ev.res) THEN "purity-not-repeatable"
  ELSE ""

PureClause(st, ev) == IF ev.k = "call" THEN PureCall(st, ev) ELSE ""
PureAfter(st, ev) ==
  IF ev.k = "hold" THEN [st EXCEPT !.held = @ \o ev.new]
  ELSE [held |-> ev.after,
        memo |-> IF HasMemo(st, Key(st, ev)) THEN st.memo ELSE Append(st.memo, [key |-> Key(st, ev), res |-> ev.res])]
================================================================================
