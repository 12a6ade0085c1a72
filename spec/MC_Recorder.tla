------------------------------ MODULE MC_Recorder -------------------------------
(***************************************************************************)
(* A solver that either updates its iterate in place or makes a new one at *)
(* every step, and a recorder that keeps a copy of the iterate or a        *)
(* reference, and records at the start or the end of every q calls.        *)
(* Checked over all frequencies, histories and disciplines: the right      *)
(* recorder satisfies the clauses; each wrong one fails them as soon as a  *)
(* history shows the difference.                                           *)
(***************************************************************************)
EXTENDS Recorder, TLC, Json
CONSTANTS D, Q, Disciplines
VARIABLES par, heap, cell, recs, st, hist, verdict

Init == /\ par \in [q : 1..Q, objective : BOOLEAN, disc : Disciplines]
        /\ heap = <<5>> /\ cell = 1 /\ recs = <<>> /\ st = RecStart /\ hist = <<>> /\ verdict = ""
Cfg == [q |-> par.q, objective |-> par.objective]
F(v) == R(v * v, 1)
\* a record is a value or a reference to a cell
Seen(rs, hp) == [k \in DOMAIN rs |-> IF rs[k].ref THEN <<R(hp[rs[k].v], 1)>> ELSE <<R(rs[k].v, 1)>>]
View(rs, hp, n) ==
  [k |-> "call", seen |-> TRUE, xs |-> IF par.objective THEN <<>> ELSE Seen(rs, hp),
   fxs |-> IF par.objective THEN [j \in DOMAIN rs |-> F(IF rs[j].ref THEN rs[j].w ELSE rs[j].v)] ELSE <<>>,
   steps |-> [j \in DOMAIN rs |-> R(rs[j].s, 1)], times |-> [j \in DOMAIN rs |-> R(rs[j].t, 1)],
   x |-> <<R(hp[cell], 1)>>, fx |-> F(hp[cell]), step |-> R(n + 1, 1), lo |-> R(n, 1), hi |-> R(n, 1), ret |-> par.disc = "stop"]
Record(n, hp) == [ref |-> par.disc = "reference", v |-> IF par.disc = "reference" THEN cell ELSE hp[cell],
                  w |-> hp[cell], s |-> n + 1, t |-> n]
Call(how) ==
  LET n == Len(hist)
      due == IF par.disc = "late" THEN (n + 1) % par.q = 0 ELSE n % par.q = 0
      rs == IF due THEN Append(recs, Record(n, heap)) ELSE recs
      ev == View(rs, heap, n)
  IN /\ verdict' = RecClause(Cfg, st, ev)
     /\ st' = RecAfter(Cfg, st, ev)
     /\ recs' = rs
     /\ heap' = IF how = "inplace" THEN [heap EXCEPT ![cell] = @ + 1] ELSE Append(heap, heap[cell] + 1)
     /\ cell' = IF how = "inplace" THEN cell ELSE Len(heap) + 1
     /\ hist' = Append(hist, how)
     /\ UNCHANGED par
Next == Len(hist) < D /\ verdict = "" /\ \E how \in {"inplace", "new"} : Call(how)
Spec == Init /\ [][Next]_<<par, heap, cell, recs, st, hist, verdict>>

Look == [View(recs, heap, 0) EXCEPT !.k = "look"]
Sound == par.disc = "copy" => verdict = "" /\ RecClause(Cfg, st, Look) = ""
Complete ==
  /\ (par.disc = "stop" /\ hist # <<>>) => verdict # ""
  /\ (par.disc = "late" /\ par.q > 1 /\ hist # <<>>) => verdict # ""
  /\ (par.disc = "reference" /\ ~par.objective /\ verdict = "" /\ hist # <<>>) =>
       (RecClause(Cfg, st, Look) # "") = (\E k \in DOMAIN recs : recs[k].w # heap[recs[k].v])
  \* records made or lost are noticed at any time
  /\ (par.disc = "copy" /\ recs # <<>>) =>
       LET l == Look
           less(s) == IF s = <<>> THEN s ELSE SubSeq(s, 1, Len(s) - 1)
       IN /\ RecClause(Cfg, st, [l EXCEPT !.xs = less(@), !.fxs = less(@), !.steps = less(@), !.times = less(@)]) # ""
          /\ RecClause(Cfg, st, [l EXCEPT !.times = less(@)]) # ""
          /\ RecClause(Cfg, st, [l EXCEPT !.steps[1] = R(99, 1)]) # ""
Gen == (par.disc = "copy" /\ Disciplines = {"copy"} /\ Len(hist) = D) =>
         PrintT(<<"GEN", ToJson([q |-> par.q, objective |-> par.objective, hist |-> hist, due |-> st.due])>>)
================================================================================
