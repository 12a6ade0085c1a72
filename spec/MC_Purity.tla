-------------------------------- MODULE MC_Purity -------------------------------
(***************************************************************************)
(* A heap.  A call reads its argument's cell, works in place in a working  *)
(* cell and returns a cell.  How it gets these is its discipline:          *)
(*   "copy"   works in a fresh copy of its argument and returns it         *)
(*   "fresh"  computes into a fresh cell without working in place          *)
(*   "alias"  works in its argument's own cell               (forbidden)   *)
(*   "keep"   copies, but works in and returns the same scratch cell every *)
(*            time, so that a later call changes an earlier result         *)
(*            (forbidden)                                                  *)
(* All histories of D calls on the start point and earlier results.        *)
(* Checked: histories of the allowed disciplines satisfy Purity; every     *)
(* clause that fails is due to a forbidden one, and each forbidden one     *)
(* fails in some history (the reachable states are counted in c19).        *)
(* GEN: the shapes of the histories, replayed with real operations.        *)
(***************************************************************************)
EXTENDS Purity, TLC, Json, FiniteSets
CONSTANTS D, Disciplines
VARIABLES heap, names, st, hist, verdict

\* cell 1 is the start point, cell 2 the scratch cell of "keep"
Init == /\ heap = <<10, 0>> /\ names = <<1>> /\ hist = <<>> /\ verdict = ""
        /\ st = PureAfter(PureStart, [k |-> "hold", new |-> <<[h |-> 0, v |-> 10]>>])

Work(v, d) == v + 1     \* deterministic
Snapshot(hp, ns) == [k \in DOMAIN ns |-> [h |-> k - 1, v |-> hp[ns[k]]]]
Call(k, d) ==
  LET cell == names[k]
      hp == CASE d \in {"copy", "fresh"} -> Append(heap, Work(heap[cell], d))
              [] d = "alias" -> [heap EXCEPT ![cell] = Work(@, d)]
              [] d = "keep"  -> [heap EXCEPT ![2] = Work(heap[cell], d)]
      res == CASE d \in {"copy", "fresh"} -> Len(hp) [] d = "alias" -> cell [] d = "keep" -> 2
      ns == Append(names, res)
      ev == [k |-> "call", op |-> d, arg |-> k - 1, new |-> <<Len(ns) - 1>>, after |-> Snapshot(hp, ns),
             shared |-> res = 1,
             res |-> << <<R(hp[res], 1)>> >>]
  IN /\ heap' = hp /\ names' = ns
     /\ verdict' = PureClause(st, ev)
     /\ st' = PureAfter(st, ev)
     /\ hist' = Append(hist, [arg |-> k - 1, d |-> d])
Next == Len(hist) < D /\ verdict = "" /\ \E k \in DOMAIN names, d \in Disciplines : Call(k, d)
Spec == Init /\ [][Next]_<<heap, names, st, hist, verdict>>

Allowed(d) == d \in {"copy", "fresh"}
Sound == verdict # "" => \E k \in DOMAIN hist : ~Allowed(hist[k].d)
\* an alias is noticed at once; a kept cell at the latest when it is used again
Complete == /\ (hist # <<>> /\ hist[Len(hist)].d = "alias") => verdict # ""
            /\ Cardinality({k \in DOMAIN hist : hist[k].d = "keep"}) >= 2 =>
                 (verdict # "" \/ \A j, k \in DOMAIN hist : (hist[j].d = "keep" /\ hist[k].d = "keep") => st.held[j + 1].v = st.held[k + 1].v)
Gen == (Len(hist) = D /\ Disciplines = {"copy"}) => PrintT(<<"GEN", ToJson([k \in DOMAIN hist |-> hist[k].arg])>>)
================================================================================
