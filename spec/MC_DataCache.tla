------------------------------ MODULE MC_DataCache ------------------------------
(***************************************************************************)
(* A loader, step by step: look for the files it needs, download the       *)
(* archive, write one file after the other, read.  The process can be      *)
(* stopped between any two steps and in the middle of a write.             *)
(*                                                                         *)
(* Ways of writing and looking:                                            *)
(*   "atomic"    a file gets its name when it is complete; all are needed  *)
(*   "inplace"   a file is written under its own name        (forbidden)   *)
(*   "first"     only the first file of a split is looked for (forbidden)  *)
(*   "train"     the test files are never looked for          (forbidden)  *)
(*   "always"    downloads whatever there is                  (forbidden)  *)
(* Checked on all histories of D loads and interruptions: the clauses hold *)
(* of "atomic", names never stand for part of a file, and every other way  *)
(* fails a clause in the next load whenever the folder is in a state that  *)
(* it mistakes.                                                            *)
(***************************************************************************)
EXTENDS DataCache, TLC, Json
CONSTANTS D, Ways
VARIABLES way, disk, proc, st, hist, verdict

Files == <<"a", "b", "c", "d">>                 \* train: a, b; test: c, d
Of(sub) == CASE sub = "train" -> {1, 2} [] OTHER -> 1..4
Cfg == [train |-> <<"a", "b">>, test |-> <<"c", "d">>, widths |-> <<1, 2>>, splits |-> <<"train", "test", "full">>]
Subs == {"train", "test", "full"}
Idle == [sub |-> "none", at |-> 0]

\* at: 0 not yet looked, 1 looked and missing, 2 downloaded, 2k + 1 writing file k, 2k + 2 wrote it, 11 to read
Init == /\ way \in Ways /\ disk = [f \in 1..4 |-> "no"] /\ proc = Idle /\ st = CacheStart /\ hist = <<>> /\ verdict = ""
Looks(sub) == CASE way = "first" -> IF sub = "train" THEN {1} ELSE {1, 3}
                [] way = "train" -> {1, 2}
                [] OTHER -> Of(sub)
Missing(sub) == way = "always" \/ \E f \in Looks(sub) : disk[f] = "no"
Rows(sub) == LET fs == CASE sub = "train" -> <<1, 2>> [] sub = "test" -> <<3, 4>> [] OTHER -> <<1, 2, 3, 4>>
             IN [k \in DOMAIN fs |-> CASE disk[fs[k]] = "ok" -> Files[fs[k]] [] OTHER -> "?"]
Readable(sub) == \A f \in Of(sub) : disk[f] # "no"
Width(sub) == IF sub = "train" THEN 1 ELSE 2

Begin(sub) == /\ proc = Idle /\ Len(hist) < D
              /\ proc' = [sub |-> sub, at |-> 0, got |-> 0]
              /\ UNCHANGED <<way, disk, st, hist, verdict>>
Look == /\ proc # Idle /\ proc.at = 0
        /\ proc' = [proc EXCEPT !.at = IF Missing(proc.sub) THEN 1 ELSE 11]
        /\ UNCHANGED <<way, disk, st, hist, verdict>>
Download == /\ proc # Idle /\ proc.at = 1
            /\ proc' = [proc EXCEPT !.at = 2, !.got = 1]
            /\ UNCHANGED <<way, disk, st, hist, verdict>>
Write == /\ proc # Idle /\ proc.at \in 2..10
         /\ LET f == (proc.at - 1) \div 2 IN
            disk' = IF proc.at % 2 = 1
                    THEN [disk EXCEPT ![f] = "ok"]
                    ELSE IF proc.at < 10 /\ way # "atomic" THEN [disk EXCEPT ![proc.at \div 2] = "part"] ELSE disk
         /\ proc' = [proc EXCEPT !.at = @ + 1]
         /\ UNCHANGED <<way, st, hist, verdict>>
Return == /\ proc # Idle /\ proc.at = 11
          /\ LET ev == [k |-> "load", subset |-> proc.sub, done |-> Readable(proc.sub),
                        rows |-> Rows(proc.sub), width |-> Width(proc.sub), downloads |-> proc.got, allowed |-> 1]
             IN /\ verdict' = CacheClause(Cfg, st, ev) /\ st' = CacheAfter(Cfg, st, ev)
          /\ proc' = Idle /\ hist' = Append(hist, [op |-> "load", sub |-> proc.sub, at |-> 0])
          /\ UNCHANGED <<way, disk>>
Stop == /\ proc # Idle
        /\ st' = CacheAfter(Cfg, st, [k |-> "stop", done |-> FALSE]) /\ verdict' = verdict
        /\ hist' = Append(hist, [op |-> "stop", sub |-> proc.sub, at |-> proc.at])
        /\ proc' = Idle /\ UNCHANGED <<way, disk>>
Next == verdict = "" /\ ((\E s \in Subs : Begin(s)) \/ Look \/ Download \/ Write \/ Return \/ Stop)
Spec == Init /\ [][Next]_<<way, disk, proc, st, hist, verdict>>

Sound == way = "atomic" => /\ verdict = ""
                           /\ \A f \in 1..4 : disk[f] # "part"
                           \* whatever happened, a load would now succeed
                           /\ \A s \in Subs : Missing(s) \/ (Readable(s) /\ \A k \in DOMAIN Rows(s) : Rows(s)[k] # "?")
\* what is known to be in the cache is there
Known == way # "always" => \A s \in Subs : (Covered(st, s) /\ verdict = "" /\ way = "atomic") => ~Missing(s)
Mistaken(s) == ~Missing(s) /\ \E f \in Of(s) \cap (IF s = "test" THEN {3, 4} ELSE 1..4) : disk[f] # "ok"
Complete == (proc = Idle /\ verdict = "") => \A s \in Subs : Mistaken(s) =>
  CacheClause(Cfg, st, [k |-> "load", subset |-> s, done |-> Readable(s), rows |-> Rows(s), width |-> Width(s),
                        downloads |-> 0, allowed |-> 1]) # ""
Gen == (Ways = {"atomic"} /\ proc = Idle /\ Len(hist) = D) => PrintT(<<"GEN", ToJson(hist)>>)
================================================================================
