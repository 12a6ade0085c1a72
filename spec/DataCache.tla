-------------------------------- MODULE DataCache -------------------------------
(***************************************************************************)
(* The data-set cache as its user sees it.  cfg: train, test (the samples  *)
(* of the two splits, in order), width, splits (the subsets the loader     *)
(* knows).                                                                 *)
(*                                                                         *)
(* State: have - which splits are certainly in the cache.                  *)
(* Events: "load" (subset, done - it returned, rows, width, downloads),    *)
(* "stop" (a load interrupted at some point), "bad" (a load during which   *)
(* the network failed: it may raise), "lose" (the user removed the cache). *)
(***************************************************************************)
EXTENDS Integers, Sequences

CacheStart == [have |-> "none"]

Wanted(cfg, sub) == CASE sub = "train" -> cfg.train
                      [] sub = "test"  -> cfg.test
                      [] sub = "full"  -> cfg.train \o cfg.test
Covered(st, sub) == st.have = "all" \/ (st.have = "train" /\ sub = "train")

Right(cfg, ev) ==
  IF Len(ev.rows) < Len(Wanted(cfg, ev.subset)) THEN "cache-partial-data-set"
  ELSE IF ev.rows # Wanted(cfg, ev.subset) THEN "cache-wrong-samples"
  ELSE IF ev.width # (CASE ev.subset = "train" -> cfg.widths[1] [] ev.subset = "test" -> cfg.widths[2]
                        [] OTHER -> IF cfg.widths[1] < cfg.widths[2] THEN cfg.widths[2] ELSE cfg.widths[1])
       THEN "cache-wrong-number-of-features"
  ELSE ""

LoadClause(cfg, st, ev) ==
  IF ev.subset \notin {cfg.splits[k] : k \in DOMAIN cfg.splits}
  THEN IF ev.done THEN "cache-accepts-unknown-split" ELSE ""
  ELSE IF ~ev.done THEN "cache-load-fails"
  ELSE IF Right(cfg, ev) # "" THEN Right(cfg, ev)
  ELSE IF Covered(st, ev.subset) /\ ev.downloads > 0 THEN "cache-downloads-again"
  ELSE IF ev.downloads > ev.allowed THEN "cache-downloads-too-often"
  ELSE ""
CacheClause(cfg, st, ev) ==
  CASE ev.k = "load" -> LoadClause(cfg, st, ev)
    [] ev.k \in {"bad", "stop"} -> IF ev.done THEN Right(cfg, ev) ELSE ""
    [] OTHER -> ""
Gain(st, ev) == IF ev.downloads > 0 \/ ev.subset # "train" \/ st.have = "all" THEN "all" ELSE "train"
CacheAfter(cfg, st, ev) ==
  IF ev.k = "lose" THEN CacheStart
  ELSE IF ev.k \in {"load", "bad", "stop"} /\ ev.done /\ ev.subset \in {"train", "test", "full"}
       THEN [have |-> Gain(st, ev)]
  ELSE st
================================================================================
