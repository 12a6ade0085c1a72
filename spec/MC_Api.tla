--------------------------------- MODULE MC_Api ---------------------------------
(***************************************************************************)
(* Every combination of option classes of every entry point, and a user    *)
(* who corrects one faulty option after the other.                         *)
(* Checked: a repair removes the repaired fault and adds none but the      *)
(* missing Lipschitz constant that a repaired step may ask for; the user   *)
(* arrives at an accepted call that differs from the first one only in     *)
(* faulty options; the clauses accept the specified outcome and refuse the *)
(* opposite one; a forward difference is the gradient of a quadratic plus  *)
(* half the step times the diagonal.                                       *)
(***************************************************************************)
EXTENDS Api, TLC, Json
CONSTANTS Feats, GLen, NGroups, NB, GenOn
VARIABLES c, first, steps, repaired

Steps5 == {"backtracking", "DR", "sublinear", "callable", "other"}
AllJacs == Jacs \cup {"other", "zero"}
Bs == {R(-1, 2), R(0, 1), R(1, 3), R(1, 1), R(3, 2)}
Seqs(S, lo, hi) == UNION {[1..m -> S] : m \in lo..hi}
Small(fn) ==
  CASE fn = "fw" -> [fn : {fn}, tol : {"neg", "zero", "pos"}, variant : {"vanilla", "pairwise", "other"}, step : Steps5,
                     lip : BOOLEAN, jac : AllJacs, at : {"optimal", "away"}]
    [] fn = "pg" -> [fn : {fn}, step : {"backtracking", "callable", "other"}, acc : BOOLEAN, jac : AllJacs,
                     ls : {-1, 0, 1, 50}]
    [] fn = "ts" -> [fn : {fn}, ls : {-1, 0, 1, 50}, search : BOOLEAN, step : {"none", "given"}]
    [] fn = "pd" -> [fn : {fn}, ls : {-1, 0, 1, 20}, search : BOOLEAN]
    [] fn = "sfw" -> [fn : {fn}, variant : {"SAG", "SAGA", "MHK", "LF", "other"}, lmo : {"vanilla", "pairwise", "other"},
                      step : {"sublinear", "DR", "callable", "other"}, lip : BOOLEAN, batch : {1, 2}]
    [] fn \in {"saga", "svrg"} -> [fn : {fn}, step : {"none", "pos"}]
    [] fn = "vrtos" -> [fn : {fn}, step : {"none", "neg", "zero", "pos"}, rows : {"same", "short"}]
    [] fn = "logloss" -> [fn : {fn}, rows : {0, 1, 2, 3}, b : Seqs(Bs, 1, NB)]
    [] fn = "groups" -> [fn : {fn}, groups : Seqs(Seqs(0..Feats, 1, GLen), 1, NGroups)]
    [] fn \in {"simplex", "l1ball"} -> [fn : {fn}, radius : {R(-1, 1), R(0, 1), R(1, 2), R(2, 1)}, ndim : {1, 2}]
    [] fn \in {"traceball", "tracenorm"} -> [fn : {fn}, dims : {1, 2, 3}]
    [] fn = "tracefactory" -> [fn : {fn}]
    [] fn = "tv1d" -> [fn : {fn}, dtype : {"float32", "float64", "int64", "int32", "bool", "object", "complex128"}]
    [] fn = "split" -> [fn : {fn}, subset : {"train", "test", "full", "valid", "", "Train"}]
Fns == {"fw", "pg", "ts", "pd", "sfw", "saga", "svrg", "vrtos", "logloss", "groups", "simplex", "l1ball", "traceball",
        "tracenorm", "tracefactory", "tv1d", "split"}

Init == /\ \E fn \in Fns : c \in Small(fn)
        /\ first = c /\ steps = 0 /\ repaired = {}

Repair(o) ==
  CASE o = "tol" -> [c EXCEPT !.tol = "zero"]
    [] o = "variant" -> [c EXCEPT !.variant = IF c.fn = "fw" THEN "pairwise" ELSE "LF"]
    [] o = "step" -> [c EXCEPT !.step = IF c.fn \in {"fw", "sfw"} THEN "DR" ELSE IF c.fn = "vrtos" THEN "pos" ELSE "callable"]
    [] o = "lip" -> [c EXCEPT !.lip = TRUE]
    [] o = "jac" -> [c EXCEPT !.jac = "none"]
    [] o = "ls" -> [c EXCEPT !.ls = 1]
    [] o = "lmo" -> [c EXCEPT !.lmo = "vanilla"]
    [] o = "rows" -> [c EXCEPT !.rows = IF c.fn = "vrtos" THEN "same" ELSE Len(c.b)]
    [] o = "b" -> [c EXCEPT !.b = [i \in DOMAIN c.b |-> RMax(Zero, RMin(One, c.b[i]))]]
    [] o = "groups" -> [c EXCEPT !.groups = <<c.groups[1][1] .. c.groups[1][1]>>]
    [] o = "radius" -> [c EXCEPT !.radius = One]
    [] o = "ndim" -> [c EXCEPT !.ndim = 1]
    [] o = "dims" -> [c EXCEPT !.dims = 2]
    [] o = "dtype" -> [c EXCEPT !.dtype = "float64"]
    [] o = "subset" -> [c EXCEPT !.subset = "full"]
    [] o = "fn" -> [c EXCEPT !.fn = "none"]
Next == \E o \in Faults(c) \ {"groups", "fn"} :
          /\ c' = Repair(o) /\ steps' = steps + 1 /\ repaired' = repaired \cup {o}
          /\ UNCHANGED first
Spec == Init /\ [][Next]_<<c, first, steps, repaired>>

Shrinking == [][Faults(c') \subseteq (Faults(c) \cup {"lip"}) /\ Cardinality(repaired') = steps']_<<c, steps>>
OnlyFaults == /\ steps <= Cardinality(Faults(first) \cup {"lip"})
              /\ \A o \in DOMAIN c : (o # "fn" /\ o \notin repaired) => c[o] = first[o]
              /\ repaired \subseteq Faults(first) \cup {"lip"}
Judged == /\ Clauses_Api([c |-> c, out |-> IF Accepts(c) THEN "returned" ELSE "raised"]) = ""
          /\ Clauses_Api([c |-> c, out |-> IF Accepts(c) THEN "raised" ELSE "returned"]) # ""
H0 == <<<<R(2, 1), R(1, 2)>>, <<R(1, 2), R(3, 1)>>>>
ForwardIs == c = first /\ c.fn = "pd" =>
  \A a, b \in {-2, 0, 1}, e \in {1, 3} :
    Forward(H0, <<R(a, 1), One>>, <<R(b, 2), R(a, 1)>>, <<R(e, 8), R(1, 4)>>) =
    VAdd(QuadGrad(H0, <<R(a, 1), One>>, <<R(b, 2), R(a, 1)>>), <<RMul(R(e, 16), R(2, 1)), RMul(R(1, 8), R(3, 1))>>)
Gen == (GenOn /\ steps = 0) => PrintT(<<"GEN", ToJson([c |-> c])>>)
================================================================================
