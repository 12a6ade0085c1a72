--------------------------------- MODULE Sampling -------------------------------
(***************************************************************************)
(* Which samples a stochastic solver visits.                               *)
(*                                                                         *)
(* mode "perm" (SAGA, SVRG, VRTOS): an epoch is a permutation of the n     *)
(* samples.  mode "batch" (stochastic Frank-Wolfe): an epoch is floor(n/b) *)
(* batches of b distinct samples, or n single samples when b = 1.          *)
(* Epochs are drawn independently and uniformly, so over enough of them    *)
(* all orders, and all pairs of consecutive orders, occur and their        *)
(* frequencies are even.                                                   *)
(*                                                                         *)
(* Configuration: mode, n, b, epochs (in the run; 0 if unknown), cover     *)
(* (whether the run is long enough to demand coverage).                    *)
(* Events: "epoch" (order: the samples in the order of their visits, or    *)
(* the batches as sequences), "total" (all batches of a run of Frank-      *)
(* Wolfe), "end".                                                          *)
(* State: the orders seen with their numbers, the pairs seen, the last.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Samples0(n) == 0..(n - 1)
IsPermutation(o, n) == Len(o) = n /\ {o[k] : k \in DOMAIN o} = Samples0(n)
IsBatch(B, n, b) == Len(B) = b /\ Cardinality({B[k] : k \in DOMAIN B}) = b /\ {B[k] : k \in DOMAIN B} \subseteq Samples0(n)
NumBatches(n, b) == IF b = 1 THEN n ELSE n \div b
AsSet(B) == {B[k] : k \in DOMAIN B}

RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN 1 ELSE n * Fact(n - 1)
RECURSIVE Power(_, _)
Power(a, k) == IF k = 0 THEN 1 ELSE a * Power(a, k - 1)
Choose(n, k) == Fact(n) \div (Fact(k) * Fact(n - k))

\* number of different epochs
NumOrders(cfg) == IF cfg.mode = "perm" THEN Fact(cfg.n) ELSE Power(Choose(cfg.n, cfg.b), NumBatches(cfg.n, cfg.b))

SampStart == [orders |-> {}, pairs |-> {}, count |-> <<>>, last |-> <<>>, k |-> 0]
\* what is drawn: the order, or the sets of the batches
Drawn(cfg, ev) == IF cfg.mode = "perm" THEN ev.order ELSE [k \in DOMAIN ev.order |-> AsSet(ev.order[k])]

Repeats(o) == Cardinality({o[k] : k \in DOMAIN o}) < Len(o)
SampEpoch(cfg, st, ev) ==
  IF cfg.big /\ Drawn(cfg, ev) \in st.orders THEN "sampling-reuses-an-order"
  ELSE IF cfg.mode = "perm" THEN
    IF \E k \in DOMAIN ev.order : ev.order[k] \notin Samples0(cfg.n) THEN "sampling-not-a-sample"
    ELSE IF Repeats(ev.order) THEN "sampling-repeats-a-sample"
    ELSE IF ~IsPermutation(ev.order, cfg.n) THEN "sampling-misses-a-sample"
    ELSE ""
  ELSE IF \E k \in DOMAIN ev.order : ~IsBatch(ev.order[k], cfg.n, cfg.b) THEN "sampling-batch"
  ELSE IF Len(ev.order) # NumBatches(cfg.n, cfg.b) THEN "sampling-number-of-batches"
  ELSE ""

SampTotal(cfg, ev) ==
  IF ev.steps # cfg.epochs * NumBatches(cfg.n, cfg.b) THEN "sampling-number-of-batches" ELSE ""

\* every count within a factor of two of its expectation (with at least 100 expected, a uniform draw
\* misses that with probability below 10^-12)
Even(cfg, st) == \A o \in st.orders :
  /\ 2 * st.count[o] * NumOrders(cfg) > st.k
  /\ st.count[o] * NumOrders(cfg) < 2 * st.k
\* with many samples: each comes in every place (missed with probability below 10^-12 after 700 epochs of 17)
Places(cfg, st) == \A p \in 1..cfg.n : {o[p] : o \in st.orders} = Samples0(cfg.n)
SampEnd(cfg, st) ==
  IF cfg.big THEN IF cfg.mode = "perm" /\ st.k >= 40 * cfg.n /\ ~Places(cfg, st) THEN "sampling-order-never-drawn" ELSE ""
  ELSE IF ~cfg.cover THEN IF cfg.mode = "perm" /\ cfg.epochs # 0 /\ st.k # cfg.epochs THEN "sampling-number-of-epochs" ELSE ""
  ELSE IF Cardinality(st.orders) # NumOrders(cfg) THEN "sampling-order-never-drawn"
  ELSE IF st.k >= 200 * NumOrders(cfg) /\ ~Even(cfg, st) THEN "sampling-not-uniform"
  ELSE IF st.k >= 30 * NumOrders(cfg) * NumOrders(cfg) /\ Cardinality(st.pairs) # NumOrders(cfg) * NumOrders(cfg)
       THEN "sampling-depends-on-the-last-epoch"
  ELSE ""

SampClause(cfg, st, ev) ==
  CASE ev.k = "epoch" -> SampEpoch(cfg, st, ev)
    [] ev.k = "total" -> SampTotal(cfg, ev)
    [] ev.k = "end"   -> SampEnd(cfg, st)
SampAfter(cfg, st, ev) ==
  IF ev.k # "epoch" \/ ~(cfg.cover \/ cfg.big) THEN [st EXCEPT !.k = @ + IF ev.k = "epoch" THEN 1 ELSE 0]
  ELSE LET o == Drawn(cfg, ev) IN
       IF cfg.big THEN [st EXCEPT !.orders = @ \cup {o}, !.k = @ + 1]
       ELSE
       [orders |-> st.orders \cup {o},
        pairs |-> IF st.k = 0 THEN {} ELSE st.pairs \cup {<<st.last, o>>},
        count |-> [q \in st.orders \cup {o} |-> (IF q \in st.orders THEN st.count[q] ELSE 0) + (IF q = o THEN 1 ELSE 0)],
        last |-> o, k |-> st.k + 1]

\* sample_batches(n, number, b): the flat list of the batches
Clauses_SampleBatches(ev) ==
  IF Len(ev.idx) # ev.number * ev.b THEN "sampling-number-of-batches"
  ELSE IF \E k \in 1..ev.number : ~IsBatch(SubSeq(ev.idx, (k - 1) * ev.b + 1, k * ev.b), ev.n, ev.b) THEN "sampling-batch"
  ELSE ""
================================================================================
