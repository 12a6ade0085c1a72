------------------------------- MODULE MC_Sampling ------------------------------
(***************************************************************************)
(* How the draws are made: a permutation shuffled in place by exchanges    *)
(* (kept from epoch to epoch), and batches taken as the first b entries    *)
(* of a fresh shuffle.  One behaviour per sequence of random choices, so   *)
(* that counting behaviours counts probabilities: after an epoch, every    *)
(* permutation is reached from every earlier one by the same number of     *)
(* choice sequences.  Checked: every epoch is one Sampling allows; the     *)
(* shuffle is a bijection between choice sequences and permutations; the   *)
(* clauses reject repeated, missing and foreign samples.                   *)
(* GEN: the number of batches of every (n, b), replayed into the code.     *)
(***************************************************************************)
EXTENDS Sampling, TLC, Json
CONSTANTS N, Epochs
VARIABLES idx, pos, epoch, picks, before

Ident == [k \in 1..N |-> k - 1]
Init == idx = Ident /\ pos = N /\ epoch = 0 /\ picks = <<>> /\ before = Ident
\* exchange position pos with any position up to it
Exchange == /\ epoch < Epochs /\ pos > 1
            /\ \E j \in 1..pos :
                 /\ idx' = [idx EXCEPT ![pos] = idx[j], ![j] = idx[pos]]
                 /\ picks' = Append(picks, j)
            /\ pos' = pos - 1 /\ UNCHANGED <<epoch, before>>
EpochEnd == /\ epoch < Epochs /\ pos <= 1
            /\ epoch' = epoch + 1 /\ pos' = N /\ picks' = <<>> /\ before' = idx /\ UNCHANGED idx
Spec == Init /\ [][Exchange \/ EpochEnd]_<<idx, pos, epoch, picks, before>>

\* the permutation a sequence of choices turns o into
RECURSIVE Play(_, _)
Play(o, ps) == IF ps = <<>> THEN o
  ELSE LET at == Len(ps) + 1   \* position of the first remaining exchange
       IN Play([o EXCEPT ![at] = o[ps[1]], ![ps[1]] = o[at]], Tail(ps))
PickSeqs == {f \in [1..(N - 1) -> 1..N] : \A k \in 1..(N - 1) : f[k] <= N - k + 1}
ASSUME \A o \in {Ident, [k \in 1..N |-> N - k]} :
         Cardinality({Play(o, f) : f \in PickSeqs}) = Fact(N) /\ Cardinality(PickSeqs) = Fact(N)

Cfg == [mode |-> "perm", n |-> N, b |-> 1, epochs |-> 0, cover |-> FALSE, big |-> FALSE]
Allowed == pos <= 1 => SampEpoch(Cfg, SampStart, [k |-> "epoch", order |-> idx]) = ""
\* the first b entries of a finished shuffle are a batch
Batch == pos <= 1 => \A b \in 1..N : IsBatch(SubSeq(idx, 1, b), N, b)
Sharp == pos <= 1 =>
  /\ \A k \in 1..N : \A v \in -1..N : v # idx[k] => SampEpoch(Cfg, SampStart, [k |-> "epoch", order |-> [idx EXCEPT ![k] = v]]) # ""
  /\ SampEpoch(Cfg, SampStart, [k |-> "epoch", order |-> Tail(idx)]) # ""
  /\ SampEpoch(Cfg, SampStart, [k |-> "epoch", order |-> Append(idx, 0)]) # ""
ASSUME \A n \in 1..7 : \A b \in 1..(n + 1) :
         /\ b > 1 => NumBatches(n, b) * b <= n /\ (NumBatches(n, b) + 1) * b > n
         /\ PrintT(<<"GEN", ToJson([n |-> n, b |-> b, batches |-> NumBatches(n, b)])>>)
================================================================================
