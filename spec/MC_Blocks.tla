-------------------------------- MODULE MC_Blocks --------------------------------
(***************************************************************************)
(* Block structures at design level: every partition of n features into    *)
(* consecutive runs and every list of touched blocks.  Applying the block  *)
(* operator to the listed blocks satisfies Clauses_BlockProx and equals,   *)
(* when all blocks are listed with weight one, the full proximal operator; *)
(* with weights it is a proximal step in the weighted metric.              *)
(***************************************************************************)
EXTENDS Blocks, TLC, Json
CONSTANTS NF, K
VARIABLES x, cuts, listed, wt
Cuts == SUBSET (1..(NF - 1))
SortedSeq(s) == SetToSortSeq(s, <)
IndptrOf(c) == <<0>> \o SortedSeq(c) \o <<NF>>
Init == /\ cuts \in Cuts
        /\ x \in [1..NF -> {R(i, 1) : i \in (0 - K)..K}]
        /\ listed \in SUBSET (0..Cardinality(cuts))
        /\ wt \in [0..Cardinality(cuts) -> {One, R(3, 2)}]
Next == UNCHANGED <<x, cuts, listed, wt>>
Spec == Init /\ [][Next]_<<x, cuts, listed, wt>>

ip == IndptrOf(cuts)
groups == [h \in 1..NBlocks(ip) |-> Feats(ip, h - 1)]
L1P == [t |-> "l1", a |-> One]
GrP == [t |-> "group", a |-> One, g |-> groups]
Shrink(v, lam) == RSub(RMax(RSub(v, lam), Zero), RMax(RSub(RNeg(v), lam), Zero))
GShrink(v, lam) == LET nn == SqrtLo(Norm2Sq(v)) IN
  IF RLt(lam, nn) THEN VScale(RSub(One, RDiv(lam, nn)), v) ELSE VZero(Len(v))
blk(p) == BlockOf(ip, p - 1)
ApplyL1(step) == [p \in 1..NF |-> IF blk(p) \in listed THEN Shrink(x[p], RMul(step, wt[blk(p)])) ELSE x[p]]
ApplyGr(step) == [p \in 1..NF |->
   IF blk(p) \in listed
   THEN GShrink(VPick(x, groups[blk(p) + 1]), RMul(step, wt[blk(p)]))[p - ip[blk(p) + 1]]
   ELSE x[p]]
D == [h \in 1..NBlocks(ip) |-> wt[h - 1]]
Ev(P, out) == [P |-> P, indptr |-> ip, listed |-> SortedSeq(listed), d |-> D, step |-> Half,
               xpre |-> x, xpost |-> out, tol |-> Eps(12)]
Partition == PartitionOk(ip, NF) /\ \A p \in 1..NF : \E k \in DOMAIN groups[blk(p) + 1] : groups[blk(p) + 1][k] = p
BlockL1 == Clauses_BlockProx(Ev(L1P, ApplyL1(Half))) = ""
BlockGr == Clauses_BlockProx(Ev(GrP, ApplyGr(Half))) = "" /\ Separable(GrP, ip, NF)
FullEqualsBlocks ==
  listed = 0..Cardinality(cuts) /\ (\A h \in DOMAIN wt : wt[h] = One) =>
    IsProx(GrP, Half, x, ApplyGr(Half), [ok |-> FALSE], [ok |-> FALSE], Eps(12))
\* changing an unlisted block is noticed
OtherBlocks == \A p \in 1..NF : blk(p) \notin listed =>
    Clauses_BlockProx(Ev(L1P, [ApplyL1(Half) EXCEPT ![p] = RAdd(@, One)])) = "block-prox-touches-other-blocks"
Gen == (\A h \in DOMAIN wt : wt[h] = IF h % 2 = 0 THEN One ELSE R(3, 2)) =>
       PrintT(<<"GEN", ToJson([x |-> x, indptr |-> ip, listed |-> SortedSeq(listed), d |-> D])>>)
================================================================================
