--------------------------------- MODULE Blocks --------------------------------
(***************************************************************************)
(* Blocks of features, the blocks a sample touches, block weights, block   *)
(* proximal operators, and CSR rows.  Features, blocks and samples are     *)
(* numbered from 0, as in the code; Lo/Hi are positions in a vector.       *)
(***************************************************************************)
EXTENDS Prox

\* indptr (from the code) describes consecutive non-empty runs that cover 0..n-1
PartitionOk(indptr, n) ==
  /\ Len(indptr) >= 1
  /\ indptr[1] = 0
  /\ indptr[Len(indptr)] = n
  /\ \A k \in 1..(Len(indptr) - 1) : indptr[k] < indptr[k + 1]
NBlocks(indptr) == Len(indptr) - 1
Feats(indptr, h) == [k \in 1..(indptr[h + 2] - indptr[h + 1]) |-> indptr[h + 1] + k]   \* positions (1-based)
BlockOf(indptr, j) == CHOOSE h \in 0..(NBlocks(indptr) - 1) : indptr[h + 1] <= j /\ j < indptr[h + 2]

\* position of feature p (1-based) in the sequence fl
PosIn(fl, p) == CHOOSE k \in DOMAIN fl : fl[k] = p
RECURSIVE Sub(_, _, _)
Sub(g, fl, k) == IF k > Len(g) THEN <<>>
                 ELSE IF \E q \in DOMAIN fl : fl[q] = g[k] THEN <<PosIn(fl, g[k])>> \o Sub(g, fl, k + 1)
                 ELSE Sub(g, fl, k + 1)
\* the penalty P restricted to the features fl
PRestrict(P, fl) ==
  CASE P.t = "group" -> [P EXCEPT !.g = SelectSeq([k \in DOMAIN P.g |-> Sub(P.g[k], fl, 1)],
                                                  LAMBDA h : h # <<>>)]
    [] OTHER -> P

\* Separable over the blocks: every group lies in one block.
Separable(P, indptr, n) ==
  P.t = "group" =>
    \A k \in DOMAIN P.g : P.g[k] = <<>> \/
      LET h == BlockOf(indptr, P.g[k][1] - 1) IN
      \A i \in DOMAIN P.g[k] : indptr[h + 1] < P.g[k][i] /\ P.g[k][i] <= indptr[h + 2]

Clauses_BlockShape(ev) ==
  IF ~PartitionOk(ev.indptr, ev.n) THEN "blocks-not-a-partition"
  ELSE IF ev.indices # [k \in 1..ev.n |-> k - 1] THEN "blocks-indices"
  ELSE IF ev.shape # <<NBlocks(ev.indptr), ev.n>> THEN "blocks-shape"
  ELSE IF ~Separable(ev.P, ev.indptr, ev.n) THEN "blocks-split-a-group"
  ELSE ""

\* The two halves of the fused lasso: each pair of neighbours inside a block of exactly one half
\* (j and j + 1 are in one block iff no block starts at j + 1)
Clauses_Halves(ev) ==
  IF ~PartitionOk(ev.indptr1, ev.n) \/ ~PartitionOk(ev.indptr2, ev.n) THEN "blocks-not-a-partition"
  ELSE LET starts1 == {ev.indptr1[k] : k \in DOMAIN ev.indptr1}
           starts2 == {ev.indptr2[k] : k \in DOMAIN ev.indptr2} IN
       IF \E j \in 1..(ev.n - 1) : (j \in starts1) = (j \in starts2) THEN "halves-miss-a-pair" ELSE ""

\* One call of the block operator: xpre -> xpost for a sample that touches the blocks ev.listed
Clauses_BlockProx(ev) ==
  LET n == Len(ev.xpre)
      inb(p) == \E k \in DOMAIN ev.listed : BlockOf(ev.indptr, p - 1) = ev.listed[k]
  IN IF ~VIsNum(ev.xpost) \/ Len(ev.xpost) # n THEN "block-prox-not-a-point"
     ELSE IF \E p \in 1..n : ~inb(p) /\ ev.xpost[p] # ev.xpre[p] THEN "block-prox-touches-other-blocks"
     ELSE IF \E k \in DOMAIN ev.listed :
        LET h == ev.listed[k]
            fl == Feats(ev.indptr, h)
        IN ~IsProx(PRestrict(ev.P, fl), RMul(ev.step, ev.d[h + 1]), VPick(ev.xpre, fl), VPick(ev.xpost, fl),
                   "none", "none", ev.tol)
     THEN "block-prox-not-the-prox"
     ELSE ""

(***************************************************************************)
(* CSR rows.                                                               *)
(***************************************************************************)
\* the dense row i (0-based) of a CSR matrix with n columns; repeated indices add up
CsrRow(M, i, n) ==
  LET lo == M.indptr[i + 1]  hi == M.indptr[i + 2] IN
  [j \in 1..n |-> VSum([k \in 1..(hi - lo) |->
                        IF M.indices[lo + k] = j - 1 THEN M.data[lo + k] ELSE Zero])]
CsrRows(M, idx, n) == [k \in DOMAIN idx |-> CsrRow(M, idx[k], n)]

\* M[idx] x and y M[idx]
Clauses_CsrMv(ev) ==
  LET A == CsrRows(ev.M, ev.idx, ev.n) IN
  IF ~VIsNum(ev.out) \/ Len(ev.out) # Len(ev.idx) THEN "csr-mv-shape"
  ELSE IF ~VNearS(MatVec(A, ev.x), ev.out, ev.tol, ev.scale) THEN "csr-mv"
  ELSE ""
Clauses_CsrVm(ev) ==
  LET A == CsrRows(ev.M, ev.idx, ev.n) IN
  IF ~VIsNum(ev.out) \/ Len(ev.out) # ev.n THEN "csr-vm-shape"
  ELSE IF ~VNearS(MatTVec(A, ev.x, ev.n), ev.out, ev.tol, ev.scale) THEN "csr-vm"
  ELSE ""

\* Mixed sums keep the shape of the vectors
Clauses_SparseAdd(ev) ==
  IF ev.shape # ev.wantshape THEN "sparse-add-shape"
  ELSE IF ~VNear(VAdd(ev.a, ev.b), ev.out, Eps(14)) THEN "sparse-add-value"
  ELSE ""

\* Block weights: n_samples over the number of samples that touch the block, 1 if none does
Weight(sup, h) ==
  LET c == Cardinality({i \in DOMAIN sup : \E k \in DOMAIN sup[i] : sup[i][k] = h}) IN
  IF c = 0 THEN One ELSE R(Len(sup), c)
================================================================================
