--------------------------------- MODULE MC_Csr ---------------------------------
(***************************************************************************)
(* The sparse row kernels as loops over stored entries, on every CSR       *)
(* layout of small matrices (rows in any order of entries, entries split   *)
(* in two, stored zeros) and every selection of rows (repeated, unordered, *)
(* empty).                                                                 *)
(*                                                                         *)
(* Checked: the loops add up to the products with the dense rows that the  *)
(* layout denotes (so layouts of one matrix agree); at every step what is  *)
(* missing is what the remaining entries contribute; the clauses accept    *)
(* the result and refuse those of wrong loops when these differ.           *)
(***************************************************************************)
EXTENDS Blocks, TLC, Json
CONSTANTS Cols, MaxRow, MaxIdx, GenOn
VARIABLES M, idx, i, j, mv, vm, wrong

Layouts == UNION {[1..m -> 0..(Cols - 1)] : m \in 0..MaxRow}      \* column of each stored entry
Sels == UNION {[1..m -> 0..1] : m \in 0..MaxIdx}
X == [c \in 1..Cols |-> R(3 * c - 4, 2)]
Y(k) == [p \in 1..k |-> R(2 * p - 5, 1)]
Val(k) == IF k = 3 THEN Zero ELSE R(k * k - 2, 1)              \* one of the entries is a stored zero

Init == \E a, b \in Layouts, s \in Sels :
   /\ M = [indptr |-> <<0, Len(a), Len(a) + Len(b)>>, indices |-> a \o b,
           data |-> [k \in 1..(Len(a) + Len(b)) |-> Val(k)]]
   /\ idx = s /\ i = 1 /\ j = 0
   /\ mv = VZero(Len(s)) /\ vm = VZero(Cols) /\ wrong = VZero(Len(s))
Row == idx[i]
Stored == M.indptr[Row + 2] - M.indptr[Row + 1]
Done == i > Len(idx)
Entry == LET e == M.indptr[Row + 1] + j + 1
             c == M.indices[e] + 1
         IN /\ mv' = [mv EXCEPT ![i] = RAdd(@, RMul(M.data[e], X[c]))]
            /\ vm' = [vm EXCEPT ![c] = RAdd(@, RMul(M.data[e], Y(Len(idx))[i]))]
            /\ wrong' = [wrong EXCEPT ![i] = RMul(M.data[e], X[c])]       \* forgets to accumulate
            /\ j' = j + 1 /\ UNCHANGED <<M, idx, i>>
NextRow == i' = i + 1 /\ j' = 0 /\ UNCHANGED <<M, idx, mv, vm, wrong>>
Next == ~Done /\ IF j < Stored THEN Entry ELSE NextRow
Spec == Init /\ [][Next]_<<M, idx, i, j, mv, vm, wrong>>

Ev(k, out) == [k |-> k, M |-> M, idx |-> idx, n |-> Cols, x |-> IF k = "csrmv" THEN X ELSE Y(Len(idx)), out |-> out,
               tol |-> Zero, scale |-> One]
\* rows already finished are right
Finished == \A p \in 1..(i - 1) : mv[p] = Dot(CsrRow(M, idx[p], Cols), X)
Final == Done => /\ Clauses_CsrMv(Ev("csrmv", mv)) = ""
                 /\ Clauses_CsrVm(Ev("csrvm", vm)) = ""
                 /\ (wrong # mv) => Clauses_CsrMv(Ev("csrmv", wrong)) # ""
                 /\ idx # <<>> => Clauses_CsrMv(Ev("csrmv", [mv EXCEPT ![1] = RAdd(@, One)])) # ""
Gen == (GenOn /\ Done) => PrintT(<<"GEN", ToJson([M |-> M, idx |-> idx])>>)
================================================================================
