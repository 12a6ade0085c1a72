---------------------------------- MODULE MC_Tv ----------------------------------
\* Every signal of length 1..L with entries 0..K; GEN lines: signal, strength and solution for the code.
EXTENDS Tv, TLC, Json
CONSTANTS L, K, Lams
AllSignals == {<<s, m>> : s \in UNION {[1..n -> {R(a, 1) : a \in 0..K}] : n \in 1..L}, m \in Lams}
LamSet == {R(1, 2), R(1, 3), One, R(5, 2)}
Gen == Done => PrintT(<<"GEN", ToJson([w |-> w, lam |-> lam, x |-> x])>>)
================================================================================
