----------------------------------- MODULE Api -----------------------------------
(***************************************************************************)
(* What the entry points accept.  A call is described by the function fn   *)
(* and the class of each option; Faults(c) is the set of options that are  *)
(* outside what is documented, and the call is to raise exactly if there   *)
(* is one.  The options:                                                   *)
(*  fw    minimize_frank_wolfe: tol, variant, step, lip (a Lipschitz       *)
(*        constant is given), jac, at (starts at the minimizer or away)    *)
(*  pg    minimize_proximal_gradient: step, acc, jac, ls (line searches)   *)
(*  ts    minimize_three_split: ls, search, step                           *)
(*  pd    minimize_primal_dual: ls, search                                 *)
(*  sfw   minimize_sfw: variant, lmo, step, lip, batch                     *)
(*  saga, svrg, vrtos: step, and for vrtos rows (as many targets as rows)  *)
(*  logloss  LogLoss: rows (0: no matrix given), b                         *)
(*  groups   GroupL1: groups                                               *)
(*  simplex, l1ball  the projections: radius, ndim                         *)
(*  traceball, tracenorm: dims (length of shape)                           *)
(*  tracefactory  TraceNorm.prox_factory / TraceBall.prox_factory          *)
(*  tv1d  prox_tv1d: dtype                                                 *)
(*  split the loaders of data sets: subset                                 *)
(***************************************************************************)
EXTENDS Vec

Jacs == {"callable", "joint", "none", "false", "2-point"}
OutOf(name, v, ok) == IF v \in ok THEN {} ELSE {name}
If(name, bad) == IF bad THEN {name} ELSE {}

Contiguous(g) == \A i \in 1..(Len(g) - 1) : g[i + 1] = g[i] + 1
GroupsOk(gs) == /\ \A i \in DOMAIN gs : Contiguous(gs[i])
                /\ \A i \in 1..(Len(gs) - 1) : gs[i][Len(gs[i])] < gs[i + 1][1]

Faults(c) ==
  CASE c.fn = "fw" ->
         OutOf("tol", c.tol, {"zero", "pos"}) \cup OutOf("variant", c.variant, {"vanilla", "pairwise"})
         \cup OutOf("step", c.step, {"backtracking", "DR", "sublinear", "callable"})
         \cup If("lip", c.step = "DR" /\ ~c.lip) \cup OutOf("jac", c.jac, Jacs)
    [] c.fn = "pg" ->
         OutOf("step", c.step, {"backtracking", "callable"}) \cup OutOf("jac", c.jac, Jacs) \cup If("ls", c.ls <= 0)
    [] c.fn \in {"ts", "pd"} -> If("ls", c.ls <= 0)
    [] c.fn = "sfw" ->
         OutOf("variant", c.variant, {"SAG", "SAGA", "MHK", "LF"}) \cup OutOf("lmo", c.lmo, {"vanilla", "pairwise"})
         \cup OutOf("step", c.step, {"sublinear", "DR", "callable"}) \cup If("lip", c.step = "DR" /\ ~c.lip)
    [] c.fn \in {"saga", "svrg"} -> {}
    [] c.fn = "vrtos" -> If("step", c.step = "neg") \cup If("rows", c.rows # "same")
    [] c.fn = "logloss" ->
         If("b", \E i \in DOMAIN c.b : RLt(c.b[i], Zero) \/ RLt(One, c.b[i])) \cup If("rows", c.rows # 0 /\ c.rows # Len(c.b))
    [] c.fn = "groups" -> If("groups", ~GroupsOk(c.groups))
    [] c.fn \in {"simplex", "l1ball"} -> If("radius", RLe(c.radius, Zero)) \cup If("ndim", c.ndim # 1)
    [] c.fn \in {"traceball", "tracenorm"} -> If("dims", c.dims # 2)
    [] c.fn = "tracefactory" -> {"fn"}
    [] c.fn = "tv1d" -> OutOf("dtype", c.dtype, {"float32", "float64"})
    [] c.fn = "split" -> OutOf("subset", c.subset, {"train", "test", "full"})
Accepts(c) == Faults(c) = {}

Clauses_Api(ev) ==
  IF ev.out = "raised" /\ Accepts(ev.c) THEN "api-rejects-documented"
  ELSE IF ev.out # "raised" /\ ~Accepts(ev.c) THEN "api-accepts-invalid"
  ELSE ""

(***************************************************************************)
(* The gradient of F(x) = x'Hx/2 - c'x as the solver sees it: the given    *)
(* one, or the forward differences with the steps eps.                     *)
(***************************************************************************)
Quad(H, c, x) == RSub(RMul(Half, Dot(x, MatVec(H, x))), Dot(c, x))
Shifted(x, i, e) == [x EXCEPT ![i] = RAdd(@, e)]
QuadGrad(H, c, x) == VSub(MatVec(H, x), c)
Forward(H, c, x, eps) ==
  [i \in DOMAIN x |-> RDiv(RSub(Quad(H, c, Shifted(x, i, eps[i])), Quad(H, c, x)), eps[i])]
\* evaluating F is exact up to 2^-46 of the size of its terms
QuadNoise(H, c, x) ==
  RMul(RPow2(-46), RAdd(One, RMul(R(Len(x), 1), RAdd(RMul(R(Len(x), 1),
    RMul(FoldLeft(LAMBDA acc, row : RMax(acc, NormInf(row)), Zero, H), RSqr(RAdd(One, NormInf(x))))),
    RMul(NormInf(c), RAdd(One, NormInf(x)))))))
Clauses_Gradient(ev) ==
  IF ~VIsNum(ev.g) \/ Len(ev.g) # Len(ev.x) THEN "gradient-not-a-point"
  ELSE LET noise == QuadNoise(ev.H, ev.c, ev.x)
           want == IF ev.fd THEN Forward(ev.H, ev.c, ev.x, ev.eps) ELSE QuadGrad(ev.H, ev.c, ev.x)
           tol(i) == RAdd(ev.gtol, IF ev.fd THEN RMul(R(8, 1), RDiv(noise, ev.eps[i])) ELSE RMul(R(8, 1), noise))
       IN IF \E i \in DOMAIN want : ~Near(ev.g[i], want[i], tol(i)) THEN "gradient-not-as-specified" ELSE ""

\* every call of the user's function received the extra arguments
Clauses_Args(ev) == IF ev.calls = 0 THEN "args-never-called"
                    ELSE IF \E i \in DOMAIN ev.got : ev.got[i] # ev.want THEN "args-not-passed-on" ELSE ""
================================================================================
