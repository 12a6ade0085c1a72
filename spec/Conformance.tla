------------------------------- MODULE Conformance ------------------------------
(***************************************************************************)
(* Judges traces recorded from the implementation (JSON file named by the  *)
(* environment variable TRACES).  A trace has a kind, which selects the    *)
(* specification it has to be a behaviour of, a configuration and a list   *)
(* of events.                                                              *)
(***************************************************************************)
EXTENDS Blocks, Losses, FrankWolfe, StochFW, Sampling, Lifecycle, Purity, Recorder, DataCache, ProxGrad, PrimalDual, Vrtos, Api, Json, IOUtils, TLC
VARIABLES tid, l, st, bad

AllTraces == JsonDeserialize(IOEnv.TRACES)

\* ---- functions: each event is one call, judged on its own
\* the result the specification predicted for a behaviour it generated
Clauses_Match(ev) ==
  IF ~VIsNum(ev.got) THEN ev.what \o "-not-a-point"
  ELSE IF ~VNear(ev.want, ev.got, ev.tol) THEN ev.what \o "-not-as-predicted"
  ELSE ""

FnClause(t, ev) ==
  CASE ev.k = "match"    -> Clauses_Match(ev)
    [] ev.k = "proj"     -> Clauses_Projection(ev)
    [] ev.k = "ind"      -> Clauses_Indicator(ev)
    [] ev.k = "lmo"      -> Clauses_Oracle(ev)
    [] ev.k = "lmopw"    -> Clauses_PairwiseOracle(ev)
    [] ev.k = "prox"     -> Clauses_Prox(ev)
    [] ev.k = "value"    -> Clauses_Value(ev)
    [] ev.k = "tv2prox"  -> Clauses_Tv2Prox(ev)
    [] ev.k = "api"      -> Clauses_Api(ev)
    [] ev.k = "gradient" -> Clauses_Gradient(ev)
    [] ev.k = "args"     -> Clauses_Args(ev)
    [] ev.k = "tvrun"    -> Clauses_TvRun(ev)
    [] ev.k = "tvop"     -> Clauses_TvOperator(ev)
    [] ev.k = "bshape"   -> Clauses_BlockShape(ev)
    [] ev.k = "halves"   -> Clauses_Halves(ev)
    [] ev.k = "bprox"    -> Clauses_BlockProx(ev)
    [] ev.k = "csrmv"    -> Clauses_CsrMv(ev)
    [] ev.k = "csrvm"    -> Clauses_CsrVm(ev)
    [] ev.k = "spadd"    -> Clauses_SparseAdd(ev)
    [] ev.k = "loss"     -> Clauses_Loss(t.cfg, ev)
    [] ev.k = "deriv"    -> Clauses_Deriv(t.cfg, ev)
    [] ev.k = "logsig"   -> Clauses_LogSig(ev)
    [] ev.k = "hess"     -> Clauses_Hessian(t.cfg, ev)
    [] ev.k = "lip"      -> Clauses_Lipschitz(t.cfg, ev)
    [] ev.k = "maxlip"   -> Clauses_MaxLipschitz(t.cfg, ev)
    [] ev.k = "update"   -> Clauses_Update(ev)
    [] ev.k = "batches"  -> Clauses_SampleBatches(ev)
    [] ev.k = "gradpair" -> Clauses_GradPair(ev)

StartOf(t) == CASE t.kind = "fn" -> "none"
                [] t.kind = "fw" -> FwStart
                [] t.kind = "sfw" -> SfwStart(t.cfg)
                [] t.kind = "samp" -> SampStart
                [] t.kind = "life" -> "none"
                [] t.kind = "pure" -> PureStart
                [] t.kind = "rec" -> RecStart
                [] t.kind = "cache" -> CacheStart
                [] t.kind = "pg" -> PgStart(t.cfg)
                [] t.kind = "ts" -> TsStart(t.cfg)
                [] t.kind = "pd" -> PdStart(t.cfg)
                [] t.kind = "vr" -> VrStart(t.cfg)
                [] t.kind = "vt" -> VtStart(t.cfg)
                [] OTHER -> "none"

ClauseOf(t, s, ev) ==
  IF ev.k = "raised" THEN "unexpected-exception"
  ELSE CASE t.kind = "fn" -> FnClause(t, ev)
         [] t.kind = "fw" -> FwClause(t.cfg, s, ev)
         [] t.kind = "sfw" -> SfwClause(t.cfg, s, ev)
         [] t.kind = "samp" -> SampClause(t.cfg, s, ev)
         [] t.kind = "life" -> LifeClause(t.cfg, ev)
         [] t.kind = "pure" -> PureClause(s, ev)
         [] t.kind = "rec" -> RecClause(t.cfg, s, ev)
         [] t.kind = "cache" -> CacheClause(t.cfg, s, ev)
         [] t.kind = "pg" -> IF ~PgWitness(t.cfg, s, ev) THEN "pg-witness" ELSE PgClause(t.cfg, s, ev)
         [] t.kind = "ts" -> IF ev.k = "opt" THEN TsOptimum(t.cfg, s, ev) ELSE TsClause(t.cfg, s, ev)
         [] t.kind = "pd" -> PdClause(t.cfg, s, ev)
         [] t.kind = "vr" -> VrClause(t.cfg, s, ev)
         [] t.kind = "vt" -> VtClause(t.cfg, s, ev)

AfterOf(t, s, ev) ==
  CASE t.kind = "fn" -> s
    [] t.kind = "fw" -> FwAfter(t.cfg, s, ev)
    [] t.kind = "sfw" -> SfwAfter(t.cfg, s, ev)
    [] t.kind = "samp" -> SampAfter(t.cfg, s, ev)
    [] t.kind = "life" -> s
    [] t.kind = "pure" -> PureAfter(s, ev)
    [] t.kind = "rec" -> RecAfter(t.cfg, s, ev)
    [] t.kind = "cache" -> CacheAfter(t.cfg, s, ev)
    [] t.kind = "pg" -> PgAfter(t.cfg, s, ev)
    [] t.kind = "ts" -> TsAfter(t.cfg, s, ev)
    [] t.kind = "pd" -> PdAfter(t.cfg, s, ev)
    [] t.kind = "vr" -> VrAfter(t.cfg, s, ev)
    [] t.kind = "vt" -> VtAfter(t.cfg, s, ev)

INSTANCE TraceBase WITH Traces <- AllTraces, Start <- StartOf, Clause <- ClauseOf, After <- AfterOf
================================================================================
