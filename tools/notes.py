COMMON = ("Trusts TLC, the exact rational operators in spec/java (self-tested against TLA+ definitions) and the "
          "recorder in lib/; conformance covers the generated inputs only, design-level models small constants only.")
_fn = "TLA+ specification checked with TLC; every recorded call judged against it in exact arithmetic (trace validation)"
_tr = ("TLA+ state machine checked with TLC (design model), behaviours replayed into the code, and recorded runs "
       "validated against it step by step in exact arithmetic")
TECH.update({p: _fn for p in ("C04", "C05", "C06", "C07", "C08", "C09", "C10", "C21")})
TECH.update({p: _tr for p in ("C01", "C02", "C03", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19",
                              "C20", "C22", "C23")})
NOTE.update({
 "C01": "Every oracle query, callback and result of recorded runs is judged; iterates and steps of random problems.",
 "C02": "All rational active-set histories of the model up to depth 3 (quick) or 4 are replayed into the solver.",
 "C03": "Certificate, decrease and stopping are decided with the user's own objective and gradient at each query.",
 "C04": "Optimality decided by support functions; model-checked on a grid, and the grid's cases replayed.",
 "C05": "The variational characterization of projections is model-checked exhaustively on a grid against the "
        "definition of nearest point, and then decides every recorded projection.",
 "C06": "The optimality conditions are model-checked against the definition of the minimizer on a grid.",
 "C07": "A TLA+ taut-string solution on a grid is compared with the optimality conditions and replayed; 2-D "
        "accuracy is judged to max(100 tol, 3e-6) with a dual witness.",
 "C08": "All block structures of a small grid, replayed, and random ones.",
 "C09": "Elementary functions are TLA+ definitions with relative error below 2^-60.",
 "C10": "Lipschitz bounds are decided on pairs of points, including the extremal directions of the data.",
})
NOTE.update({
 "C11": "All runs of the design model (plain, adaptive, accelerated) are replayed; stationarity decided by the prox residual.",
 "C12": "Exact steps replayed; success judged against a verified saddle witness when f is strongly convex.",
 "C13": "Fejer monotonicity checked on the model; recorded runs judged step by step and against a verified saddle witness.",
})
NOTE.update({"C15": "Every order of the samples over two epochs of the model is matched by replays; recorded steps judged exactly.",
 "C17": "Coverage and evenness of the draws are decided with error probabilities below 1e-12; the seed is fixed.",
 "C18": "Every scenario of the protocol model (certificates, tolerance, budget, stopping call) is scripted into the solvers.",
 "C16": "Every sequence of batches of the model up to depth 3 is matched by replays; recorded steps judged exactly."})
NOTE.update({"C14": "Every order of the samples over two epochs of the model is matched by replays; recorded steps judged exactly."})
NOTE.update({"C19": "All histories of calls on start points and earlier results up to depth 3 are replayed over the catalogue of operations.",
 "C20": "All histories of calls of the model (frequency, objective, in-place updates) are replayed; traces attached to every solver.",
})
NOTE.update({"C21": "The kernels' loops are model-checked on all small CSR layouts and selections, which are replayed; losses and stochastic "
        "solvers are compared on every storage."})
NOTE.update({"C22": "Histories of loads and interruptions of the model are replayed; real loads are stopped at every source line, in the "
        "middle of writes (file size limits) and of the transfer, in processes of their own."})
NOTE.update({"C23": "Every combination of option classes of the model is tried on the entry points; gradients seen by operators and "
        "oracles are judged exactly, forward differences included."})
