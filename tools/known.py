KNOWN = [
    ("C23", "api-fw-2-point", "api-rejects-documented",
     'minimize_frank_wolfe with jac="2-point" (documented, and the default) takes fun for a joint objective and gradient instead of '
     "estimating the gradient (the existing tests pass joint functions with the default)"),
    ("C23", "api-pg-2-point", "api-rejects-documented",
     'minimize_proximal_gradient with jac="2-point" (documented, and the default) takes fun for a joint objective and gradient'),
    ("C23", "api-saga-step-none", "api-rejects-documented",
     "minimize_saga with step_size=None raises, although documented as estimating the step"),
    ("C23", "api-svrg-step-none", "api-rejects-documented",
     "minimize_svrg with step_size=None raises, although documented as estimating the step"),
    ("C23", "api-vrtos-step-none", "api-rejects-documented",
     "minimize_vrtos with step_size=None raises, although documented as estimating the step"),
    ("C18", "vrtos-tolerance", "life-too-many-callbacks",
     "minimize_vrtos ignores tol (documented as the criterion that stops it) and never reports success"),
]
