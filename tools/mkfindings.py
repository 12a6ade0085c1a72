"""Writes known_findings.txt: repaired defects (which suppress nothing) and recorded ones."""
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = {
    "dropped vertices stay": "C02", "documented success flag": "C03", "simplex oracle": "C04",
    "simplex projection": "C05", "own projections": "C05", "deterministic solvers": "C19",
    "leave x0 alone": "C19", "no sample uses": "C15", "Hessian of the": "C10", "certifies the point": "C11",
    "at most max_iter": "C18", "primal-dual line search": "C13", "safe_sparse_add": "C21",
    "finite-difference": "C23", "documented callable step": "C16", "tolerance is reached": "C18",
    "stay in [0, max_step_size]": "C16", "MHK and LF": "C16", "load_img1": "C22",
    "leave no partial files": "C22", "same last feature": "C22", "KDD and criteo": "C22", "np.int is gone": "C22",
    "find the iterate": "C20", "unknown step strategies": "C23", "vanished in float32": "C05",
    "per-sample Lipschitz": "C10", "sublinear Frank-Wolfe": "C01", "trace-ball oracle": "C04",
    "single sample, a single": "C10", "zero steps add": "C02",
    "when its line search gives up": "C11",
    "vectors with huge entries": "C05",
    "steps of minimize_sfw respect": "C16",
    "forgets a sample's gradient": "C14", "variance-reduced steps": "C14",
    "SAGA estimate": "C16", "aggregate of the MHK": "C16",
    "for integer arrays": "C09", "local clock is set back": "C20", "on BSR matrices": "C21", "corrupt archive": "C22",
    "full disk": "C22",
    "trace_certificate records": "C11", "operator of integer vectors": "C06", "at integer points": "C04",
    "from an optimal start": "C23", "before it calls the callback": "C23", "strings for jac": "C23",
}
exec(open(os.path.join(V, "tools", "known.py")).read())  # KNOWN, FIXED additions
base = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True,
                      check=True).stdout.split()[-1]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", base + "..HEAD"],
                     capture_output=True, text=True, check=True).stdout.splitlines()
with open(os.path.join(V, "known_findings.txt"), "w") as f:
    f.write("# Genuine defects of openopt/copt found by the checks (see DESIGN.md).\n"
            "# fixed: repaired by a commit in /repo; suppresses nothing.\n"
            "# KNOWN: recorded, not repaired; identified by case and clause.\n")
    for line in log:
        h, _, s = line.partition(" ")
        if not s.startswith("fix: "):
            continue
        ps = [p for k, p in FIXED.items() if k in s]
        assert len(ps) == 1, (line, ps)
        f.write("fixed: property=%s %s %s\n" % (ps[0], h, s[5:]))
    for p, case, clause, text in KNOWN:
        f.write("KNOWN property=%s case=%s clause=%s :: %s\n" % (p, case, clause, text))
