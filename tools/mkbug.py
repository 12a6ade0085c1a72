"""Confirm planted bugs and write them to seeded/<id>/.

usage: mkbug.py DEFS.py [ID ...]     DEFS.py: BUGS = [dict(id, prop, file, edits=[(old, new)..], demo, needs, breaks)]

For each bug: the edits are applied to a scratch copy of /repo, which is bind-mounted on /repo in
a private mount namespace; there the build, the stable tests and the demonstration run.  The bug is
written out only if build and tests pass, the demonstration fails with it and passes without it,
and the lines it removes come from the original repository.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.strip()
STABLE = json.load(open("/opt/vp/BASELINE.json"))


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def inside(copy, cmd, **kw):
    """run cmd with copy mounted on /repo"""
    return sh(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (copy, cmd)], **kw)


def original_lines(copy, diff):
    """removed lines of the diff that do not come from the base commit"""
    bad = []
    path = None
    for line in diff.splitlines():
        if line.startswith("--- a/"):
            path = line[6:]
        elif line.startswith("@@"):
            old = int(line.split()[1][1:].split(",")[0])
        elif line.startswith("-") and not line.startswith("---"):
            b = sh(["git", "-C", "/repo", "blame", "-l", "-s", "-L%d,%d" % (old, old), "HEAD", "--", path]).stdout
            if b.split()[0].lstrip("^")[:39] != BASE[:39]:
                bad.append(line)
            old += 1
        elif line.startswith(" "):
            old += 1
    return bad


def one(bug):
    tmp = tempfile.mkdtemp(prefix="bug", dir="/tmp")
    try:
        copy = tmp + "/repo"
        shutil.copytree("/repo", copy, symlinks=True)
        for f, old, new in bug["edits"]:
            p = os.path.join(copy, f)
            src = open(p).read()
            if src.count(old) != 1:
                return "edit matches %d times: %r" % (src.count(old), old[:60])
            open(p, "w").write(src.replace(old, new))
        diff = sh(["git", "-C", copy, "diff"]).stdout
        bad = original_lines(copy, diff)
        note = ""
        if bad:
            note = " (changes lines that are not original: %r)" % bad
            if all(l in bad for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")):
                return "no original line changed" + note
        d = tmp + "/demo"
        os.makedirs(d)
        open(d + "/demo.py", "w").write(bug["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexport OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1\n'
                                        'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        r0 = sh(["bash", d + "/demo.sh"], cwd="/repo")
        if r0.returncode:
            return "demo fails on the unchanged tree: " + (r0.stdout + r0.stderr)[-600:]
        r1 = inside(copy, "bash %s/demo.sh" % d)
        if r1.returncode == 0:
            return "demo passes with the bug: " + r1.stdout[-300:]
        rb = inside(copy, "bash /opt/vp/build.sh")
        if rb.returncode:
            return "build fails " + rb.stdout[-300:]
        rt = inside(copy, "bash /opt/vp/test.sh %s/out.json" % tmp)
        out = json.load(open(tmp + "/out.json"))
        passed = set(out.get("passed", []))
        stable = set(STABLE["passed"] if "passed" in STABLE else STABLE["stable"])
        lost = sorted(stable - passed)
        if lost:
            return "tests fail: %d %s" % (len(lost), lost[:3])
        dst = os.path.join(VERIF, "seeded", bug["id"])
        os.makedirs(dst, exist_ok=True)
        open(dst + "/patch.diff", "w").write(diff)
        for f in ("demo.sh", "demo.py"):
            shutil.copy(d + "/" + f, dst)
        json.dump({"property": bug["prop"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
                  open(dst + "/meta.json", "w"), indent=1)
        open(dst + "/meta.json", "a").write("\n")
        return "OK" + note + " demo: " + (r1.stdout + r1.stderr).strip()[-90:]
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    for bug in bugs:
        if len(sys.argv) > 2 and bug["id"] not in sys.argv[2:]:
            continue
        print(bug["id"], one(bug), flush=True)
