"""Run the quick check of each planted bug's property against a scratch copy with the bug.  usage: trybugs.py [ID ...] [--check Cxx]"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
ids = args or sorted(d for d in os.listdir(V + "/seeded") if os.path.exists(V + "/seeded/%s/meta.json" % d))


def one(i):
    tmp = tempfile.mkdtemp(prefix="try", dir="/tmp")
    try:
        shutil.copytree("/repo", tmp + "/repo", symlinks=True)
        r = subprocess.run(["git", "-C", tmp + "/repo", "apply", V + "/seeded/%s/patch.diff" % i], capture_output=True, text=True)
        if r.returncode:
            return i, "patch does not apply", {}
        prop = json.load(open(V + "/seeded/%s/meta.json" % i))["property"]
        r = subprocess.run(["/opt/venv/bin/python", V + "/check.py", prop], capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=tmp + "/repo", VERIF_SEED="1", VERIF_EVIDENCE=tmp, VERIF_REPLAY=tmp))
        cl = {}
        for l in r.stdout.splitlines():
            if l.startswith("violated"):
                cl[l.split()[2]] = cl.get(l.split()[2], 0) + 1
        return i, prop + " rc %d %s" % (r.returncode, "" if r.returncode < 2 else (r.stdout + r.stderr)[-300:]), cl
    finally:
        shutil.rmtree(tmp)


with ThreadPoolExecutor(2) as ex:
    for i, s, cl in ex.map(one, ids):
        print(i, s, cl, flush=True)
