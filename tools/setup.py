"""setup_cmd: self-tests of the specification's arithmetic (the checks compile what they need themselves)."""
import os
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import core  # noqa: E402

scratch = tempfile.mkdtemp(prefix="verif-setup-")
rc = 0
try:
    for mod in ("RatSelfTest", "ElemSelfTest"):
        r = core.tlc(scratch, mod)
        print(mod, "ok" if r.finished and not r.rc else r.out[-2000:])
        rc |= 0 if r.finished and not r.rc else 1
finally:
    shutil.rmtree(scratch, ignore_errors=True)
sys.exit(rc)
