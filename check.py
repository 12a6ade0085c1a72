#!/opt/venv/bin/python
"""check.py <property id> [--thorough]: decide one property of /repo's current working tree."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import core  # noqa: E402

if __name__ == "__main__":
    prop = sys.argv[1]
    mod = importlib.import_module("checks." + prop.lower())
    sys.exit(core.main(prop, mod.run))
