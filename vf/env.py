"""Process set-up shared by everything: where the code under test comes from."""
import os
import sys
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
EVIDENCE = os.environ.get("VF_EVIDENCE", os.path.join(VERIF, "evidence"))

os.environ["TZ"] = "UTC"
import time

time.tzset()
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
# binobj asks for its own version (importlib.metadata) and for its dependencies, which
# are installed in the project's own environment.
for _p in ("/opt/venv/lib/python3.12/site-packages",):
    if os.path.isdir(_p) and _p not in sys.path:
        sys.path.append(_p)
warnings.simplefilter("ignore")
