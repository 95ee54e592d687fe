"""Import paths: the code under test from /repo, Hypothesis from the tool venv (same Python 3.12)."""
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
_TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _TOOLS not in sys.path:
    sys.path.append(_TOOLS)  # after /opt/venv, so numpy & co. come from the project's environment
import warnings

warnings.simplefilter("ignore")
import logging

logging.disable(logging.CRITICAL)
import numpy as np  # noqa: E402

np.seterr(all="ignore")
