"""Process set-up shared by every check: environment, import paths, welleng.

The code under test runs on the project's own interpreter and libraries
(/opt/venv); hypothesis is *appended* to the path from the tooling venv so that
it can never shadow a library the project uses.
"""
import os
import sys
import warnings

REPO = os.environ.get("WELLENG_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
if TOOLS not in sys.path:
    sys.path.append(TOOLS)

if os.environ.get("VT_PLOTLY"):     # figures are recorded (plotly isn't installed)
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "stub"))

warnings.filterwarnings("ignore")

import numpy as np  # noqa: E402

np.seterr(all="ignore")

import welleng as we  # noqa: E402

if not os.path.abspath(we.__file__).startswith(os.path.abspath(REPO) + os.sep):
    sys.stderr.write(f"welleng imported from {we.__file__}, not {REPO}\n")
    sys.exit(3)

import welleng.survey  # noqa: E402

# The header constructor looks the magnetic field up over the network.  There
# is none here; the documented fall-back (mag_defaults) is used instead.
we.survey.MAG_CALC = False
warnings.filterwarnings("ignore")
