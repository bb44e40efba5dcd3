"""Interpreter set-up shared by every entry point.  Import first."""

import os
import sys

REPO = os.environ.get("SPGREP_REPO", "/repo")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
sys.dont_write_bytecode = True
sys.pycache_prefix = None
SRC = os.path.join(REPO, "src")
STEPPED = ("C09", "C11", "C12")  # run with step points in spgrep
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def python_env(hashseed="0"):
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = str(hashseed)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONPYCACHEPREFIX"] = "/nonexistent"
    env["OPENBLAS_NUM_THREADS"] = "1"
    env["OMP_NUM_THREADS"] = "1"
    return env


def ensure_env():
    """Re-execute with a fixed hash seed and without byte-code caches."""
    if os.environ.get("PYTHONHASHSEED") is None or os.environ.get("PYTHONPYCACHEPREFIX") != "/nonexistent":
        hs = os.environ.get("PYTHONHASHSEED", "0")
        os.execve(sys.executable, [sys.executable] + sys.orig_argv[1:], python_env(hs))


def load(prop=None):
    """Install the seams, then import spgrep from the working tree of /repo."""
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    import warnings

    warnings.filterwarnings("ignore", category=DeprecationWarning)
    from . import sched, seams, steps

    seams.install()
    sched.install()
    if prop is not None and prop.upper() in STEPPED:
        steps.install()
    import spgrep
    import spgrep.core, spgrep.corep, spgrep.group, spgrep.irreps  # noqa: F401,E401
    import spgrep.pointgroup, spgrep.representation, spgrep.spinor  # noqa: F401,E401
    import spgrep.tensor, spgrep.transform, spgrep.utils  # noqa: F401,E401

    seams.SPGREP_DIR = os.path.dirname(os.path.abspath(spgrep.__file__))
    if not seams.SPGREP_DIR.startswith(os.path.abspath(SRC)):
        raise RuntimeError("spgrep imported from %s, not %s" % (seams.SPGREP_DIR, SRC))
    return spgrep
