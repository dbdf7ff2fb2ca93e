"""Locates the code under test and the checking libraries.

/repo/src is put first on sys.path, so the modules checked are always the ones of
the working tree.  Hypothesis comes from the pre-installed tool venv; that directory
goes *last*, so numpy/scipy/matplotlib stay the versions the project is tested with.
"""
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
PYTHON = "/opt/venv/bin/python"


def setup():
    sys.dont_write_bytecode = True
    for var in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[var] = "1"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ["MPLBACKEND"] = "Agg"
    os.environ.setdefault("MPLCONFIGDIR", "/tmp/qv-mpl-%d" % os.getuid())
    src = os.path.join(REPO, "src")
    if src in sys.path:
        sys.path.remove(src)
    sys.path.insert(0, src)
    if TOOLS not in sys.path:
        sys.path.append(TOOLS)
    import warnings

    warnings.simplefilter("ignore")


def check_origin():
    """The qudiet that was imported must be the one of the tree under test."""
    import qudiet.core.quantum_circuit as m

    path = os.path.realpath(m.__file__)
    if not path.startswith(os.path.realpath(os.path.join(REPO, "src")) + os.sep):
        raise RuntimeError("qudiet imported from %s, not from %s" % (path, REPO))
