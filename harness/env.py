"""Process environment shared by the check runner and the replay runner.

Must be imported before numpy, GDAL or resippy.
"""
import importlib.abc
import importlib.machinery
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

for _k, _v in {
    "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "PROJ_NETWORK": "OFF",
    "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
    "GDAL_PAM_ENABLED": "YES", "CPL_LOG": "/dev/null", "GDAL_CACHEMAX": "64",
}.items():
    os.environ.setdefault(_k, _v)
sys.dont_write_bytecode = True

# Hypothesis is not in the interpreter that runs resippy.  It is taken from the verification venv (same Python
# minor version), and nothing else is: the venv of the code under test stays exactly as the build made it.
_HYP_SITES = ["/opt/veriftools/pyvenv/lib/python3.12/site-packages"]
_HYP_NAMES = {"hypothesis", "_hypothesis_pytestplugin", "_hypothesis_ftz_detector", "_hypothesis_globals",
              "sortedcontainers", "attr", "attrs"}


class _HypothesisFinder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if path is None and name in _HYP_NAMES:
            return importlib.machinery.PathFinder.find_spec(name, _HYP_SITES)
        return None


sys.meta_path.append(_HypothesisFinder())
if REPO in sys.path:
    sys.path.remove(REPO)
sys.path.insert(0, REPO)
if VERIF not in sys.path:
    sys.path.append(VERIF)
