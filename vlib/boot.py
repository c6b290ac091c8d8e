"""Process set-up shared by every check: code under test from /repo/src, Hypothesis from the tool venv,
deterministic uuids, a non-UTC local time zone, quiet warnings.  Import this before anything else."""
import importlib.abc
import importlib.machinery
import os
import random
import sys
import tempfile
import time
import uuid
import warnings

REPO = "/repo"
SRC = os.path.join(REPO, "src")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HYP_DIR = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

ENV = {
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "MPLBACKEND": "Agg",
    "PROJ_NETWORK": "OFF",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    # a zone that differs from UTC: logs must be in UTC whatever the local zone is
    "TZ": "XXX-5:30",
}


def ensure_env():
    """Re-execute under the fixed environment when it is not in place yet."""
    if all(os.environ.get(k) == v for k, v in ENV.items()):
        return
    os.environ.update(ENV)
    os.execv(sys.executable, [sys.executable] + sys.argv)


class _ToolFinder(importlib.abc.MetaPathFinder):
    """Only hypothesis and its own dependencies come from the tool venv."""

    NAMES = ("hypothesis", "_hypothesis", "sortedcontainers", "attr", "attrs")

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split(".")[0]
        if not any(top == n or top.startswith("_hypothesis") for n in self.NAMES):
            return None
        return importlib.machinery.PathFinder.find_spec(
            fullname, path if path is not None else [HYP_DIR]
        )


_uuid_rng = random.Random(0)


def reset_uuid(seed=0):
    _uuid_rng.seed(seed)


def _uuid4():
    return uuid.UUID(int=_uuid_rng.getrandbits(128), version=4)


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = os.environ.get("VERIF_SCRATCH") or tempfile.mkdtemp(prefix="verif-")
    return _scratch


def setup(ids=True):
    """ids: make generated ids deterministic"""
    time.tzset()
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    if SRC in sys.path:
        sys.path.remove(SRC)
    sys.path.insert(0, SRC)
    sys.meta_path.append(_ToolFinder())
    os.environ["MPLCONFIGDIR"] = os.path.join(scratch(), "mpl")
    os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(scratch(), "hyp")
    if ids:
        uuid.uuid4 = _uuid4
    import logging

    logging.disable(logging.CRITICAL)
    import openclsim

    if not os.path.abspath(openclsim.__file__).startswith(SRC + os.sep):
        raise RuntimeError(f"openclsim imported from {openclsim.__file__}")
    warnings.simplefilter("ignore")
