"""Import the code under test from /repo's working tree, and the check modules."""
import importlib
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")


def repo_modules():
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import matplotlib.pyplot, numpy, scipy.linalg, scipy.optimize, scipy.sparse.linalg, scipy.special  # noqa: F401
    # never trust bytecode left behind by an earlier version of the same size and modification time
    prefix, sys.pycache_prefix = sys.pycache_prefix, "/nonexistent/pycache"
    import exact_diag.ed_base
    assert os.path.realpath(exact_diag.ed_base.__file__).startswith(os.path.realpath(REPO) + os.sep), \
        exact_diag.ed_base.__file__
    mods = {}
    for n in ("ed_base", "ed_fermions", "ed_geometry", "ed_nlce", "ed_spins", "ed_symmetry", "fermi_gas",
              "greens_fns"):
        mods[n] = importlib.import_module("exact_diag." + n)
    sys.pycache_prefix = prefix
    return mods


def load(prop):
    repo_modules()
    return importlib.import_module(f"vmon.checks.{prop.lower()}")


def install_taps(prop, mod, taps):
    for owner, name, post in mod.taps():
        taps.tap(owner, name, post)
