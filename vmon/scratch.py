"""Scratch directories for checks which write files."""
import contextlib
import os
import shutil
import tempfile


@contextlib.contextmanager
def scratch():
    """run in a new directory, which is removed afterwards"""
    old = os.getcwd()
    d = tempfile.mkdtemp(prefix="vmon_")
    try:
        os.chdir(d)
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)
