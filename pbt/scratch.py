"""Scratch directories of the checks."""
import contextlib
import os
import pathlib
import shutil
import tempfile


@contextlib.contextmanager
def directory(folder=""):
    """Directory of this name, or path, in a new directory"""
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    path = pathlib.Path(tempfile.mkdtemp(prefix="verif-case-", dir=base))
    try:
        (path / folder).mkdir(parents=True, exist_ok=True)
        yield path / folder
    finally:
        shutil.rmtree(path, ignore_errors=True)
