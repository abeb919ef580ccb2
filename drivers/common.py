"""Shared by the drivers: JSON in, JSON out, and the exit code that tells an exception of the package under test (3)
from a failure of the driver itself (1)."""
import json
import os
import sys
import traceback


def in_package(tb):
    """Does the traceback end inside the package under test (or in a library it called)?"""
    frames = traceback.extract_tb(tb)
    for fr in reversed(frames):
        f = os.path.abspath(fr.filename)
        if "/drivers/" in f:
            return False
        if "/PyECLOUD/" in f:
            return True
    return False


class PackageError(Exception):
    """The package under test failed (reported by a child process)."""


def main(fn):
    with open(sys.argv[1]) as f:
        spec = json.load(f)
    try:
        out = fn(spec)
    except BaseException:
        traceback.print_exc()
        sys.stdout.flush()
        sys.exit(3 if isinstance(sys.exc_info()[1], PackageError) or in_package(sys.exc_info()[2]) else 1)
    with open(sys.argv[2] + ".tmp", "w") as f:
        json.dump(out, f, default=lambda o: o.item())
    os.rename(sys.argv[2] + ".tmp", sys.argv[2])


def q(v, unit=1.):
    """Nearest integer number of units (an unrepresentable or absurd value becomes a sentinel)."""
    try:
        r = float(v) / unit
    except (TypeError, ValueError):
        return -999999999
    if not (abs(r) < 999999998):
        return 999999999
    return int(round(r))


class quiet(object):
    """Discards what the package prints."""

    def __enter__(self):
        self.o = sys.stdout
        self.n = open(os.devnull, "w")
        sys.stdout = self.n

    def __exit__(self, *a):
        sys.stdout = self.o         # (the package itself may have replaced it)
        self.n.close()
