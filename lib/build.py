"""Make an importable copy of the package under test (PyECLOUD) from /repo's working tree, in a scratch folder.

Python sources are copied.  A native module is taken from /repo when /repo/build/vp-stamps.json proves that it was
built from the very sources that are in the tree now; otherwise it is built in the scratch folder with the same
command the project's Makefile / setup.py use.  Nothing is written under /repo.
"""
import concurrent.futures
import glob
import hashlib
import json
import os
import shlex
import shutil
import subprocess

REPO = os.environ.get("VERIF_REPO", "/repo")
VENV = "/opt/venv/bin"
PY = VENV + "/python"
F2PY = VENV + "/f2py"


class BuildError(Exception):
    pass


def _digest(command, files, root):
    h = hashlib.sha256(repr(command).encode())
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        p = os.path.join(root, f)
        h.update(open(p, "rb").read() if os.path.exists(p) else b"missing")
    return h.hexdigest()


def _env():
    e = dict(os.environ)
    e.update(PATH=VENV + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", PYTHONDONTWRITEBYTECODE="1",
             PIP_NO_INDEX="1", CCACHE_DISABLE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg")
    return e


def prepare(scratch):
    """Returns the folder to put on PYTHONPATH (it contains the package PyECLOUD)."""
    root = os.path.join(scratch, "pkgroot")
    pkg = os.path.join(root, "PyECLOUD")
    os.makedirs(pkg)
    for p in glob.glob(REPO + "/*"):
        b = os.path.basename(p)
        if os.path.isfile(p) and not b.endswith(".so"):
            shutil.copy(p, os.path.join(pkg, b))
    env = _env()

    try:
        stamps = json.load(open(REPO + "/build/vp-stamps.json"))
    except (OSError, ValueError):
        stamps = {}
    mk = subprocess.run(["make", "-n", "all", "F2PY=" + F2PY], cwd=pkg, env=env, text=True, stdout=subprocess.PIPE,
                        stderr=subprocess.STDOUT)
    jobs = []
    for line in mk.stdout.splitlines():
        command = shlex.split(line)
        if command[:1] != [F2PY]:
            continue
        jobs.append(([command[command.index("-m") + 1]], command, [a for a in command if a.endswith(".f")]))
    pyx = sorted(os.path.basename(p) for p in glob.glob(pkg + "/*.pyx"))
    names = [p[:-4] for p in pyx]
    rel = lambda pat: [os.path.basename(p) for p in glob.glob(pkg + "/" + pat)]
    if names:
        jobs.append((names, [PY, "setup.py", "build_ext", "-i", "-f"],
                     pyx + rel("*.pxd") + rel("*.h") + ["boris_c_function.c", "setup.py"]))
    if not jobs:
        raise BuildError("the Makefile lists no native module:\n" + mk.stdout)

    def one(job):
        nm, command, files = job
        have = [p for n in nm for p in glob.glob(f"{REPO}/{n}.*.so")]
        if stamps.get("+".join(nm)) == _digest(command, files, pkg) and len(have) == len(nm):
            for p in have:
                shutil.copy(p, pkg)
            return None
        d = os.path.join(scratch, "build-" + nm[0])
        os.makedirs(d)
        for f in files:
            if os.path.exists(os.path.join(pkg, f)):
                shutil.copy(os.path.join(pkg, f), d)
        p = subprocess.run(command, cwd=d, env=env, text=True, errors="replace", stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        made = [q for n in nm for q in glob.glob(f"{d}/{n}.*.so")]
        if p.returncode or len(made) != len(nm):
            return "+".join(nm) + ":\n" + p.stdout[-3000:]
        for q in made:
            shutil.copy(q, pkg)
        shutil.rmtree(d, ignore_errors=True)
        return None

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        errs = [e for e in ex.map(one, jobs) if e]
    if errs:
        raise BuildError("\n".join(errs))
    return root
