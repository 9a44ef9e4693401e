"""Makes a private importable copy of funpy from /repo's working tree, compiling its Cython modules.

Compiled modules are cached (by content of everything that goes into them) under /verif/.cache, which git
ignores; the .so files lying around in /repo are never used."""
import hashlib
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("FV_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")

SETUP = r'''
import sys
import numpy as np
from setuptools import setup
from setuptools.extension import Extension
from Cython.Build import cythonize
name, path = sys.argv[1:3]
sys.argv[1:] = ["-q", "build_ext", "--inplace", "--build-temp", "tmp_" + name]
ext = Extension(name, [path], include_dirs=[np.get_include()],
                extra_compile_args=["-O1", "-g0", "-march=native", "-fno-fast-math", "-w"])
setup(name="x", packages=[], ext_modules=cythonize([ext], quiet=True))
'''


class BuildError(Exception):
    pass


def _digest(paths, extra):
    h = hashlib.sha256()
    h.update(extra.encode())
    for p in sorted(paths):
        h.update(os.path.basename(p).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:32]


def prepare(scratch):
    """Copies the package into scratch/pkg/funpy, compiles; returns the directory to put on sys.path."""
    root = os.path.join(scratch, "pkg")
    src = os.path.join(REPO, "funpy")
    dst = os.path.join(root, "funpy")

    def ignore(d, names):
        return [n for n in names if n == "__pycache__" or n.endswith((".so", ".c", ".o", ".pyc"))]
    shutil.copytree(src, dst, ignore=ignore)
    pyx, pxd = [], []
    for d, _, names in os.walk(dst):
        for n in names:
            if n.endswith(".pyx"):
                pyx.append(os.path.join(d, n))
            elif n.endswith(".pxd"):
                pxd.append(os.path.join(d, n))
    for n in os.listdir(REPO):            # top-level .pxd files are on Cython's include path too
        if n.endswith(".pxd"):
            shutil.copy(os.path.join(REPO, n), root)
            pxd.append(os.path.join(root, n))
    import numpy
    import Cython
    try:
        with open("/proc/cpuinfo") as f:
            cpu = next((line for line in f if line.startswith("flags")), "")
    except OSError:
        cpu = ""
    extra = "|".join([sys.version, numpy.__version__, Cython.__version__, SETUP, cpu])
    jobs = []
    for p in sorted(pyx):
        rel = os.path.relpath(p, root)
        mod = rel[:-4].replace(os.sep, ".")
        dig = _digest([p] + pxd, extra + rel)
        cached = os.path.join(CACHE, dig)
        if os.path.isdir(cached) and os.listdir(cached):
            for n in os.listdir(cached):
                shutil.copy(os.path.join(cached, n), os.path.dirname(p))
            continue
        script = os.path.join(root, "setup_%s.py" % mod.replace(".", "_"))
        with open(script, "w") as f:
            f.write(SETUP)
        log = open(script + ".log", "w")
        jobs.append((p, mod, cached, script,
                     subprocess.Popen([sys.executable, script, mod, rel], cwd=root, stdout=log,
                                      stderr=subprocess.STDOUT)))
    for p, mod, cached, script, proc in jobs:
        rc = proc.wait()
        stem = os.path.basename(p)[:-4]
        made = [n for n in os.listdir(os.path.dirname(p)) if n.startswith(stem + ".") and n.endswith(".so")]
        if rc or not made:
            with open(script + ".log") as f:
                raise BuildError("compiling %s failed:\n%s" % (mod, f.read()[-4000:]))
        try:
            tmp = "%s.%d.tmp" % (cached, os.getpid())
            os.makedirs(tmp)
            for n in made:
                shutil.copy(os.path.join(os.path.dirname(p), n), tmp)
            os.rename(tmp, cached)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return root
