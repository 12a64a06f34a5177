"""Builds the code under test from /repo's working tree into a scratch directory."""
import glob
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

REPO = os.environ.get("DST_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))


class BuildError(Exception):
    pass


def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def native(scratch):
    """Compiles the simulator's own C seams (file faults)."""
    so = os.path.join(scratch, "filefault.so")
    _run(["gcc", "-O1", "-fPIC", "-shared", "-o", so,
          os.path.join(HERE, "native", "filefault.c"), "-ldl"])
    return so


def libasan():
    return _run(["gcc", "-print-file-name=libasan.so"]).strip()


def build(variant="plain"):
    """Copies the package to a new scratch directory and compiles its extension there.

    variant 'alloc': cntr.c is compiled with the allocation seam (native/allocseam.h)
    included in front of it, and with the address sanitizer. The source is not changed.
    """
    scratch = tempfile.mkdtemp(prefix="dst-", dir=os.environ.get("DST_TMP", "/tmp"))
    try:
        shutil.copytree(
            os.path.join(REPO, "trackeddy"), os.path.join(scratch, "trackeddy"),
            ignore=shutil.ignore_patterns("*.so", "__pycache__", "*.pyc"))
        shutil.copy(os.path.join(REPO, "setup.py"), scratch)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        if variant == "alloc":
            env["CFLAGS"] = "-O1 -g -fno-omit-frame-pointer -fsanitize=address -include %s" % os.path.join(HERE, "native", "allocseam.h")
        else:
            env["CFLAGS"] = "-O2"
        _run([sys.executable, "setup.py", "-q", "build_ext", "--inplace", "--force"],
             cwd=scratch, env=env)
        if not glob.glob(os.path.join(scratch, "trackeddy", "_cntr*.so")):
            raise BuildError("the extension was not built")
        shutil.rmtree(os.path.join(scratch, "build"), ignore_errors=True)
        os.mkdir(os.path.join(scratch, "work"))
        native(scratch)
    except BaseException:
        shutil.rmtree(scratch, ignore_errors=True)
        raise
    return scratch
