"""Paths, environment and the build of the code under test (everything is built from /repo's working tree)."""
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("UV_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
HARNESS = os.path.join(VERIF, "harness")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, ".build")
PY = "/opt/venv/bin/python"
SEED = int(os.environ.get("VERIF_SEED", "1"))


def build_memory():
    """Compile the Cython extension from the working tree; returns the directory holding _memory.so."""
    src = os.path.join(REPO, "unidist/core/backends/mpi/core/memory")
    h = hashlib.sha256()
    for f in sorted(os.listdir(src)):
        p = os.path.join(src, f)
        if os.path.isfile(p) and not f.endswith((".so", ".o")) and f != "_memory.cpp":
            h.update(f.encode() + b"\0" + open(p, "rb").read())
    out = os.path.join(BUILD, "mem-" + h.hexdigest()[:16])
    if os.path.exists(os.path.join(out, "_memory.so")):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=BUILD)
    try:
        for f in os.listdir(src):
            p = os.path.join(src, f)
            if os.path.isfile(p) and f != "_memory.cpp":
                shutil.copy(p, tmp)
        subprocess.run(
            [PY, "-m", "cython", "--cplus", "-3", "_memory.pyx", "-o", "_memory_pyx.cpp"],
            cwd=tmp, check=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
        )
        inc = subprocess.check_output(
            [PY, "-c", "import sysconfig;print(sysconfig.get_paths()['include'])"], text=True
        ).strip()
        subprocess.run(
            ["g++", "-O1", "-std=c++11", "-shared", "-fPIC", "-I.", "-I" + inc, "_memory_pyx.cpp", "-o", "_memory.so", "-lpthread"],
            cwd=tmp, check=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
        )
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    except subprocess.CalledProcessError as e:
        shutil.rmtree(tmp, ignore_errors=True)
        sys.stderr.write((e.stdout or b"").decode(errors="replace")[-3000:])
        raise
    return out


class MemFinder:
    """Serve unidist.core.backends.mpi.core._memory from the build directory."""

    name = "unidist.core.backends.mpi.core._memory"

    def __init__(self, d):
        self.d = d

    def find_spec(self, name, path=None, target=None):
        if name != self.name:
            return None
        import importlib.machinery
        import importlib.util

        p = os.path.join(self.d, "_memory.so")
        loader = importlib.machinery.ExtensionFileLoader(name, p)
        return importlib.util.spec_from_file_location(name, p, loader=loader)


def clean_env(extra=None):
    env = {
        k: v
        for k, v in os.environ.items()
        if not k.startswith(("UNIDIST_", "OMPI_", "PYTHON", "PMIX", "RAY_", "DASK_", "MODIN_"))
    }
    env.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", LC_ALL="C.UTF-8", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1")
    env.update(extra or {})
    return env
