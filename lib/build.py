"""Builds the package from the working tree of the repository under test in a scratch directory."""
import atexit
import hashlib
import os
import shutil
import signal
import subprocess
import sys
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
PYPY = "/opt/venv-pypy/bin/python"
COMPAT = "-I/usr/include/pypy3.9 -include /opt/vp/compat/pypy_compat.h"
SAN = ("-fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=all -g1 -O1 "
       "-D_GLIBCXX_ASSERTIONS -D_GLIBCXX_SANITIZE_VECTOR")


class BuildError(Exception):
    pass


_scratch = []


def scratch_root():
    if not _scratch:
        d = tempfile.mkdtemp(prefix="sacfv-")
        _scratch.append(d)
        owner = os.getpid()

        def clean():
            if os.getpid() == owner:
                shutil.rmtree(d, ignore_errors=True)
        atexit.register(clean)
        for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
            signal.signal(s, lambda *_: sys.exit(3))
    return _scratch[0]


def tree_hash():
    h = hashlib.sha256()
    for base, dirs, files in sorted(os.walk(os.path.join(REPO, "sacf"))):
        if "pybind11" in base:
            continue
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".py", ".cpp", ".h", ".txt")):
                h.update(f.encode() + open(os.path.join(base, f), "rb").read())
    return h.hexdigest()[:16]


def _run(cmd, log, **kw):
    with open(log, "ab") as f:
        r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        sys.stderr.write(open(log, errors="replace").read()[-3000:])
        raise BuildError("%s failed" % cmd[0])


COMPAT_CPP = r"""
#include <string>
#include <cstdint>
#undef PyPyRun_String
#include <Python.h>
extern "C" __attribute__((visibility("hidden"))) PyObject *sacf_compat_run_string(const char *src, int start, PyObject *g, PyObject *l) {
    if (start == Py_file_input && src[0] == '\\' && src[1] == '\n' && src[2] == ' ')
        return PyRun_String((std::string("if True:\n") + (src + 2)).c_str(), start, g, l);
    return PyRun_String(src, start, g, l);
}
"""
# Without the Python headers in front of the engine's own files
PLAIN = "-I/usr/include/pypy3.9 -include cstdint -DPyPyRun_String=sacf_compat_run_string"
KINDS = {
    "release": ("g++", "gcc", COMPAT, "Release"),
    "san": ("g++", "gcc", COMPAT + " " + SAN, "None"),
    "count": ("g++", "gcc", COMPAT, "Release"),    # release, with lib/newcount.cpp preloaded
    "gxx-O0": ("g++", "gcc", PLAIN + " -O0 -ftrivial-auto-var-init=pattern", "None"),
    "clang-O2": ("clang++", "clang", PLAIN + " -O2 -ftrivial-auto-var-init=pattern -ffp-contract=off", "None"),
    "gxx-Os": ("g++", "gcc", PLAIN + " -Os -fno-inline -D_GLIBCXX_DEBUG_PEDANTIC", "None"),
}


def build(kind="release"):
    """Returns a directory to put on PYTHONPATH. kind: release (as the project builds), san (sanitizers) or a toolchain variant."""
    cxx, cc, flags, btype = KINDS[kind]
    root = os.path.join(scratch_root(), kind)
    src = os.path.join(root, "src")
    os.makedirs(src)
    shutil.copytree(os.path.join(REPO, "sacf"), os.path.join(src, "sacf"),
                    ignore=shutil.ignore_patterns("*.so", "__pycache__", "tests", "docs"))
    if PLAIN in flags:
        for d in ("datastructure", "correlator"):
            with open(os.path.join(src, "sacf", d, "zz_compat.cpp"), "w") as f:
                f.write(COMPAT_CPP)
    env = dict(os.environ)
    env.pop("LD_PRELOAD", None)
    env["CXXFLAGS"] = flags
    log = os.path.join(root, "log")
    b = os.path.join(root, "b")
    _run(["cmake", "-S", os.path.join(src, "sacf"), "-B", b, "-DCMAKE_LIBRARY_OUTPUT_DIRECTORY=" + os.path.join(src, "sacf"),
          "-DPYTHON_EXECUTABLE=" + PYPY, "-DCMAKE_CXX_COMPILER=/usr/bin/" + cxx, "-DCMAKE_C_COMPILER=/usr/bin/" + cc,
          "-DCMAKE_BUILD_TYPE=" + btype], log, env=env)
    _run(["cmake", "--build", b, "-j8"], log, env=env)
    shutil.rmtree(b, ignore_errors=True)
    if kind == "count":
        _run(["g++", "-O1", "-shared", "-fPIC", "-o", os.path.join(src, "newcount.so"),
              os.path.join(os.path.dirname(os.path.abspath(__file__)), "newcount.cpp")], log)
    return src
