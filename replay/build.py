"""Builds the real code of /repo (libsymmetrix units, the repository's own Python bindings) with address
sanitizer and checked containers into a scratch directory."""
import glob
import os
import shutil
import subprocess
import sys
import sysconfig

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
UNITS = ["cubic_spline", "cubic_spline_set", "multilayer_perceptron", "multivariate_polynomial", "tools", "zbl"]
PY = "/usr/bin/python3"


def includes():
    out = subprocess.run([PY, "-c", "import sysconfig;print(sysconfig.get_paths()['include'])\n"
                          "try:\n import pybind11;print(pybind11.get_include())\nexcept ImportError: pass"],
                         capture_output=True, text=True).stdout.split()
    return ["-I" + p for p in out]


def flags():
    return ["-std=c++20", "-O1", "-ffast-math", "-march=x86-64-v3", "-fPIC", "-w", "-D_GLIBCXX_ASSERTIONS",
            "-fsanitize=address", "-fno-omit-frame-pointer",
            "-I%s/libsymmetrix/source" % REPO, "-I/opt/vp/cmake/shim/source"] + includes()


MACE = {"C18", "C19", "C21", "C25", "C26"}
OWN = {"C25": "vload", "C21": "vpair"}      # a module of their own instead of the repository's bindings       # properties of the full model


def build(dest, prop=None):
    os.makedirs(dest, exist_ok=True)
    jobs = []
    fl = flags()
    mace = prop in MACE
    name = OWN.get(prop) or ("vmace" if mace else "vrep")
    units = UNITS + ["mace"] if mace else UNITS
    srcs = [("l_" + u, "%s/libsymmetrix/source/%s.cpp" % (REPO, u)) for u in units]
    srcs += [("b_" + u, "%s/symmetrix/source/cpp/%s.cpp" % (REPO, u)) for u in ([] if prop in OWN else ["mace"] if mace else UNITS)]
    srcs += [(name, os.path.join(HERE, name + ".cpp"))]
    if mace:
        fl = fl + ["-I" + os.path.join(HERE, "stubs")]
    if prop == "C21":
        fl = fl + ["-I" + os.path.join(HERE, "lammps"), "-I%s/pair_symmetrix" % REPO]
        for s in sorted(glob.glob("%s/pair_symmetrix/*.cpp" % REPO)):
            if "kokkos" not in s:
                srcs.append(("p_" + os.path.basename(s)[:-4], s))
    # helper files a change may have added next to the library sources
    known = {os.path.basename(s) for s in glob.glob("%s/libsymmetrix/source/*.cpp" % REPO)
             if "kokkos" in s or os.path.basename(s) in ("mace.cpp", "spherical_harmonic.cpp")}
    for s in sorted(glob.glob("%s/libsymmetrix/source/*.cpp" % REPO)):
        b = os.path.basename(s)
        if b not in known and b[:-4] not in UNITS:
            srcs.append(("x_" + b[:-4], s))
    for obj, s in srcs:
        o = os.path.join(dest, obj + ".o")
        jobs.append((obj, o, subprocess.Popen(["g++"] + fl + ["-c", s, "-o", o], stdout=subprocess.PIPE,
                                               stderr=subprocess.STDOUT, text=True)))
    objs, log = [], ""
    for obj, o, p in jobs:
        out, _ = p.communicate()
        if p.returncode:
            log += "%s: %s\n" % (obj, out[-3000:])
        objs.append(o)
    if log:
        return None, log
    so = os.path.join(dest, name + ".so")
    r = subprocess.run(["g++", "-shared", "-fsanitize=address"] + objs + ["-o", so, "-lopenblas"],
                       capture_output=True, text=True)
    if r.returncode:
        return None, r.stdout + r.stderr
    return so, ""


def environment(dest):
    env = dict(os.environ)
    lib = lambda n: subprocess.run(["gcc", "-print-file-name=" + n], capture_output=True, text=True).stdout.strip()
    env.update(LD_PRELOAD=lib("libasan.so") + ":" + lib("libstdc++.so"),
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1",
               OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", VREP_DIR=dest, VERIF_REPO=REPO)
    return env
