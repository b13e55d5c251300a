"""Where `ot` is imported from.

A check must judge /repo's *current* tree.  The Python files are read from /repo
directly.  The two compiled extensions that live in /repo are only used when the
build stamp next to them says they were made from exactly the sources now in the
tree; otherwise (a changed .h/.cpp/.pyx that nobody has rebuilt) ot/ is copied to a
scratch directory, the extensions are compiled there from the current sources and
`ot` is imported from that copy.  Nothing is written into /repo.
"""

import glob
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

REPO = os.environ.get("VT_REPO", "/repo")
PY = "/opt/venv/bin/python"
EXTS = {
    "ot.lp.emd_wrap": ("ot/lp", ["ot/lp/emd_wrap.pyx"], ["ot/lp/EMD_wrapper.cpp"]),
    "ot.partial.partial_cython": (
        "ot/partial",
        ["ot/partial/partial_cython.pyx"],
        [],
    ),
}


def _digest(repo, directory):
    h = hashlib.sha256(sys.version.encode())
    cwd = os.getcwd()
    os.chdir(repo)
    try:
        files = ["setup.py", *glob.glob("ot/helpers/*.py")]
        for kind in ("*.pyx", "*.pxd", "*.h", "*.hpp", "*.cpp", "*.c"):
            files += glob.glob(f"{directory}/{kind}")
        for path in sorted(files):
            if os.path.exists(path.rsplit(".", 1)[0] + ".pyx") and path.endswith(
                ".cpp"
            ):
                continue
            with open(path, "rb") as f:
                h.update(path.encode() + b"\0" + hashlib.sha256(f.read()).digest())
    finally:
        os.chdir(cwd)
    return h.hexdigest()


def _fresh(repo, ext):
    d = EXTS[ext][0]
    so = glob.glob(os.path.join(repo, ext.replace(".", "/") + ".*.so"))
    stamp = os.path.join(repo, "build/vp-stamps", ext)
    if not so or not os.path.exists(stamp):
        return False
    with open(stamp) as f:
        return f.read() == _digest(repo, d)


def _run(cmd, cwd):
    p = subprocess.run(
        cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True
    )
    if p.returncode:
        raise RuntimeError("build failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))


def copy_ot(dest, repo=REPO):
    """Copy the ot package (sources only) to dest/ot."""
    shutil.copytree(
        os.path.join(repo, "ot"),
        os.path.join(dest, "ot"),
        ignore=shutil.ignore_patterns("__pycache__", "*.so", "emd_wrap.cpp",
                                      "partial_cython.cpp", "bsp_wrap.cpp"),
    )
    return dest


def build_ext(dest, ext, flags=("-O3", "-fopenmp"), cxx="g++"):
    """Compile one extension inside the copy dest/ot."""
    import numpy

    d, pyx, cpp = EXTS[ext]
    gen = pyx[0][:-4] + ".cpp"
    _run([PY, "-m", "cython", "--cplus", "-o", gen, pyx[0]], dest)
    suffix = sysconfig.get_config_var("EXT_SUFFIX")
    inc = [
        "-I" + numpy.get_include(),
        "-I" + os.path.join(dest, d),
        "-I" + sysconfig.get_paths()["include"],
    ]
    objs, procs = [], []
    for src in [gen] + list(cpp):
        obj = os.path.join(dest, src + ".o")
        objs.append(obj)
        cmd = [cxx, "-fPIC", "-fwrapv", "-DNDEBUG", *flags, *inc, "-c", src, "-o", obj]
        procs.append(
            (cmd, subprocess.Popen(cmd, cwd=dest, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True))
        )
    for cmd, p in procs:
        out = p.communicate()[0]
        if p.returncode:
            raise RuntimeError("build failed: %s\n%s" % (" ".join(cmd), out[-4000:]))
    so = os.path.join(dest, ext.replace(".", "/") + suffix)
    lf = [f for f in flags if f.startswith("-f")]
    _run([cxx, "-shared", *lf, *objs, "-o", so], dest)
    return so


BSP_FLAGS = ("-O2", "-fopenmp", "-std=c++17")


def build_bsp(dest, flags=BSP_FLAGS):
    """BSP-OT, which build.sh leaves out: compiled against the system's Eigen."""
    import numpy

    _run([PY, "-m", "cython", "--cplus", "-o", "ot/bsp/bsp_wrap.cpp",
          "ot/bsp/bsp_wrap.pyx"], dest)
    suffix = sysconfig.get_config_var("EXT_SUFFIX")
    inc = [
        "-I" + numpy.get_include(),
        "-I" + os.path.join(dest, "ot/bsp"),
        "-I/usr/include/eigen3",
        "-I" + sysconfig.get_paths()["include"],
    ]
    objs, procs = [], []
    for src in ["ot/bsp/bsp_wrap.cpp", "ot/bsp/bsp_wrapper.cpp"]:
        obj = os.path.join(dest, src + ".o")
        objs.append(obj)
        procs.append(subprocess.Popen(
            ["g++", "-fPIC", "-fwrapv", "-w", *flags, *inc, "-c", src, "-o", obj],
            cwd=dest, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
    for p in procs:
        out = p.communicate()[0]
        if p.returncode:
            raise RuntimeError("bsp build failed: %s" % out[-4000:])
    so = os.path.join(dest, "ot/bsp/bsp_wrap" + suffix)
    lf = [f for f in flags if f.startswith("-f")]
    _run(["g++", "-shared", *lf, *objs, "-o", so], dest)
    return so


def locate_ot(repo=REPO):
    """(path to put first on sys.path, scratch dir to remove or None, description)"""
    stale = [e for e in EXTS if not _fresh(repo, e)]
    if not stale:
        return repo, None, "in place (stamps match the sources)"
    scratch = tempfile.mkdtemp(prefix="vt-ot-")
    copy_ot(scratch, repo)
    errs = []
    import threading

    def job(e):
        try:
            if e in stale:
                build_ext(scratch, e)
            else:
                for so in glob.glob(os.path.join(repo, e.replace(".", "/") + ".*.so")):
                    shutil.copy(so, os.path.join(scratch, os.path.dirname(
                        e.replace(".", "/"))))
        except Exception as exc:
            errs.append(exc)

    ts = [threading.Thread(target=job, args=(e,)) for e in EXTS]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        shutil.rmtree(scratch, ignore_errors=True)
        raise errs[0]
    return scratch, scratch, "rebuilt in scratch: " + ", ".join(stale)
