"""Scratch copy of the package under test with a C++ core freshly built from the working tree (nothing is written under /repo)."""
import concurrent.futures
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

CXX = "g++-10"
FLAGS = ["-std=c++14", "-fPIC", "-m64", "-O1", "-D_GLIBCXX_ASSERTIONS", "-DEXPORT_PYCLUSTERING_INTERFACE", "-w", "-include", "limits"]


def files(root):
    out = []
    for base, exts in (("ccore/src", (".cpp",)), ("ccore/include", (".hpp", ".h")), ("pyclustering", (".py", ".data", ".txt"))):
        for d, ds, fs in os.walk(os.path.join(root, base)):
            ds[:] = sorted(x for x in ds if x not in ("__pycache__", "tests", "examples"))
            for f in sorted(fs):
                if f.endswith(exts):
                    out.append(os.path.relpath(os.path.join(d, f), root))
    return out


def scratch(root, core=True, drivers=()):
    """-> directory holding pyclustering/ (copied) and, when core, the freshly built shared library and object files"""
    fl = files(root)
    h = hashlib.sha256()
    for f in fl:
        h.update(f.encode() + b"\0")
        with open(os.path.join(root, f), "rb") as fd:
            h.update(hashlib.sha256(fd.read()).digest())
    tag = h.hexdigest()[:20] + ("" if core else "-py")
    d = os.path.join("/tmp", "pcv-" + tag)
    lock = open(d + ".lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(os.path.join(d, ".done")):
            return d
        if os.path.exists(d):
            shutil.rmtree(d)
        for f in fl:
            if f.startswith("pyclustering/") or core:
                t = os.path.join(d, f)
                os.makedirs(os.path.dirname(t), exist_ok=True)
                shutil.copyfile(os.path.join(root, f), t)
        if core:
            build(d)
        open(os.path.join(d, ".done"), "w").close()
        return d
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)


class BuildError(Exception):
    pass


def build(d):
    src = []
    for r, _, fs in os.walk(os.path.join(d, "ccore", "src")):
        src += [os.path.join(r, f) for f in fs if f.endswith(".cpp")]
    obj = os.path.join(d, "obj")
    os.makedirs(obj, exist_ok=True)
    inc = os.path.join(d, "ccore", "include")

    def one(s):
        o = os.path.join(obj, os.path.basename(s)[:-4] + ".o")
        r = subprocess.run([CXX] + FLAGS + ["-I" + inc, "-c", s, "-o", o], capture_output=True, text=True)
        if r.returncode:
            raise BuildError(s + "\n" + r.stderr[:2000])
        return o
    src.sort(key=lambda s: -os.path.getsize(s))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, src))
    so = os.path.join(d, "pyclustering", "core", "64-bit", "linux", "libpyclustering.so")
    os.makedirs(os.path.dirname(so), exist_ok=True)
    r = subprocess.run([CXX, "-shared", "-o", so] + objs + ["-pthread"], capture_output=True, text=True)
    if r.returncode:
        raise BuildError(r.stderr[:2000])


def driver(d, source, name, shared=False):
    """compile a C++ driver of /verif against the objects of the scratch build"""
    exe = os.path.join(d, "drv-" + name)
    with open(source, "rb") as f:
        tag = hashlib.sha256(f.read()).hexdigest()[:8]
    exe += "-" + tag
    if os.path.exists(exe):
        return exe
    objs = [os.path.join(d, "obj", o) for o in sorted(os.listdir(os.path.join(d, "obj"))) if not o.endswith("_interface.o")]
    tmp = exe + ".%d" % os.getpid()
    r = subprocess.run([CXX] + FLAGS + ["-I" + os.path.join(d, "ccore", "include"), source] + objs + (["-shared"] if shared else []) + ["-pthread", "-o", tmp], capture_output=True, text=True)
    if r.returncode:
        raise BuildError(r.stderr[:3000])
    os.rename(tmp, exe)
    return exe


if __name__ == "__main__":
    print(scratch(sys.argv[1] if len(sys.argv) > 1 else "/repo"))
