"""A persistent process of a C++ driver linked with the freshly built objects: one line in, one line out."""
import os
import signal
import subprocess
from .base import Violation
from vc import build
import fcntl

HERE = os.path.dirname(os.path.abspath(__file__))


class Driver:
    def __init__(self, name, cpus=None):
        self.name, self.p, self.cpus = name, None, cpus

    def start(self):
        import sys
        import pyclustering
        scratch = os.path.dirname(os.path.dirname(os.path.abspath(pyclustering.__file__)))
        with open(os.path.join(scratch, "drv.lock"), "w") as l:
            fcntl.flock(l, fcntl.LOCK_EX)
            exe = build.driver(scratch, os.path.join(HERE, "drivers", self.name + ".cpp"), self.name)
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, bufsize=1,
                                  env=dict(os.environ, PCV_CPUS=str(self.cpus or 8)))

    def ask(self, line):
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write(line + "\n")
            self.p.stdin.flush()
            r = self.p.stdout.readline()
        except (BrokenPipeError, OSError):
            r = ""
        if not r.endswith("\n"):
            rc = self.p.wait()
            self.p = None
            raise Violation("the C++ code ends with %s" % (signal.Signals(-rc).name if rc < 0 else "status %d (exception)" % rc))
        return r[:-1]
