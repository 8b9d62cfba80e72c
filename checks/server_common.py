"""Shared by the checks of job submission: a stand-in for SLURM"""
import os
import re
import subprocess
import types
import z3
from symx import core, shim, strings
from symx.core import Unsupported, ZInt
from pibronic.server import job_boss as JB
from pibronic.pimc import pimc as M
from pibronic.data.file_structure import FileStructure

HOSTS = ["nlogn", "feynman", "graham", "orca"]


class Done:
    """what subprocess.run returns"""

    def __init__(self, out="", err="", code=0):
        self.stdout, self.stderr, self.returncode = out, err, code

    def check_returncode(self):
        if self.returncode:
            raise subprocess.CalledProcessError(self.returncode, "sbatch")


class Slurm:
    """records what is submitted; nothing is executed"""

    def __init__(self, host="nlogn", fail_at=None):
        self.host, self.jobs, self.fail_at = host, [], fail_at
        self.failure = ("", "sbatch: error", 1)

    def run(self, cmd, *a, **k):
        text = cmd if isinstance(cmd, str) else " ".join(map(str, cmd))
        if text.startswith("scontrol show config"):
            return Done("Configuration data\nClusterName             = %s\nx = y\n" % self.host)
        if text.startswith("sinfo"):
            return Done("PARTITION\ndefault\n" if self.host in ("graham", "orca") else "PARTITION\nhighmem\nserial\nspecial\n")
        if text.startswith("sbatch"):
            if self.fail_at is not None and len(self.jobs) == self.fail_at:
                return Done(*self.failure)
            self.jobs.append(text)
            return Done("Submitted batch job %d\n" % (100 + len(self.jobs)))
        raise Unsupported("command %r" % text[:60])

    def popen(self, *a, **k):
        raise Unsupported("subprocess.Popen")

    def patches(self):
        return [(subprocess, "run", self.run), (subprocess, "Popen", self.popen), (JB.time, "sleep", lambda s: None)]


def sh_min(*a):
    xs = list(a[0]) if len(a) == 1 else list(a)
    r = xs[0]
    for x in xs[1:]:
        if x < r:
            r = x
    return r


def patches(h):
    js = shim.JsonShim()
    return [(JB, "isinstance", shim.sh_isinstance), (M, "json", js), (M, "isinstance", shim.sh_isinstance), (M, "type", sh_type)]


def sh_type(x, *a):
    if a:
        return type(x, *a)
    if isinstance(x, (core.Sym, core.ZReal)):
        return float
    if isinstance(x, ZInt):
        return int
    return type(x)


def write(path, text):
    with open(path, "w") as f:
        f.write(text)


def structure(h, name="root"):
    r = os.path.dirname(h.path(name, "x"))
    D, R = h.int(name + " D", 0, 99), h.int(name + " R", 0, 99)
    FS = FileStructure(r, D, R)
    write(FS.path_vib_model, "model of " + name)
    write(FS.path_rho_model, "sampling model of " + name)
    return FS


def parameters(text):
    m = re.search(r"EXECUTION_PARAMETERS='([^']*)'", text)
    return m.group(1) if m else None


def option(text, name):
    m = re.search(r"(?:^|[ ,=])%s=?\s*(\"[^\"]*\"|[^ ,]+)" % re.escape(name), text)
    return m.group(1).strip('"') if m else None
