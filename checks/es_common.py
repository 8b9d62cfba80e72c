"""Shared by the checks of the electronic structure workflow: a stand-in for the queue and the ACES2/VIBRON programs"""
import builtins
import os
import re
import signal
import subprocess
import time
from symx import core, shim
from symx.core import Unsupported
from symx.harness import _engine_error, harness_error
from pibronic.vibronic import electronic_structure as E
from pibronic.server import job_boss as JB

DONE = "The ACES2 program has completed successfully in 10 seconds\n"
STEPS = ["OPT", "NIP", "VIB", "IPEOMCC", "PREPVIB", "VIBRON"]
PARAMS = "# comment\ncalculation\nIP\n\nbasis\nTZ2P\n\ntheory\nCCSD\n"
ZMAT = "title\nO\nH 1 R*\nH 1 R* 2 A\n\nR=0.95\nA=104.5\n"


class Killed(BaseException):
    """the process ends here"""


def write(path, text):
    with open(path, "w") as f:
        f.write(text)


def read(path):
    with open(path) as f:
        return f.read()


def raises(h, f, *a, **k):
    """the exception of a call, None if there is none"""
    try:
        f(*a, **k)
    except Unsupported:
        raise
    except Exception as e:  # noqa
        if (h.sym and _engine_error(e)) or harness_error(e):
            raise
        return e
    return None


class Queue:
    """runs the submitted calculations; what goes wrong is decided by the caller

    fail(step, n) -> None or one of 'submit', 'failed', 'incomplete' for the n-th job of this session
    """

    def __init__(self, root, name, fail, good=lambda n: True, geometry="R=0.97\nA=105.0\n"):
        self.root, self.name, self.fail, self.good, self.geometry = root, name, fail, good, geometry
        self.jobs, self.state, self.n, self.id = [], {}, 0, 100
        self.writes, self.kill = 0, None

    def step(self, file_name):
        for s, p in (("OPT", r"_opt\.in$"), ("NIP", r"_hartree_fock_nip\.in$"), ("VIB", r"_vib\.in$"), ("PREPVIB", r"_prepvib\.in$"),
                     ("VIBRON", r"_vibron\.in$")):
            if re.search(p, file_name):
                return s, None
        m = re.search(r"_eomcc_ip_(\d+)\.in$", file_name)
        if m:
            return "IPEOMCC", int(m.group(1))
        raise Unsupported("job %r" % file_name)

    def submit(self, p):
        step, nip = self.step(p["file_name"])
        why = self.fail(step, self.n)
        self.n += 1
        self.id += 1
        path = os.path.join(p["work_dir"], p["file_name"])
        self.jobs.append((step, nip, read(path) if os.path.isfile(path) else None, p))
        if why == "submit":
            raise Exception("sbatch: error")
        self.state[self.id] = "FAILED" if why == "failed" else "COMPLETED"
        write(os.path.join(self.root, "slurm-%d.out" % self.id), "job\nFinished\n")
        out = lambda e: os.path.join(self.root, self.name + e)      # noqa
        end = DONE if why is None else "error\n" * 12
        if why == "failed":
            return self.id
        if step == "OPT":
            write(out("_opt.out0"), "x\nSummary of optimized internal coordinates\n----\n" + self.geometry + "\nmore\n" + end)
        elif step == "NIP":
            write(out("_hartree_fock_nip.out0"), "ORBITAL EIGENVALUES (ALPHA)\n1\n2\n3\n" + "".join(
                "%d %d x %f y z\n" % (i, i, e) for i, e in enumerate((-500., -40., -20., -10.))) + "+" * 60 + "\n" + end)
        elif step == "VIB":
            write(out("_vib.out0"), "x\n" + end)
        elif step == "IPEOMCC":
            write(out("_eomcc_ip_%d.out0" % nip), "Summary of ionization-potential eom-cc calculation\n1\n2\n3\n4\n" + "".join(
                "%d 1 x y %f z w\n" % (i, 95.0 if self.good(nip) or i else 50.0) for i in range(nip)) + "\n" + end)
        elif step == "PREPVIB":
            for e in ("_prepvib.pntheff", "_prepvib.vibronic_coupling"):
                write(out(e), "HEFF_0\n1\nHEFF_IP2\n2\n")
            if why is None:
                write(out("_prepvib.vibron_input"), "xxx      states\nrest\n")
                write(os.path.join(self.root, "fcmfinal"), "1\n")
            else:
                for f in (out("_prepvib.vibron_input"), os.path.join(self.root, "fcmfinal")):
                    if os.path.exists(f):
                        os.remove(f)
        else:
            write(out("_vibron.out0"), "x\n" + ("All done in main_vibron\n" if why is None else "error\n" * 12))
        return self.id

    def open(self, path, mode="r", *a, **k):
        """the process may end just before a step is recorded"""
        if "a" in mode or "+" in mode or ("w" in mode and self.n) if os.path.basename(str(path)) == E.name_of_state_file else False:
            if self.kill is not None and self.writes == self.kill:
                raise Killed()
            self.writes += 1
        return open(path, mode, *a, **k)

    def patches(self, answers):
        def run(*a, **k):
            raise Unsupported("subprocess")
        return [(E, "submit_job", self.submit), (JB, "partition", "serial"), (JB, "hostname", "nlogn"), (time, "sleep", lambda s: None),
                (JB, "synchronize_with_job", lambda *a, **k: None), (JB, "check_acct_state", lambda i: " %s \n" % self.state[i]),
                (JB, "get_hostname", lambda: "nlogn"), (builtins, "input", answers), (E, "open", self.open), (signal, "signal", lambda *a: None),
                (subprocess, "run", run), (subprocess, "Popen", run)]


def answers(nip):
    """the user insists on a number of states"""
    def ask(message=""):
        if "Please provide" in message:
            return str(nip)
        return "n" if "guessed" in message else "y"
    return ask
