"""C23: a calculation counts as finished only if the queueing system and its output say so"""
import os
import re
import signal
import subprocess
import threading
import time
from symx import core, shim
from symx.core import Unsupported
from symx.harness import Harness, Stop, _engine_error, harness_error
from checks import es_common as ec
from checks.es_common import E, JB, write

PROPERTY = "C23"
EXPLANATION = ("The real synchronisation code runs against a stand-in for SLURM and for signals; every answer of the queueing system, the arrival of the "
               "signal and the lines of the output file are symbolic choices, z3 decides which sequences are feasible and the outcome is compared "
               "with the specified one for each.")
ASSUMPTIONS = ["scontrol prints the state of the job on stdout, or a message on stderr", "signals arrive where the code waits for them"]
OUTSIDE = ["longer sequences of answers than stated", "a scontrol which prints both a state and an error"]


class Endless(BaseException):
    """the code still polls after all answers"""


class Slurm:
    def __init__(self, answers, acct=""):
        self.answers, self.acct, self.i, self.log = answers, acct, 0, []

    def run(self, cmd, *a, **k):
        words = cmd.split() if isinstance(cmd, str) else [str(x) for x in cmd]
        if words[0] == "scontrol" and any(w.startswith("job") for w in words):
            if self.i >= len(self.answers):
                raise Endless()
            out, err = self.answers[self.i]
            self.i += 1
            self.log.append(("poll", words[-1]))
            return ec_done(out, err)
        if words[0] == "sacct":
            m = re.search(r"\s(?:-j|--jobs?)[ =]*(\S+)", " ".join(words))
            self.log.append(("acct", m.group(1) if m else None))
            return ec_done(self.acct, "")
        raise Unsupported("command %r" % cmd)

    def wait(self, sigs):
        self.log.append(("wait", tuple(sorted(int(s) for s in sigs))))
        self.locked = JB.job_state_lock.locked()
        return signal.SIGUSR1

    def sleep(self, s):
        self.log.append(("sleep", s))

    def patches(self, flag):
        return [(subprocess, "run", self.run), (subprocess, "Popen", self.run), (signal, "sigwait", self.wait), (time, "sleep", self.sleep),
                (signal, "alarm", lambda s: self.log.append(("alarm", s))), (JB, "job_almost_done_flag", flag), (JB, "job_state_lock", threading.Lock())]


def ec_done(out, err):
    from checks.server_common import Done
    return Done(out, err, 1 if err else 0)


ANS = {"running": ("JobState=RUNNING\n", ""), "done": ("JobId=1\n JobState=COMPLETED Reason=None\n", ""), "error": ("", "slurm_load_jobs error\n"),
       "completing": ("JobState=COMPLETING Reason=None\n", "")}


def body_sync(h):
    n = h.p["n"]
    keys = ["running", "done", "error", "completing"]
    seq = [keys[int(h.int("answer %d" % i, 0, 3))] for i in range(n)]
    flag = bool(h.bool("signal came before"))
    job = [4711, 12345678][int(h.int("job", 0, 1))]
    s = Slurm([ANS[k] for k in seq])
    e = None
    with shim.patched(s.patches(flag)):
        try:
            JB.synchronize_with_job(job, "test")
            got = "done"
        except Endless:
            got = "waiting"
        except Unsupported:
            raise
        except Exception as x:  # noqa
            if (h.sym and _engine_error(x)) or harness_error(x):
                raise
            got = "error"
        free = not JB.job_state_lock.locked()
    # the first answer only tells whether the job is known
    if seq[0] == "error":
        want = "error"
    else:
        want = next(({"done": "done", "error": "error"}[k] for k in seq[1:] if k not in ("running", "completing")), "waiting")
    h.true("outcome", got == want)
    h.notes["outcome"] = "%s after %s, expected %s" % (got, seq, want)
    h.true("the job is the given one", all(x[1] == str(job) for x in s.log if x[0] == "poll"))
    waits = [x for x in s.log if x[0] == "wait"]
    h.true("waits for the signal only if it has not come yet", len(waits) == (0 if flag or seq[0] == "error" else 1))
    if waits:
        h.true("signal or alarm", waits[0][1] == tuple(sorted((int(signal.SIGUSR1), int(signal.SIGALRM)))))
        h.true("the signal is waited for before the state is asked for again", [x[0] for x in s.log[:2]] == ["poll", "wait"])
    h.true("the lock is released", free)
    polls = [i for i, x in enumerate(s.log) if x[0] == "poll"]
    h.true("the state is not asked for without a pause", all(any(x[0] == "sleep" and x[1] > 0 for x in s.log[a:b]) for a, b in zip(polls[1:], polls[2:])))


def body_handler(h):
    """the signal is remembered, also while the lock is held"""
    held = bool(h.bool("lock is held"))
    s = Slurm([])
    with shim.patched(s.patches(False)):
        if held:
            JB.job_state_lock.acquire()
        with h.no_exception("signal"):
            JB.SIGUSR1_handle(signal.SIGUSR1, None)
        h.true("remembered", JB.job_almost_done_flag is True)
        h.true("wakes up the waiting code", (("alarm" in [x[0] for x in s.log]) == held))
        h.true("the lock is as before", JB.job_state_lock.locked() == held)


STATES = ["COMPLETED", "FAILED", "RUNNING", "CANCELLED+", "TIMEOUT", "COMPLETING", ""]


def body_wait(h):
    """no calculation is used that has not completed"""
    n = int(h.int("lines", 0, h.p["n"]))
    L = [STATES[int(h.int("state %d" % i, 0, len(STATES) - 1))] for i in range(n)]
    s = Slurm([ANS["running"], ANS["error" if h.bool("error") else "done"]], "".join(" %s \n" % x for x in L))
    with shim.patched(s.patches(True)):
        e = ec.raises(h, E.wait_on_results, 12, "test")
    ok = s.answers[1] is ANS["done"] and "COMPLETED" in L and "FAILED" not in L
    h.true("returns exactly if the job has completed", (e is None) == ok)
    h.true("the job is the given one", all(x[1] == "12" for x in s.log if x[0] in ("poll", "acct")))
    h.true("the record is read after the job has ended", [x[0] for x in s.log].index("acct") > 1 if ("acct", "12") in s.log else e is not None)


LINES = ["Finished", "SIGSEGV", "Killed", "Exceeded step memory limit", "text"]


def body_output(h):
    """errors in the output of the queueing system"""
    root = os.path.dirname(h.path("root", "x"))
    has = [bool(h.bool(x)) for x in LINES]
    order = list(zip(LINES, has))
    if h.bool("other order"):
        order.reverse()
    pre = ["", "job: "][int(h.int("prefix", 0, 1))]
    jobs = (1, 12, 2, 10000002, 123456789)
    ident = jobs[int(h.int("job", 0, 4))]
    for i in jobs:     # outputs of other jobs
        write(os.path.join(root, "slurm-%d.out" % i), "Finished\nKilled\n" if i != ident else "".join("%s%s.\n" % (pre, x) for x, y in order if y))
    with shim.patched(Slurm([]).patches(False)):
        e = ec.raises(h, JB.check_slurm_output, root, ident)
    fin, seg, kill, mem, _ = has
    if not fin:
        h.true("an unfinished output is no error", e is None)
    elif seg or (kill and mem):
        h.true("a memory error", isinstance(e, MemoryError))
    elif kill:
        h.true("an error", e is not None and not isinstance(e, MemoryError))
    else:
        h.true("no error", e is None)
    os.remove(os.path.join(root, "slurm-%d.out" % ident))
    with shim.patched(Slurm([]).patches(False)):
        h.true("a missing output is an error", ec.raises(h, JB.check_slurm_output, root, ident) is not None)


def body_host(h):
    """the name of the cluster"""
    names = ["nlogn", "feynman", "graham", "x-1"]
    at = int(h.int("line", 0, 3))
    name = names[int(h.int("name", 0, 3))]
    sp = " " * int(h.int("blanks", 0, 2))
    L = ["Configuration data", "ClusterUser = a", "SlurmctldHost = b"]
    if at < 3:
        L.insert(at + 1, "ClusterName%s=%s%s%s" % (sp, sp, name, sp))

    def run(cmd, *a, **k):
        return ec_done("\n".join(L) + "\n", "")
    with shim.patched([(subprocess, "run", run)]):
        if at < 3:
            with h.no_exception("name"):
                h.true("name", JB.get_hostname() == name)
        else:
            h.true("an error without a name", ec.raises(h, JB.get_hostname) is not None)
    part = ["serial", "missing", None, "highmem2", "serial_long", "highmem", "Serial", "serialhighmem"][int(h.int("partition", 0, 7))]

    def run2(cmd, *a, **k):
        return ec_done("PARTITION\nserial\nhighmem\n", "")
    with shim.patched([(subprocess, "run", run2)]):
        h.true("unknown partitions are refused", (ec.raises(h, JB.assert_partition_exists, part) is None) == (part in ("serial", "highmem")))


def harnesses(tier):
    def mk(nm, body, tier="quick", **p):
        return Harness(nm, body, lambda h: [], params=p, bounds=p, tier=tier, points=6)
    return [mk("synchronise", body_sync, n=4), mk("signal", body_handler), mk("wait", body_wait, n=2), mk("output", body_output), mk("host", body_host),
            mk("synchronise_long", body_sync, tier="thorough", n=6), mk("wait_long", body_wait, tier="thorough", n=4)]
