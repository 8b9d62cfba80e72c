"""C21: an interrupted electronic structure calculation continues where it stopped"""
import os
import re
from symx import core, shim
from symx.core import Unsupported
from symx.harness import Harness, _engine_error, harness_error
from checks import es_common as ec
from checks.es_common import E, JB, STEPS, Killed, Queue, read, write

PROPERTY = "C21"
EXPLANATION = ("The real workflow (reading of the state file, the steps, their input files, the parsing of the outputs and the recording of states) "
               "runs against a stand-in for the queue and the quantum chemistry programs; the point and kind of every failure or kill, the number "
               "of states, the verdict on the % singles and the content of the state file are symbolic, z3 decides which combinations are feasible.")
ASSUMPTIONS = ["a line appended to the state file is there completely or not at all", "the user gives the same answers after a restart",
               "the queue interface (partition and host name) of the server exists"]
OUTSIDE = ["the programs ACES2 and VIBRON", "two runs in one directory at the same time", "more restarts than stated"]

NAME = "h2o"
ORDER = STEPS + ["FINISHED"]


def setup(h, name="root", mol=NAME, params=ec.PARAMS, zmat=ec.ZMAT):
    root = os.path.dirname(h.path(name, "x"))
    write(os.path.join(root, mol + "_params.txt"), params)
    write(os.path.join(root, mol + "_zmat.txt"), zmat)
    return root


def recorded(root):
    p = os.path.join(root, E.name_of_state_file)
    return [x for x in read(p).split("\n") if x.strip()] if os.path.exists(p) else []


def session(h, root, q, nip, mol=NAME):
    """one run of the program; 'ok', 'error' or 'killed'"""
    with shim.patched(q.patches(ec.answers(nip))):
        try:
            job = E.VibronExecutionClass(mol, root)
            job.calculate_vibronic_model()
        except Unsupported:
            raise
        except Killed:
            return "killed"
        except Exception as e:  # noqa
            if (h.sym and _engine_error(e)) or harness_error(e):
                raise
            h.last = e
            return "error"
    return "ok"


FAILS = ["submit", "failed", "incomplete", "kill"]


def plan(done, nip, good):
    """the jobs still to do, and those which count as a step"""
    jobs = []
    for s in STEPS[done:]:
        if s == "IPEOMCC":
            n = nip
            while n > 0:
                jobs.append((s, n, good(n)))
                if good(n):
                    break
                n -= 1
            else:
                jobs.append((s, 0, False))
                return jobs
        else:
            jobs.append((s, None, True))
    return jobs


def body_sessions(h):
    """failures anywhere, then another run"""
    root = setup(h)
    nip = int(h.int("states", 1, h.p["nip"]))
    flags = {n: bool(h.bool("states %d good" % n)) for n in range(1, nip + 1)} if h.p["nip"] > 1 else {1: True}
    good = lambda n: n > 0 and flags[n]        # noqa
    final = next((n for n in range(nip, 0, -1) if flags[n]), 0)
    done = 0
    for k in range(h.p["sessions"]):
        at = int(h.int("failing job %d" % k, 0, h.p["last"])) if k < h.p["sessions"] - 1 or h.p["sessions"] == 1 else 99
        kinds = h.p.get("kinds", FAILS)
        kind = kinds[int(h.int("kind of failure %d" % k, 0, len(kinds) - 1))] if at < h.p["last"] else None
        q = Queue(root, NAME, lambda step, n: kind if n == at and kind != "kill" else None, good)
        todo = plan(done, nip, good)
        # what has to happen
        want, rec, end = [], [], "ok"
        for i, (s, n, ok) in enumerate(todo):
            if n == 0:
                end = "error"
                break
            want.append((s, n))
            if i == at and kind != "kill" and kind is not None:
                end = "error"
                break
            if not ok:
                continue
            if i == at and kind == "kill":
                end = "killed"
                q.kill = len(rec)
                break
            rec.append(s)
        old = recorded(root)
        got = session(h, root, q, nip)
        t = "run %d: " % k
        h.true(t + "outcome", got == end)
        jobs = [(s, n) for s, n, _, _ in q.jobs]
        h.true(t + "jobs", jobs == want)
        if jobs != want or got != end:
            h.notes[t + "jobs"] = "ran %s, expected %s" % (jobs, want)
            h.notes[t + "outcome"] = "%s, expected %s, %s" % (got, end, getattr(h, "last", ""))
            return
        now = recorded(root)
        new = now[len(old):]
        h.true(t + "earlier records are kept", now[:len(old)] == old)
        if end == "ok":
            h.true(t + "everything is recorded", new[:len(rec)] == rec and (done == 6 or now[-1] == "FINISHED") and set(new[len(rec):]) <= {"FINISHED"})
        else:
            h.true(t + "exactly the finished steps are recorded", new == rec)
        for s, n, text, p in q.jobs:
            check_input(h, t + s + ": ", s, n, text, p, root, final)
        done += len(rec)
    if end == "ok" and done == 6:
        q = Queue(root, NAME, lambda s, n: None, good)
        before = recorded(root)
        h.true("nothing is done again", session(h, root, q, nip) == "ok" and not q.jobs)
        h.true("nothing more is recorded", recorded(root) == before)


NEW = ec.ZMAT.replace("*", "").replace("R=0.95", "R=0.97").replace("A=104.5", "A=105.0")


def check_input(h, t, s, n, text, p, root, final, zmat=ec.ZMAT, new=NEW, basis="TZ2P", theory="CCSD", numbers={}):
    h.true(t + "input file", text is not None)
    if text is None:
        return
    h.true(t + "directory", p["work_dir"] == root)
    if s == "VIBRON":
        h.true(t + "number of states", text == "%6d   states\nrest\n" % final)
        return
    zm = zmat if s == "OPT" else new
    h.true(t + "geometry", text.startswith(zm + "\n*ACES2("))
    h.true(t + "basis", "BASIS=%s," % basis in text)
    h.true(t + "theory", ("CALC=%s," % ("SCF" if s == "NIP" else theory)) in text)
    if s in ("IPEOMCC", "PREPVIB"):
        h.true(t + "states", re.search(r"nip=(\d+)\s", text) is not None and int(re.search(r"nip=(\d+)\s", text).group(1)) == (n or final))
    if s == "PREPVIB":
        num = dict(GRID_VIBRON=3, CC_CONV=10, SCF_CONV=10, ESTATE_TOL=10, **{})
        num.update(numbers)
        for k, v in num.items():
            h.true(t + k, ("%s=%d," % (k, v)) in text)
    h.true(t + "kind of calculation", ("VIB=FINDIF" in text) == (s == "VIB") and ("IP_CALC=IP_EOMCC" in text) == (s in ("IPEOMCC", "PREPVIB"))
           and ("PREP_VIBRON=ON" in text) == (s == "PREPVIB"))


ZMAT2 = "other\nN\nH 1 R\nH 1 R* 2 B\n\nR=1.01\nB=107.5\n"
NEW2 = "other\nN\nH 1 R\nH 1 R 2 B\n\nR=1.02\nB=108.5\n"


def body_two(h):
    """two molecules in the same process, the first one is interrupted by the second"""
    theory = E.theory_list[int(h.int("theory", 0, 2))]
    ints = ["gridVibron", "ccConv", "scfConv", "estateTol", None]
    keys = {"gridVibron": "GRID_VIBRON", "ccConv": "CC_CONV", "scfConv": "SCF_CONV", "estateTol": "ESTATE_TOL"}
    extra = ints[int(h.int("number", 0, 4))]
    val = 4 + int(h.int("value", 0, 1)) * 8 if extra else 0
    twice = bool(h.bool("given twice")) if extra else False
    par = "theory\n%s\ncalculation\nIP\n# comment\nbasis\nDZP\n" % theory
    if extra:
        par += ("%s\n6\n" % extra) * twice + "%s\n%d\n" % (extra, val)
    ra = setup(h, "a")
    rb = setup(h, "b", "nh3", par, ZMAT2)
    at = int(h.int("failing job", 0, 6))
    na, nb = 2, 1
    A = dict(mol=NAME, root=ra, nip=na)
    B = dict(mol="nh3", root=rb, nip=nb)
    qa = Queue(ra, NAME, lambda s, n: "incomplete" if n == at else None)
    qb = Queue(rb, "nh3", lambda s, n: None, geometry="R=1.02\nB=108.5\n")
    qc = Queue(ra, NAME, lambda s, n: None)
    for k, (q, d) in enumerate(((qa, A), (qb, B), (qc, A))):
        got = session(h, d["root"], q, d["nip"], d["mol"])
        h.true("run %d: outcome" % k, got == ("error" if k == 0 and at < 6 else "ok"))
        if got == "error" and not (k == 0 and at < 6):
            h.notes["run %d: outcome" % k] = repr(h.last)
            return
    h.true("jobs of the second", [x[0] for x in qb.jobs] == STEPS)
    h.true("jobs of the first", [x[0] for x in qa.jobs] == STEPS[:at + 1] and [x[0] for x in qc.jobs] == STEPS[at:])
    for q in (qa, qc):
        for s, n, text, p in q.jobs:
            check_input(h, "first, %s: " % s, s, n, text, p, ra, na)
    for s, n, text, p in qb.jobs:
        check_input(h, "second, %s: " % s, s, n, text, p, rb, nb, ZMAT2, NEW2, "DZP", theory, {keys[extra]: val} if extra else {})


def body_resume(h):
    """the step is the one after the last recorded"""
    root = setup(h)
    words = ORDER + ["", "NONSENSE"]
    L = [words[int(h.int("line %d" % i, 0, len(words) - 1))] for i in range(int(h.int("lines", 0, h.p["lines"])))]
    tail = bool(h.bool("line feed at the end"))
    write(os.path.join(root, E.name_of_state_file), "\n".join(L) + ("\n" if tail and L else ""))
    last = next((x for x in reversed(L) if x), None)
    with h.no_exception("the state can be read"):
        job = E.VibronExecutionClass(NAME, root)
        job.parse_input_parameters()
    want = ORDER[0] if last not in ORDER else ORDER[min(ORDER.index(last) + 1, 6)]
    h.true("step to continue with", job.state is E.State[want])
    if not job.state is E.State[want]:
        h.notes["step to continue with"] = "%s, expected %s" % (job.state, want)


def body_given(h):
    """a given step is used whatever the file says; steps advance one by one"""
    root = setup(h)
    s = h.int("state", 1, 7)
    s = int(s)
    if h.bool("file"):
        write(os.path.join(root, E.name_of_state_file), "VIB\n")
    else:
        pass
    with h.no_exception("starts"):
        job = E.VibronExecutionClass(NAME, root, s)
        job.parse_input_parameters()
    h.true("given step", job.state is E.State(s))
    old = recorded(root)
    for k in range(s, 8):
        with h.no_exception("advances"):
            job.advance()
        h.true("next step", job.state is E.State(min(k + 1, 7)))
        new = recorded(root)[len(old):]
        h.true("recorded", new[:k - s + 1] == ORDER[s - 1:k] and set(new) <= set(ORDER[s - 1:k]))


def body_separate(h):
    """two calculations do not share parameters"""
    ra, rb = setup(h, "a"), setup(h, "b")
    i, j = int(h.int("theory", 0, 2)), int(h.int("basis", 0, 1))
    write(os.path.join(ra, NAME + "_params.txt"), "calculation\nIP\nbasis\n%s\ntheory\n%s\ngridVibron\n4\nDROPMO\nDROPMO=1\n" % (E.basis_list[j], E.theory_list[i]))
    fresh = dict(E.VibronExecutionClass.parameter_dictionary)
    early = bool(h.bool("second made first"))
    with h.no_exception("parameters can be read"):
        if early:
            b = E.VibronExecutionClass(NAME, rb)
        a = E.VibronExecutionClass("other", ra)
        a.parse_input_parameters(os.path.join(ra, NAME + "_params.txt"))
        a.parameter_dictionary["nip"] = 3
        if not early:
            b = E.VibronExecutionClass(NAME, rb)
        b.parse_input_parameters()
    want = dict(fresh, calculation="IP", basis="TZ2P", theory="CCSD")
    h.true("parameters of the second", b.parameter_dictionary == want)
    h.true("parameters of the first", a.parameter_dictionary["theory"] == E.theory_list[i] and a.parameter_dictionary["basis"] == E.basis_list[j]
           and a.parameter_dictionary["DROPMO"] == "DROPMO=1")
    h.true("defaults", E.VibronExecutionClass.parameter_dictionary == fresh)
    h.true("files of the first", a.file_in["zmat"] == "other_zmat.txt" and b.file_in["zmat"] == NAME + "_zmat.txt")


def body_parameters(h):
    """only known parameters with supported values are accepted"""
    root = setup(h)
    basis = ["DZP", "TZ2"][int(h.int("basis", 0, 1))]
    theory = ["MBPT(2)", "CCSD(T)", "HF", "CC"][int(h.int("theory", 0, 3))]
    calc = ["IP", "P"][int(h.int("calculation", 0, 1))]
    extra = ["", "# comment\n", "\n", "theo\nCCSD\n"][int(h.int("extra", 0, 3))]
    miss = int(h.int("missing", 0, 3))
    parts = ["basis\n%s\n" % basis, "theory\n%s\n" % theory, "calculation\n%s\n" % calc]
    if miss < 3:
        del parts[miss]
    if h.bool("other order"):
        parts.reverse()
    write(os.path.join(root, NAME + "_params.txt"), parts[0] + extra + "".join(parts[1:]))
    job = E.VibronExecutionClass(NAME, root)
    e = ec.raises(h, job.parse_input_parameters)
    ok = bool(basis == "DZP" and theory in ("MBPT(2)", "CCSD(T)") and calc == "IP" and (extra in ("", "\n") or extra.startswith("#")) and miss == 3)
    h.true("accepted exactly if everything is valid", (e is None) == ok)
    if e is None and ok:
        d = job.parameter_dictionary
        h.true("values", d["basis"] == basis and d["theory"] == theory and d["calculation"] == calc)


def harnesses(tier):
    def mk(nm, body, tier="quick", **p):
        return Harness(nm, body, lambda h: [], params=p, bounds=p, tier=tier, points=6)
    return [mk("one_failure", body_sessions, sessions=2, nip=2, last=8), mk("two_failures", body_sessions, sessions=3, nip=1, last=6, kinds=["incomplete", "kill"]),
            mk("resume", body_resume, lines=2), mk("given_state", body_given), mk("separate", body_separate), mk("two_molecules", body_two), mk("parameters", body_parameters),
            mk("resume_long", body_resume, tier="thorough", lines=4), mk("three_failures", body_sessions, tier="thorough", sessions=4, nip=1, last=6),
            mk("two_failures_states", body_sessions, tier="thorough", sessions=3, nip=3, last=9)]
