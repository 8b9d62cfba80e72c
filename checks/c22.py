"""C22: geometry, number of states and couplings are taken from the outputs of the calculations as they are"""
import builtins
import enum
import mmap
import os
import re
import types
from symx import core, shim
from symx.core import Unsupported
from symx.shim import comb
from symx.harness import Harness
from checks import es_common as ec
from checks.es_common import E, JB, read, write

PROPERTY = "C22"
EXPLANATION = ("The real readers run on output files written by the harness, in which the numbers are symbolic and the presence, number and order of "
               "lines are symbolic choices; z3 decides the comparisons with the cutoff and whether any number or line can differ from the expected one.")
ASSUMPTIONS = ["numpy converts the printed numbers to the nearest double"]
OUTSIDE = ["the number of states suggested to the user", "output formats other than those the code was written for",
           "longer files than stated", "outputs of at most ten lines which report success in the first line"]


def patches(h):
    return [(E, "np", shim.NPShim()), (E, "float", shim.sh_float)]


def number(h, x):
    return core.token_of(x, "es") if h.sym else repr(float(x))


def vibron(h, zmat):
    root = os.path.dirname(h.path("root", "x"))
    write(os.path.join(root, "m_zmat.txt"), zmat)
    job = E.VibronExecutionClass("m", root)
    with h.no_exception("the geometry can be read"):
        job.setup_zmat()
    return job


def body_internal(h):
    """internal coordinates"""
    n = int(h.int("coordinates", 1, h.p["n"]))
    names = ["R", "A", "RX1"][:n]
    old = {k: number(h, h.real("old " + k)) for k in names}
    star = [bool(h.bool("optimise " + k)) for k in names]
    sp = " " if h.bool("blanks around =") else ""
    rel = "title\nO\n" + "".join("H %d %s%s\n" % (i + 1, k, "*" if star[i] else "") for i, k in enumerate(names))
    job = vibron(h, rel + "\n" + "".join("%s%s=%s%s\n" % (k, sp, sp, old[k]) for k in names) + ("\n" if h.bool("blank line at the end") else ""))

    def expect(vals, opt):
        return (rel if opt else rel.replace("*", "")) + "\n" + "".join("%s=%s\n" % (k, vals[k]) for k in names) + "\n"
    h.true("kind", job.zmat.kind == "internal")
    h.true("geometry to optimise", job.zmat.get(opt_zmat=True) == expect(old, True))
    h.true("geometry", job.zmat.get() == expect(old, False))
    moved = [k for k in names if h.bool("moved " + k)]
    new = dict(old)
    for k in moved:
        new[k] = number(h, h.real("new " + k))
    rev = list(reversed(moved)) if h.bool("other order") else moved
    end = bool(h.bool("end of the file"))
    write(os.path.join(job.path_root, "m_opt.out0"), "text\nR = 17\n Summary of optimized internal coordinates\n  -----\n"
          + "".join("  %s  =   %s \n" % (k, new[k]) for k in rev) + ("" if end else "\nA = 3\n\nlast\n"))
    with h.no_exception("the optimised geometry can be read"):
        with shim.patched([(E.mmap, "mmap", limited(h))]):
            E.parse_opt_output(job)
    h.true("optimised geometry", job.zmat.get() == expect(new, False))
    h.true("optimised geometry to optimise", job.zmat.get(opt_zmat=True) == expect(new, True))


REAL = mmap.mmap


class Limited(REAL):
    """reading beyond the end again and again is an endless loop"""

    def readline(self):
        self.count = getattr(self, "count", 0) + 1
        if self.count > 10000:
            raise RuntimeError("endless loop")
        return REAL.readline(self)


def limited(h):
    return Limited


def body_cartesian(h):
    n, m = int(h.int("lines", 1, h.p["n"])), int(h.int("atoms", 1, h.p["n"] + 1))
    atoms = ["%s %s %s %s" % ((s,) + tuple(number(h, h.real("%s%d%s" % (s, i, c))) for c in "xyz")) for i, s in enumerate("OHHC"[:n])]
    title = bool(h.bool("title"))
    text = ("title\n" if title else "") + "\n".join(atoms) + ("\n" if h.bool("line feed") else "")
    job = vibron(h, text)
    h.true("kind", job.zmat.kind == "cartesian")
    h.true("geometry", [x for x in job.zmat.get().split("\n") if x] == text.split("\n")[:n + title])
    h.true("a blank line ends the geometry", job.zmat.get().endswith("\n\n"))
    h.true("same for an optimisation", job.zmat.get(opt_zmat=True) == job.zmat.get())
    new = ["%s %s %s %s" % ((s,) + tuple(number(h, h.real("new %s%d%s" % (s, i, c))) for c in "xyz")) for i, s in enumerate("OHHCN"[:m])]
    write(os.path.join(job.path_root, "m_opt.out0"), "text\n Summary of optimized Cartesian coordinates (Ang)\n  -----\n"
          + "".join("  " + x.replace(" ", "    ") + "\n" for x in new) + ("" if h.bool("end of the file") else "\nother\n"))
    before = job.zmat.get()
    total = n + title
    with shim.patched([(E.mmap, "mmap", limited(h))]):
        e = ec.raises(h, E.parse_opt_output, job)
    h.true("refused exactly if there are more atoms than before", (e is not None) == (m > total))
    h.notes["refused exactly if there are more atoms than before"] = repr(e)
    if e is not None:
        h.true("geometry is left alone", job.zmat.get() == before)
        return
    want = (["title"] if title else []) + atoms
    want[total - m:] = new
    h.true("new geometry", [x.split() for x in job.zmat.get().split("\n") if x] == [x.split() for x in want])
    h.true("a blank line ends the new geometry", job.zmat.get().endswith("\n\n"))


def body_singles(h):
    """all % singles have to be above the cutoff"""
    job = vibron(h, "O 0 0 0\n")
    n = int(h.int("states", 1, h.p["n"]))
    job.parameter_dictionary = dict(job.parameter_dictionary, nip=n)
    if h.bool("other cutoff"):
        job.singles_cutoff = 80.5
    cut = job.singles_cutoff
    p = [h.real("p%d" % i, 70.0, 100.0) for i in range(n)]
    end = ["\n10 1 1 1 1.0 1 1\n", " -----------\n10 1 1 1 1.0 1 1\n", ""][int(h.int("end", 0, 2))]
    path = os.path.join(job.path_root, "m_eomcc_ip_%d.out0" % n)
    write(path, "1 1 1 1 2.0 1\n Summary of ionization-potential eom-cc calculation\n1 1 1 1 3.0 1 1\n3\n4\n5\n"
          + "".join("  %d  1  0.1  0.2  %s  0.3 0.4\n" % (i, number(h, x)) for i, x in enumerate(p)) + end)
    with shim.patched([(E.mmap, "mmap", limited(h))]), h.no_exception("the output can be read"):
        got = bool(E.parse_ip_output(job))
    ok = all([bool(x > cut) for x in p])
    h.true("accepted exactly if all are above the cutoff", got == ok)
    os.remove(path)
    h.true("a missing output is an error", ec.raises(h, E.parse_ip_output, job) is not None)


def body_completed(h):
    """a calculation is complete if one of the last ten lines says so"""
    root = os.path.dirname(h.path("root", "x"))
    n = [2, 10, 11, 13][int(h.int("length", 0, 3))]
    at = int(h.int("line", 1, 13))
    h.assume(at <= n)
    path = os.path.join(root, "m_vibron.out0")
    aces = bool(h.bool("aces"))
    msg = ("  The ACES2 program has completed successfully in  12 s" if aces else " All done in main_vibron !")
    L = [msg if i == at else "text" for i in range(n)]
    write(path, "\n".join(L) + ("\n" if h.bool("line feed") else ""))
    text = read(path)
    slurm = int(h.int("slurm", 0, 1))

    def check(*a):
        if slurm:
            raise MemoryError("memory")
    ok = at < n and at >= n - 10
    with shim.patched([(JB, "check_slurm_output", check)]):
        if aces:
            e = ec.raises(h, E.verify_aces2_completed, root, path, 7)
            if e is not None and slurm:
                h.true("the reason is reported", isinstance(e, MemoryError))
        else:
            job = types.SimpleNamespace(file_out={"vibron": "m_vibron.out0"}, path_root=root)
            e = ec.raises(h, E.parse_vibron_output, job)
    h.true("accepted exactly if complete", (e is None) == ok)
    h.true("the file is left alone", read(path) == text)


WORDS = ["HEFF_0 1\n", "1.0 2.0\n", "  HEFF_IP2 1\n", "HEFF_IP2\n", "\n"]


def body_heff(h):
    """only the part from the line with the target on is kept"""
    root = os.path.dirname(h.path("root", "x"))
    n = int(h.int("lines", 1, h.p["n"]))
    L = [WORDS[int(h.int("line %d" % i, 0, len(WORDS) - 1))] for i in range(n)]
    text = "".join(L)
    if not text:
        return
    job = E.VibronExecutionClass("m", root)
    job.parameter_dictionary = dict(job.parameter_dictionary, nip=1)
    write(os.path.join(root, "m_prepvib.pntheff"), text)
    write(os.path.join(root, "m_prepvib.vibronic_coupling"), "HEFF_IP2\n")
    write(os.path.join(root, "m_prepvib.vibron_input"), " xxx     1\n")
    at = next((i for i, x in enumerate(L) if "HEFF_IP2" in x), None)
    e = ec.raises(h, E.parse_prepVibron_output, job)
    h.true("an error exactly if there is none", (e is None) == (at is not None))
    h.true("the output is left alone", read(os.path.join(root, "m_prepvib.pntheff")) == text)
    if e is None and at is not None:
        h.true("content", read(os.path.join(root, "PNTHEFF")) == "".join(L[at:]))


def body_prep(h):
    """the input of vibron comes from the output of the preparation"""
    root = os.path.dirname(h.path("root", "x"))
    nip = int(h.int("states", 1, h.p["nip"]))
    job = E.VibronExecutionClass("m", root)
    job.parameter_dictionary = dict(job.parameter_dictionary, nip=nip)
    pre = int(h.int("lines before", 0, 2))
    miss = int(h.int("missing", 0, 6))
    names = ["m_prepvib.pntheff", "m_prepvib.vibronic_coupling", "m_prepvib.vibron_input"]
    x = [number(h, h.real("x%d" % i)) for i in range(6)]
    body = ["HEFF_0\n%s\n" % x[0] * pre + "%sHEFF_IP2\n%s\n" % ("" if miss != 3 else "#", x[1]), "HEFF_0\n%s\n" % x[2] * pre + " HEFF_IP2\n%s\n" % x[3],
            "a\n" * pre + " %s      ! states\n%s\n%s\n" % ("xxx" if miss != 5 else "yyy", x[4], x[5])]
    if miss == 4:
        body[1] = body[1].replace("HEFF_IP2", "HEFF_IP")
    for i, n in enumerate(names):
        if miss != i:
            write(os.path.join(root, n), body[i])
    if h.bool("files of an earlier run"):
        for n in ("PNTHEFF", "cp.auto", "m_vibron.in"):
            write(os.path.join(root, n), "HEFF_0\n old HEFF_IP2\n xxx     7\n" + "old\n" * 5)
    e = ec.raises(h, E.parse_prepVibron_output, job)
    h.true("an error exactly if something is missing", (e is not None) == (miss in (0, 1, 2, 4, 5)))
    for i, n in enumerate(names):
        if miss != i:
            h.true("%s is left alone" % n, read(os.path.join(root, n)) == body[i])
    if e is not None:
        return
    h.true("PNTHEFF", read(os.path.join(root, "PNTHEFF")) == ("#" if miss == 3 else "") + "HEFF_IP2\n%s\n" % x[1])
    h.true("couplings", read(os.path.join(root, "cp.auto")) == " HEFF_IP2\n%s\n" % x[3])
    want = "a\n" * pre + " %6d   ! states\n%s\n%s\n" % (nip, x[4], x[5])
    h.true("input of vibron", read(os.path.join(root, "m_vibron.in")) == want)


def body_lines(h):
    """moving by lines"""
    root = os.path.dirname(h.path("root", "x"))
    from pibronic import helper
    n = h.p["n"]
    s = "".join("\n" if h.bool("line feed %d" % i) else "a" for i in range(n)).encode()
    k, start = int(h.int("k", 0, h.p["k"])), int(h.int("start", 0, n))
    path = os.path.join(root, "f")
    with open(path, "wb") as f:
        f.write(s)
    before = [i for i in range(start) if s[i:i + 1] == b"\n"]
    after = [i for i in range(start + 1, n) if s[i:i + 1] == b"\n"]
    back = start if k == 0 or not before else before[max(len(before) - k, 0)]
    fwd = start if k == 0 or not after else after[min(k, len(after)) - 1]
    with open(path, "r+b") as f, mmap.mmap(f.fileno(), 0, prot=mmap.PROT_READ) as mm:
        with h.no_exception("moving"):
            h.true("back", E.skip_back_n_lines(mm, k, start) == back and helper.skip_back_lines(mm, k, start) == back)
            h.true("forward", E.skip_forward_n_lines(mm, k, start) == fwd and helper.skip_forward_lines(mm, k, start) == fwd)
        for m in (E, helper):
            e = ec.raises(h, m.find_string_in_file, mm, path, "\n")
            h.true("found exactly if it is there", (e is None) == (b"\n" in s))
            if e is None:
                h.true("first occurrence", m.find_string_in_file(mm, path, "\n") == s.find(b"\n"))
                h.true("last occurrence", m.rfind_string_in_file(mm, path, "\n") == s.rfind(b"\n"))


# the program can do without the number of dropped orbitals; its estimate is reached through the state meant for it
STATES = enum.Enum("State", ["DROPMO"] + [x.name for x in E.State])


def estimate(h, root, kind, parameters, ask):
    """what the program reads from the output of a calculation of the orbitals"""
    job = E.VibronExecutionClass("m", root)
    job.parameter_dictionary = dict(job.parameter_dictionary, **parameters)
    with shim.patched([(builtins, "input", ask), (E, "State", STATES)]):
        E.parse_hartree_fock_output(job, STATES[kind])
    return job.parameter_dictionary[{"NIP": "nip"}.get(kind, kind)]


def body_orbitals(h):
    """the user's number of dropped orbitals is used"""
    root = os.path.dirname(h.path("root", "x"))
    n = h.p["n"]
    # the gaps get smaller and smaller
    ev, gap = [1.0], 1.1
    for i in range(n - 1):
        ev.append(ev[-1] * gap)
        gap += 0.1
    ev = [-e for e in reversed(ev)]
    for p in ("m_hartree_fock_dropmo.out0", "m_hartree_fock_nip.out0"):
        write(os.path.join(root, p), "x\nORBITAL EIGENVALUES (ALPHA)\n1\n2\n3\n" + "".join("%d %d %.8f %.12f A\n" % (i, i, e / 27, e) for i, e in enumerate(ev)) + "+" * 50 + "\nx\n")
    d = int(h.int("dropped", 0, n - 3))
    asked = []

    def ask(m=""):
        asked.append(m)
        if "guessed that dropmo" in m:
            return "n"
        if "alternative" in m:
            return str(d)
        return "y"
    with h.no_exception("orbitals can be chosen"):
        s = estimate(h, root, "DROPMO", {}, ask)
    h.true("dropped orbitals", s == ("" if d == 0 else "DROPMO=1" if d == 1 else "DROPMO=1-%d" % d))
    got = []
    with h.no_exception("states can be chosen"):
        for t in ("", s):
            got.append(estimate(h, root, "NIP", {"DROPMO": t}, ask))
    h.true("every dropped orbital is left out", got[1] == got[0] - d)


def body_suggestion(h):
    """the orbitals suggested are those below the largest relative gap"""
    root = os.path.dirname(h.path("root", "x"))
    path = os.path.join(root, "m_hartree_fock_dropmo.out0")
    n = h.p["n"]
    ev = [h.real("e%d" % i, -50.0 / (i + 1) ** 2 - 1, -50.0 / (i + 2) ** 2 - 1) for i in range(n)]
    for e in ev:
        h.assume(e <= -1)
    for a, b in zip(ev, ev[1:]):
        h.assume(a < b)
    write(path, "x\nORBITAL EIGENVALUES (ALPHA)\n1\n2\n3\n" + "".join("%d %d 0.5 %s A\n" % (i, i, number(h, e)) for i, e in enumerate(ev)) + "+" * 50 + "\nx\n")
    with h.no_exception("orbitals can be suggested"):
        s = estimate(h, root, "DROPMO", {}, lambda m="": "y")
    m = re.match(r"DROPMO=1(?:-(\d+))?$", s)
    h.true("a number", m is not None)
    k = int(m.group(1) or 1)
    h.true("number of orbitals", 1 <= k < n)
    for i in range(n - 1):
        h.true("largest gap", ev[k - 1] / ev[k] >= ev[i] / ev[i + 1])


def body_answers(h):
    """prompts are repeated until the answer can be used"""
    words = ["x", "", "-3", "2", "7", "0"]
    seq = [words[int(h.int("answer %d" % i, 0, len(words) - 1))] for i in range(h.p["n"])] + ["5"]
    it = iter(seq)
    with shim.patched([(builtins, "input", lambda m="": next(it))]), h.no_exception("a number is asked for"):
        got = E.get_integer_from_user("number")
    want = next(int(w) for w in seq if w not in ("x", "", "-3"))
    h.true("first usable answer", got == want)
    yes = ["y", "Y", "yes", "n", "NO", ""][int(h.int("answer", 0, 5))]
    with shim.patched([(builtins, "input", lambda m="": yes)]):
        h.true("yes or no", E.get_yes_no_from_user("?") is ("y" in yes.lower()))


def harnesses(tier):
    def mk(nm, body, tier="quick", **p):
        return Harness(nm, body, patches if body in (body_internal, body_cartesian, body_singles, body_suggestion) else (lambda h: []), params=p, bounds=p, tier=tier, points=6)
    return [mk("internal", body_internal, n=2), mk("cartesian", body_cartesian, n=3), mk("singles", body_singles, n=2), mk("completed", body_completed),
            mk("effective_hamiltonian", body_heff, n=3), mk("preparation", body_prep, nip=10), mk("lines", body_lines, n=4, k=2),
            mk("orbitals", body_orbitals, n=14), mk("answers", body_answers, n=2), mk("suggestion", body_suggestion, n=3),
            mk("suggestion_more", body_suggestion, tier="thorough", n=5),
            mk("internal_three", body_internal, tier="thorough", n=3), mk("singles_more", body_singles, tier="thorough", n=4),
            mk("effective_hamiltonian_long", body_heff, tier="thorough", n=5), mk("lines_long", body_lines, tier="thorough", n=7, k=4),
            mk("preparation_more", body_prep, tier="thorough", nip=120)]
