"""C27: models imported from cp.auto files hold the numbers of the file"""
import re
import fortranformat as ff
import numpy as np
from symx import core, shim
from symx.harness import Harness
from symx.shim import comb
from checks import es_common as ec
from checks.es_common import read, write
from checks.model_common import VIO
from pibronic.vibronic import model_auto as MA

PROPERTY = "C27"
EXPLANATION = ("The harness writes a cp.auto file in VIBRON's fixed format; energies, frequencies and couplings are symbolic numbers. The real reader "
               "(filter of the lines, sections, blocks of every mode and pair of modes, symmetrisation) runs on it with the "
               "library of Fortran formats reading the fields, and z3 compares every element with the number of the file.")
ASSUMPTIONS = ["the library fortranformat cuts a line into fields as Fortran does (used as it is wherever a line holds no symbolic number)"]
OUTSIDE = ["other numbers of surfaces and modes: the reader is made for 2 and 12", "numbers without a decimal point"]
A, N = 2, 12


def tokens_read(reader, line):
    """what the library does, for lines holding symbolic numbers; A, I, F and T descriptors"""
    t = reader.format.replace(" ", "").upper()
    t = re.sub(r"(\d+)\(([^()]*)\)", lambda m: ",".join([m.group(2)] * int(m.group(1))), t).strip("()")
    pos, out = 0, []
    for x in t.split(","):
        m = re.fullmatch(r"(\d*)([AIFT])(\d+)(?:\.(\d+))?", x)
        if m is None:
            raise core.Unsupported("format " + reader.format)
        kind, w = m.group(2), int(m.group(3))
        if kind == "T":
            pos = w - 1
            continue
        for _ in range(int(m.group(1) or 1)):
            s = line[pos:pos + w].ljust(w)
            pos += w
            out.append(s if kind == "A" else int(s) if kind == "I" else shim.sh_float(s.strip()))
    return out


def patches(h):
    real = ff.FortranRecordReader.read
    return [(MA, "np", shim.NPShim(store=h.store)), (MA, "F64", object), (MA, "float", shim.sh_float),
            (ff.FortranRecordReader, "read", lambda r, line: tokens_read(r, line) if "\ue000" in line else real(r, line))]


def field(h, x):
    return (core.token_of(x, "a") if h.sym else ("%.9f" % x)[:12]).rjust(12)


def rows(h, m):
    return ["".join(field(h, x) for x in r) for r in m]


def text(h, E, w, l, q, order="as listed", blank=True):
    """the lines of a file"""
    L = ["Vibronic Coupling elements for case ".ljust(50) + "HEFF_IP2"]
    L += [" Type of grid in ACESII : ".ljust(26) + "   3", " Number of vibrational irreps ".ljust(36) + "   4", " Number of modes ".ljust(30) + "   %d" % N, " [A]".ljust(31) + "  100.00" * N]
    L += ["Gradients parent energy along normal modes", "-" * 60]
    L += ["  Normal mode      %4d   Gradient :0.0000000E+00" % (i + 1) for i in range(N)]
    L += ["", "Diagonal Hessian parent energy", "-" * 60]
    L += ["  Normal mode      %4d   Frequency : %s cm-1 %s eV" % (i + 1, "%8.2f" % (100 + i), field(h, w[i])) for i in range(N)]
    L += ["", "Reference Hamiltonian", "-" * 60] + rows(h, E)
    head = lambda i: "  Normal mode :  %4d Frequency :   %10.2f" % (i + 1, 100 + i)      # noqa
    L += ["", "Gradients of heff along normal modes", "-" * 60]
    for i in range(N):
        L += [head(i)] + rows(h, l[i]) + [""]
    L += ["Diagonal second order corrections of heff", "-" * 60]
    for i in range(N):
        L += [head(i)] + rows(h, q[i, i]) + [""]
    L += ["Off-diagonal second order corrections heff", "-" * 60]
    for i in range(N):
        for j in range(i):
            L += ["  [1]  %4d  %10.2f  %4d  %10.2f" % (i + 1, 100 + i, j + 1, 100 + j)] + rows(h, q[i, j]) + [""]
    L += ["Diagonal Cubic corrections of heff", "-" * 60]
    return L if blank else [x for x in L if x and "-----" not in x]


def numbers(h, tag=""):
    """parameters which all differ, or only the named ones if the harness is about one part"""
    part = h.p.get("part", "all")
    val = (lambda n: core.Sym.const(0.25) if h.sym else 0.25)

    def real(kind, name):
        return printed(h, "%s%s_%s" % (tag, kind, name)) if part in ("all", kind) else val(name)
    E = np.empty((A, A), dtype=object if h.sym else float)
    l, q = np.empty((N, A, A), dtype=E.dtype), np.empty((N, N, A, A), dtype=E.dtype)
    w = np.array([real("w", str(i)) for i in range(N)], dtype=E.dtype)
    for a in range(A):
        for b in range(a + 1):
            E[a, b] = E[b, a] = real("E", "%d%d" % (a, b))
            for i in range(N):
                l[i, a, b] = l[i, b, a] = real("l", "%d_%d%d" % (i, a, b))
                for j in range(i + 1):
                    q[i, j, a, b] = q[i, j, b, a] = q[j, i, a, b] = q[j, i, b, a] = real("q", "%d_%d_%d%d" % (i, j, a, b))
    return E, w, l, q


def printed(h, name):
    """a number as the file can hold it"""
    x = h.real(name, -3.0, 3.0)
    return x if h.sym else float(field(h, x))


def compare(h, label, got, want):
    h.true(label + "sizes", tuple(got[:2]) == (A, N))
    for nm, g, v in zip(("energy", "frequency", "linear", "quadratic"), got[2:], want):
        if np.shape(g) != np.shape(v):
            h.true(label + "shape of " + nm, False)
        else:
            h.eq(label + nm, g, v)


def body_read(h):
    want = numbers(h)
    blank = bool(h.bool("blank lines and rules"))
    path = h.path("m", "cp.auto")
    t = "\n".join(text(h, *want, blank=blank)) + "\n"
    write(path, t)
    with h.no_exception("read"):
        got = VIO.read_model_auto_file(path)
    compare(h, "", got, want)
    h.true("the file is left alone", read(path) == t)


def body_two(h):
    """files read one after the other are independent"""
    wants, gots = [numbers(h, t) for t in "ab"], []
    for t, want in zip("ab", wants):
        path = h.path(t, "cp.auto")
        write(path, "\n".join(text(h, *want)) + "\n")
        with h.no_exception("read"):
            gots.append(VIO.read_model_auto_file(path))
    for t, g, w in zip(("first: ", "second: "), gots, wants):
        compare(h, t, g, w)


def body_refused(h):
    """files which end early or are not symmetric in the surfaces"""
    E, w, l, q = want = numbers(h)
    kinds = ["complete", "cut", "linear", "diagonal", "off-diagonal", "no number", "no file"]
    kind = kinds[int(h.int("kind", 0, len(kinds) - 1))]
    x = printed(h, "other")
    path = h.path("m", "cp.auto")
    i, j = int(h.int("mode", 0, N - 1)) if kind in ("linear", "diagonal", "off-diagonal") else 0, 0
    if kind == "off-diagonal":
        h.assume(i > 0)
        j = i - 1
    wrong = {"linear": l[i], "diagonal": q[i, i], "off-diagonal": q[i, j]}.get(kind)
    if wrong is not None:
        h.assume(comb("and", [x - wrong[1, 0] > 0.01, x < 3, wrong[1, 0] > -3]))
        wrong[0, 1] = x
    L = text(h, *want)
    if kind == "cut":
        rest = [n for n, s in enumerate(L) if s and "-----" not in s]
        keep = int(h.int("lines kept", 0, 5))
        L = L[:[0, 3, 20, 35, 60, rest[-2]][keep]]
    if kind == "no number":
        L = [s.replace("cm-1", "cm-1 ?") for s in L]
    if kind != "no file":
        write(path, "\n".join(L) + "\n")
    e = ec.raises(h, VIO.read_model_auto_file, path)
    h.true("refused exactly if the file is incomplete or unsymmetric", (e is None) == (kind == "complete"))


def harnesses(tier):
    def mk(nm, body, tier="quick", **p):
        return Harness(nm, body, patches, params=p, bounds=dict(p, surfaces=A, modes=N), tier=tier, points=4)
    return [mk("energies_frequencies", body_read, part="E"), mk("frequencies", body_read, part="w"), mk("linear", body_read, part="l"), mk("quadratic", body_read, part="q"),
            mk("two_files", body_two, part="l"), mk("refused", body_refused, part="l"), mk("everything", body_read, tier="thorough")]
