"""C25: models imported from VIBRON .h files hold the numbers of the files"""
import os
import numpy as np
from symx import core, shim
from symx.core import Sym
from symx.harness import Harness
from symx.shim import comb
from checks import es_common as ec
from checks import model_common as mc
from checks.c19 import NP as NP19
from checks.es_common import read, write
from checks.model_common import VIO, VMK, FileStructure
from pibronic.vibronic import model_h

PROPERTY = "C25"
EXPLANATION = ("The harness writes the .in and .h files of a VIBRON calculation; energies and couplings are symbolic numbers, the frequencies and the "
               "arrangement of the files symbolic choices. The real reader (memory map, search of the sections and of the blocks of the modes, "
               "parsing, saving as json) runs on them and z3 compares every element with the number of the file.")
ASSUMPTIONS = ["numpy converts the printed numbers to the nearest double", "the modes of a degenerate frequency have the same order in both files"]
OUTSIDE = ["second and higher order couplings, which the reader ignores on purpose", "frequencies other than the listed ones", "more modes or surfaces than stated"]


class NP(NP19):
    @staticmethod
    def around(a, decimals=0, **kw):
        a = np.asarray(a, dtype=object)
        return np.around(np.array([float(x.const_value()) if isinstance(x, Sym) else float(x) for x in a.flat]).reshape(a.shape), decimals=decimals)

    round = round_ = around


def patches(h):
    return mc.patches(h) + [(model_h, "np", NP(store=h.store, close_tol=True)), (model_h, "float", shim.sh_float)]


def number(h, x):
    return core.token_of(x, "h") if h.sym else repr(float(x))


# wave numbers: some are parts of others, some end in a zero
POOL = [161.31, 1161.31, 161.30, 161.35, 61.3, 322.62]


def matrix(h, rows):
    return "".join("    " + "    ".join(number(h, x) for x in r) + "\n" for r in rows)


def model_files(h, tag, A, ws, ns, swap=False, zeros=True):
    """texts of both files and the expected model"""
    N = len(ws)
    ev = [w / 8065.5 for w in ws]
    want = {VMK.N: N, VMK.A: A, VMK.E: mc.symmetric(h, tag + "E", VMK.E, A, N), VMK.G1: mc.symmetric(h, tag + "l", VMK.G1, A, N)}
    want[VMK.w] = shim.obj(ev) if h.sym else np.array(ev)
    if h.sym:       # no parameter vanishes completely
        for k in (VMK.E, VMK.G1):
            h.assume(comb("or", [x != 0 for x in want[k].flat]))
    for k in (VMK.G2, VMK.G3, VMK.G4):
        want[k] = h.zeros(mc.shape(k, A, N, False))
    tin = "     0              ! units in eV\n    %2d              ! Number of electronic states\n    %2d              ! Number of symmetric normal modes \n" % (A, ns)
    tin += "    %2d              ! Number of non-A1 normal modes \n   500              ! Number of Lanczos iterations \n   0   0\n" % (N - ns)
    tin += "    %s\n\n    %s\n\n   0.100\n   3.000\n auto\n" % ("    ".join(map(repr, ev[:ns])), "    ".join(map(repr, ev[ns:])))
    fmt = (lambda w: "%.2f" % w) if zeros else (lambda w: str(w))

    def head(i):
        return "  Normal mode :  %2d Frequency :   %7s\n" % (i + 1, fmt(ws[i]))
    rule = "-" * 70 + "\n\n"
    t = "\n   Vibronic Coupling elements for case    HEFF_IP2\n" + rule + "  [ ]     %2d  A         %s\n\n" % (N, " ".join(map(fmt, ws)))
    t += "        Gradients parent energy along normal modes\n" + rule + "".join("  Normal mode   %2d   Gradient :0.0E0\n" % (i + 1) for i in range(N))
    t += "\n                   Diagonal Hessian parent energy\n" + rule + "".join("  Normal mode   %2d    Frequency : %s cm-1   %.4f eV\n" % (i + 1, fmt(ws[i]), ev[i]) for i in range(N))
    t += "\n                            Reference Hamiltonian\n" + matrix(h, want[VMK.E]) + "\n\n  Gradients of heff along normal modes\n" + rule
    order = list(range(N))
    if swap:
        # the first mode comes last, modes of the same frequency keep their order
        first = [i for i in order if ws[i] == ws[0]]
        order = [i for i in order if i not in first] + first
    for i in order:
        t += head(i) + matrix(h, want[VMK.G1][i]) + "\n"
    t += "\n  Diagonal second order corrections of heff\n" + rule
    for i in order:
        t += head(i) + matrix(h, np.full((A, A), 0.125)) + "\n"
    t += "\n  Off-diagonal second order corrections heff\n" + rule
    for i in range(N):
        for j in range(i):
            t += "  [1]    %2d    %s       %2d      %s\n" % (i + 1, fmt(ws[i]), j + 1, fmt(ws[j])) + matrix(h, np.full((A, A), 0.25)) + "\n"
    return tin, t + "\n  Diagonal Cubic corrections of heff\n" + rule, want


def body_read(h):
    A, N = int(h.int("surfaces", h.p.get("least", 1), h.p["A"])), h.p["N"]
    ws = [POOL[int(h.int("frequency %d" % i, 0, len(POOL) - 1))] for i in range(N)] if "ws" not in h.p else h.p["ws"]
    ns = int(h.int("symmetric modes", 0, N)) if h.p.get("split") else N - 1
    tin, th, want = model_files(h, "", A, ws, ns, bool(h.bool("other order")), bool(h.bool("zeros printed")))
    keys = [k for k in mc.ORDER if not h.p.get("low_orders") or k in (VMK.E, VMK.w, VMK.G1)]
    FS = FileStructure(os.path.dirname(h.path("root", "x")), 1)
    path = os.path.join(FS.path_es, "m_vibron.h")
    write(path, th)
    write(path[:-2] + ".in", tin)
    with h.no_exception("the files can be read"):
        d = VIO.read_model_h_file(path)
        p = VIO.create_coupling_from_h_file(FS, path)
    mc.eq_model(h, "read", d, want, A, N, False, keys)
    h.true("path of the model", p == FS.path_vib_model)
    mc.eq_model(h, "model file", mc.stored(h, FS.path_vib_model, A, N, False), want, A, N, False, keys)
    h.true("the files are left alone", read(path) == th and read(path[:-2] + ".in") == tin)


def body_two(h):
    """models read one after the other are independent"""
    out = []
    for t, A, ws in (("a", int(h.int("surfaces", 1, 3)), POOL[:1]), ("b", int(h.int("surfaces of the second", 1, 3)), POOL[2:5])):
        tin, th, want = model_files(h, t, A, ws, 1)
        path = h.path(t, "m.h")
        write(path, th)
        write(path[:-2] + ".in", tin)
        with h.no_exception("the files can be read"):
            out.append((VIO.read_model_h_file(path), want, A, len(ws)))
    for (d, want, A, N), n in zip(out, ("first", "second")):
        mc.eq_model(h, n, d, want, A, N, False)


def body_refused(h):
    """incomplete or contradictory files raise, and the old model stays"""
    A, ws = 2, POOL[:2]
    tin, th, want = model_files(h, "", A, ws, 1)
    cases = ["none", "Number of electronic states", "Number of symmetric normal modes", "Number of non-A1 normal modes", "Reference Hamiltonian",
             "Gradients of heff along normal modes", "Diagonal second order corrections of heff", "no .in", "no .h", "other frequency", "energy row",
             "coupling row", "asymmetric energies", "asymmetric couplings", "frequency missing"]
    c = cases[int(h.int("case", 0, len(cases) - 1))]
    if c.startswith(("Number", "Reference", "Gradients", "Diagonal")):
        tin, th = tin.replace(c, "x"), th.replace(c, "x")
    if c == "other frequency":
        tin = tin.replace(repr(ws[1] / 8065.5), repr((ws[1] + 3) / 8065.5))
    if c == "frequency missing":
        tin = tin.replace(repr(ws[1] / 8065.5), "")
    if c in ("energy row", "coupling row"):
        L = th.split("\n")
        n = next(i for i, x in enumerate(L) if ("Reference" if c[0] == "e" else "Gradients of heff") in x)
        del L[n + (2 if c[0] == "e" else 5)]
        th = "\n".join(L)
    if c.startswith("asymmetric"):
        x = h.real("other number", 1.1, 1.2)
        y = want[VMK.E][1, 0] if "energies" in c else want[VMK.G1][1, 1, 0]
        h.assume(comb("and", [x - y > 0.002, y < 1, y > -1]))
        L = th.split("\n")
        n = next(i for i, v in enumerate(L) if "Reference" in v) + 2 if "energies" in c else next(i for i, v in enumerate(L) if v.endswith(" 1161.31") and "mode :" in v) + 2
        L[n] = "  %s  %s" % (number(h, x), L[n].split()[1])
        th = "\n".join(L)
    FS = FileStructure(os.path.dirname(h.path("root", "x")), 1)
    path = os.path.join(FS.path_es, "m_vibron.h")
    if c != "no .h":
        write(path, th)
    if c != "no .in":
        write(path[:-2] + ".in", tin)
    write(FS.path_vib_model, "old model")
    e = ec.raises(h, VIO.create_coupling_from_h_file, FS, path)
    h.true("refused exactly if something is missing or wrong", (e is None) == (c == "none"))
    if c != "none":
        h.true("the old model is left alone", read(FS.path_vib_model) == "old model")
    else:
        mc.eq_model(h, "model file", mc.stored(h, FS.path_vib_model, A, 2, False), want, A, 2, False)


def harnesses(tier):
    def mk(nm, body, tier="quick", **p):
        return Harness(nm, body, patches, params=p, bounds=p, tier=tier, points=6)
    return [mk("two_modes", body_read, least=2, A=2, N=2), mk("one_mode", body_read, A=3, N=1, split=True), mk("two_files", body_two), mk("refused", body_refused),
            mk("twelve_modes", body_read, A=2, N=12, low_orders=True, ws=[1611.31, 161.31, 61.3, 3322.62, 161.30, 322.62, 11.0, 1161.31, 111.0, 1.61, 16.13, 61.31]),
            mk("three_modes", body_read, tier="thorough", A=1, N=3, split=True)]
