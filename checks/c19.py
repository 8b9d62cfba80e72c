"""C19: models imported from MCTDH .op files hold the numbers of the file"""
import os
import numpy as np
from symx import core, shim
from symx.core import Unsupported
from symx.shim import comb
from symx.harness import Harness
from checks import model_common as mc
from checks.model_common import VIO, VMK, FileStructure
from pibronic.vibronic import model_op

PROPERTY = "C19"
EXPLANATION = ("The harness writes an .op file whose numbers are symbolic; the real reader (memory map, section search, parsing of the names, "
               "symmetrisation, saving as json) runs on it, and z3 compares every element of every array with the number the file has for it.")
ASSUMPTIONS = ["numpy converts the printed numbers to the nearest double"]
OUTSIDE = ["files which list a pair of surfaces twice or below the diagonal", "more than 11 surfaces or modes", "names and headers other than those VIBRON writes"]


class TextArray(np.ndarray):
    """numbers may be stored as text, as in numpy; comparisons stay symbolic"""

    def __setitem__(self, i, v):
        if isinstance(v, str):
            v = shim.untoken(v)
        elif isinstance(v, (list, tuple)) and any(isinstance(x, str) for x in v):
            v = [shim.untoken(x) if isinstance(x, str) else x for x in v]
        np.ndarray.__setitem__(self, i, v)

    def _cmp(self, o, f):
        o = np.broadcast_to(np.asarray(o, dtype=object), self.shape)
        r = np.empty(self.shape, dtype=object)
        for i in np.ndindex(*self.shape):
            r[i] = f(np.ndarray.__getitem__(self, i), o[i])
        return r

    def __eq__(self, o):
        return self._cmp(o, lambda x, y: x == y)

    def __ne__(self, o):
        return self._cmp(o, lambda x, y: x != y)

    def any(self, *a, **k):
        return NP.any(self, *a, **k)

    __hash__ = None


class NP(shim.NPShim):
    def zeros(self, s, *a, **k):
        r = super().zeros(s, *a, **k)
        return r.view(TextArray) if r.dtype == object else r

    @staticmethod
    def _cond(x):
        return x if not isinstance(x, (core.Sym, core.ZReal)) else x != 0

    def all(self, a, *r, **k):
        if isinstance(a, np.ndarray) and a.dtype == object and not r and not k:
            return bool(comb("and", [self._cond(x) for x in a.flat]))
        return np.all(a, *r, **k)

    def any(self, a, *r, **k):
        if isinstance(a, np.ndarray) and a.dtype == object and not r and not k:
            return bool(comb("or", [self._cond(x) for x in a.flat]))
        return np.any(a, *r, **k)


def patches(h):
    return mc.patches(h) + [(model_op, "np", NP(store=h.store)), (model_op, "float", shim.sh_float)]


HEAD = """OP_DEFINE-SECTION
title
IP
end-title
end-op_define-section


PARAMETER-SECTION


"""


def number(h, x):
    return core.token_of(x, "op") if h.sym else repr(float(x))


def body_read(h):
    A, N = h.p["A"], h.p["N"]
    orders = h.p["orders"]
    want = {VMK.N: N, VMK.A: A}
    for k in mc.ORDER:
        want[k] = h.zeros(mc.shape(k, A, N, False))
    present = {s: bool(h.bool(s + " present")) if s in h.p["optional"] else True for s in orders}
    blank = "\n" if h.bool("blank lines") else ""
    L = [HEAD]

    def line(name, x):
        L.append("%-24s =       %s    , ev %s\n" % (name, number(h, x), blank))

    def header(t, rule=26):
        L.append("%s#%s\n# %s\n%s" % (blank, t, "-" * rule, blank))

    header("        Frequencies")
    for j in range(N):
        want[VMK.w][j] = h.real("w%d" % j, 0.1, 1.0, pos=True)
        line("w%02d" % (j + 1), want[VMK.w][j])
    L.append("\n#        Zeropoint energy     1.3144241232\n\n#   Electronic Hamitonian\n#   Vertical energies - Zeropoint\n# ---------\n" + blank)
    for a in range(A):
        want[VMK.E][a, a] = h.real("E%d" % a)
        line("EH_s%02d_s%02d" % (a + 1, a + 1), want[VMK.E][a, a])
    header("     Electronic transition moments")
    L.append("# tmom in direction Ex\n")
    for a in range(A):
        L.append("Ex_s00_s%02d               =       0.100000    , ev\n" % (a + 1))
    header("     Magnetic transition moments")
    pairs = [(a, b) for a in range(A) for b in range(a, A)]

    def put(key, modes, a, b, x):
        for m in modes:
            want[key][tuple(m) + (a, b)] = x
            want[key][tuple(m) + (b, a)] = x

    def section(s, names):
        """names: (format, modes of the name, index tuples)"""
        if s not in orders or not present[s]:
            return
        for a, b in pairs:
            if h.p.get("surfaces") and (a, b) not in h.p["surfaces"]:
                continue
            for fmt, key, ms, idx in names:
                x = h.real("%s_%d_%d_%s" % (fmt[:2], a, b, "_".join(map(str, ms))))
                line(fmt % ((a + 1, b + 1) + tuple(m + 1 for m in ms)), x)
                put(key, idx, a, b, x)

    J = range(N)
    header("  Linear Coupling Constants")
    section("linear", [("C1_s%02d_s%02d_v%02d", VMK.G1, (j,), [(j,)]) for j in J])
    header("  Diagonal Quadratic Coupling Constants")
    section("quadratic", [("C2_s%02ds%02d_v%02dv%02d", VMK.G2, (j, j), [(j, j)]) for j in J])
    header(" Off_diagonal Quadratic Coupling Constants")
    section("mixed quadratic", [("C2_s%02ds%02d_v%02dv%02d", VMK.G2, (i, j), [(i, j), (j, i)]) for i in J for j in range(i)])
    if not h.p.get("short"):
        header("  Cubic Coupling Constants")
        section("cubic", [("C3_s%02d_s%02d_v%02d", VMK.G3, (j,), [(j,) * 3]) for j in J])
        header("  Quartic Coupling Constants")
        section("quartic", [("C4_s%02d_s%02d_v%02d", VMK.G4, (j,), [(j,) * 4]) for j in J])
        header("  Bi-Cubic Constants")
        section("bicubic", [("B3_s%02ds%02d_v%02dv%02d", VMK.G3, (i, j), [(i, j, j)]) for i in J for j in J if i != j])
        header("  Bi-Quartic Constants")
        section("biquartic", [("B4_s%02ds%02d_v%02dv%02d", VMK.G4, (i, j), [(i, j, j, j)]) for i in J for j in J if i != j]
                + [("A4_s%02ds%02d_v%02dv%02d", VMK.G4, (i, j), [(i, i, j, j)]) for i in J for j in J if i < j])
    if h.sym:       # which orders vanish is chosen by the flags only
        for k in mc.ORDER:
            xs = [x for x in want[k].flat if not x.is_zero()]
            if xs and k is not VMK.w:
                h.assume(comb("or", [x != 0 for x in xs]))
    L.append("\nend-parameter-section\n\n\nHAMILTONIAN-SECTION\n")
    for a, b in pairs:
        for j in J:
            L.append("C1_s%02d_s%02d_v%02d          |1 S%d&%d   |%d  q\n" % (a + 1, b + 1, j + 1, a + 1, b + 1, j + 2))
            L.append("C2_s%02ds%02d_v%02dv%02d        |1 S%d&%d   |%d  q^2\n" % (a + 1, b + 1, j + 1, j + 1, a + 1, b + 1, j + 2))
    L.append("end-hamiltonian-section\n")
    root = os.path.dirname(h.path("root", "x"))
    FS = FileStructure(root, 1)
    path = os.path.join(FS.path_es, "model.op")
    text = "".join(L)
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)
    turns = 2 if h.p.get("twice") else 1
    keys = [k for k in mc.ORDER if not h.p.get("low_orders") or k not in (VMK.G3, VMK.G4)]
    for t in range(turns):
        with h.no_exception("the file can be read"):
            d = VIO.read_model_op_file(path)
        mc.eq_model(h, "read", d, want, A, N, False, keys)
    for v in d.values():
        if isinstance(v, np.ndarray):
            h.true("arrays of numbers", v.dtype == (object if h.sym else float))
    with h.no_exception("the model can be created"):
        p = VIO.create_coupling_from_op_file(FS, path)
    h.true("path of the model", p == FS.path_vib_model)
    mc.eq_model(h, "model file", mc.stored(h, FS.path_vib_model, A, N, False), want, A, N, False, keys)
    with open(path, encoding="utf-8") as f:
        h.true("the .op file is left alone", f.read() == text)


def body_two(h):
    """a second file of other dimensions is not influenced by the first"""
    h.p = dict(h.p, A=2, N=2, orders=["linear"], optional=[])
    ds = []
    for A, N in ((2, 1), (1, 2)):
        L = [HEAD, "#        Frequencies\n# ---\n\n"]
        w = [h.real("w%d%d%d" % (A, N, j), 0.1, 1.0, pos=True) for j in range(N)]
        E = [h.real("E%d%d%d" % (A, N, j)) for j in range(A)]
        l = {(j, a): h.real("l%d%d%d%d" % (A, N, j, a)) for j in range(N) for a in range(A)}
        L += ["w%02d = %s , ev\n" % (j + 1, number(h, w[j])) for j in range(N)]
        L.append("#  Zeropoint energy 1.0\n#   Electronic Hamitonian\n#   Vertical energies - Zeropoint\n# ---------\n")
        L += ["EH_s%02d_s%02d = %s , ev\n" % (a + 1, a + 1, number(h, E[a])) for a in range(A)]
        L.append("#     Electronic transition moments\n# ---\n#  Linear Coupling Constants\n# ---\n\n")
        L += ["C1_s%02d_s%02d_v%02d = %s , ev\n" % (a + 1, a + 1, j + 1, number(h, l[j, a])) for j in range(N) for a in range(A)]
        L.append("\n#  Diagonal Quadratic Coupling Constants\n# ---\nend-parameter-section\n")
        path = h.path("op", "%d%d.op" % (A, N))
        with open(path, "w", encoding="utf-8") as f:
            f.write("".join(L))
        want = {VMK.N: N, VMK.A: A}
        for k in mc.ORDER:
            want[k] = h.zeros(mc.shape(k, A, N, False))
        for j in range(N):
            want[VMK.w][j] = w[j]
            for a in range(A):
                want[VMK.G1][j, a, a] = l[j, a]
        for a in range(A):
            want[VMK.E][a, a] = E[a]
        with h.no_exception("the file can be read"):
            d = VIO.read_model_op_file(path)
        ds.append((d, want, A, N))
    for n, (d, want, A, N) in zip(("first", "second"), ds):
        mc.eq_model(h, n, d, want, A, N, False)


def body_refused(h):
    """files that are no complete .op files raise"""
    ok = ["        Frequencies", "Zeropoint energy", "Electronic Hamitonian", "Electronic transition moments", "Linear Coupling Constants",
          "Diagonal Quadratic Coupling Constants"]
    miss = int(h.int("missing", 0, len(ok)))
    unit = int(h.int("wrong unit", 0, 2))
    order = int(h.int("wrong order", 0, 2))
    t = HEAD + "#%s\n# ---\nw0%d = 0.1 , %s\n#  %s 1\n#   %s\n#  Vertical\n# ---\nEH_s0%d_s0%d = 0.2 , %s\n# %s\n# ---\n#  %s\n# ---\nC1_s01_s01_v01 = 0.3 , ev\n#  %s\n# ---\n" % (
        ok[0], 2 if order == 2 else 1, "cm-1" if unit == 1 else "ev", ok[1], ok[2], 2 if order == 1 else 1, 2 if order == 1 else 1,
        "au" if unit == 2 else "ev", ok[3], ok[4], ok[5])
    if miss < len(ok):
        t = t.replace(ok[miss], "x")
    path = h.path("op", "m.op")
    with open(path, "w") as f:
        f.write(t)
    root = os.path.dirname(h.path("root", "x"))
    FS = FileStructure(root, 1)
    with open(FS.path_vib_model, "w") as f:
        f.write("old model")
    err = False
    try:
        VIO.create_coupling_from_op_file(FS, path)
    except Unsupported:
        raise
    except Exception as e:
        from symx.harness import _engine_error, harness_error
        if (h.sym and _engine_error(e)) or harness_error(e):
            raise
        err = True
    bad = miss < len(ok) or unit > 0 or order > 0
    h.true("refused exactly if something is missing or wrong", err == bad)
    if bad:
        h.true("the old model is left alone", open(FS.path_vib_model).read() == "old model")


def harnesses(tier):
    def mk(nm, body, tier="quick", **p):
        return Harness(nm, body, patches, params=p, bounds=p, tier=tier, points=4)
    ALL = ["linear", "quadratic", "mixed quadratic", "cubic", "quartic", "bicubic", "biquartic"]
    return [mk("read_2x2", body_read, A=2, N=2, orders=ALL, optional=["mixed quadratic", "biquartic"]),
            mk("read_3x2", body_read, A=3, N=2, orders=ALL[:4], optional=["quadratic"]),
            mk("read_2x3", body_read, A=2, N=3, orders=ALL[:3], optional=["linear"]),
            mk("read_1x1", body_read, A=1, N=1, orders=ALL[:5], optional=ALL[:5]),
            mk("eleven_modes", body_read, A=1, N=11, orders=ALL[:3], optional=["linear"], low_orders=True),
            mk("eleven_surfaces", body_read, A=11, N=1, orders=ALL[:2], optional=[], surfaces=[(0, 0), (0, 9), (0, 10), (8, 9), (9, 10), (10, 10)]),
            mk("two_files", body_two), mk("refused", body_refused),
            mk("read_3x3", body_read, tier="thorough", A=3, N=3, orders=ALL, optional=["linear", "cubic"])]
