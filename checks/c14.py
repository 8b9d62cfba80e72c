"""C14: strength of the artificial coupling"""
import os
import numpy as np
from symx import core, shim
from symx.core import Sym, Unsupported
from symx.shim import comb
from symx.harness import Harness, _engine_error
from pibronic.vibronic.orthonormal import create as C
from pibronic.vibronic.orthonormal import sequences as S

PROPERTY = "C14"
EXPLANATION = ("The real selection runs on an increasing table and strengths that are symbolic, the real matrix construction with a recorded "
               "stand-in for the matrix exponential; z3 decides every comparison and whether the chosen entry can be another one.")
ASSUMPTIONS = ["scipy's matrix exponential of a real skew symmetric matrix is orthonormal"]
OUTSIDE = ["tables longer than stated in the symbolic part", "the accuracy of the numbers in the shipped tables"]


def patches(h):
    np_ = shim.NPShim(close_tol=True)
    return [(S, "np", np_), (C, "np", np_)]


def table(h, n):
    """y increasing from 0, x increasing from 0, steps above the tolerance of the selection"""
    y, x = [Sym.const(0) if h.sym else 0.0], [Sym.const(0) if h.sym else 0.0]
    for i in range(1, n):
        y.append(y[-1] + h.real("dy%d" % i, 0.01, 1.0, pos=True))
        x.append(x[-1] + h.real("dx%d" % i, 0.01, 1.0, pos=True))
        if h.sym:
            h.assume(y[-1] - y[-2] >= 0.01)
            h.assume(y[-1] <= 10)
            h.assume(x[-1] - x[-2] >= 0.01)
    return [[a, b] for a, b in zip(y, x)]


def stubs(seq, asked, expm):
    """the table and the matrix exponential, wherever the code takes them from"""
    import scipy.linalg

    def loadtxt(path, *a, **k):
        asked.append(os.path.basename(str(path)))
        out = np.empty((len(seq), 2), dtype=object if any(isinstance(x, Sym) for r in seq for x in r) else float)
        for i, r in enumerate(seq):
            out[i] = r
        return out
    return [(np, "loadtxt", loadtxt)] + [(m, "expm", expm) for m in (scipy.linalg, C, S) if hasattr(m, "expm")]


def body_select(h):
    n = h.p["n"]
    seq = table(h, n)
    t = h.real("t", 0.0, 1.0)
    h.assume(t >= 0)
    h.assume(t <= 1)
    with h.no_exception("an entry is found"):
        p = S.select_pair(seq, t)
    want = t * seq[-1][0]
    member = [comb("and", [p.y == s[0], p.x == s[1]]) if h.sym else (p.y == s[0] and p.x == s[1]) for s in seq]
    h.true("an entry of the table", comb("or", member) if h.sym else any(member))
    tol = 1e-3
    h.true("not stronger than asked", p.y <= want + tol)
    # every entry above the chosen one is stronger than asked
    for k, s in enumerate(seq):
        c1, c2 = s[0] <= p.y, s[0] >= want - tol
        h.true("entry %d is not skipped" % k, comb("or", [c1, c2]) if h.sym else (c1 or c2))


def body_ends(h):
    seq = table(h, h.p["n"])
    p = S.select_pair(seq, 0.0)
    h.eq("strength 0: x", p.x, 0)
    h.eq("strength 0: y", p.y, 0)
    p = S.select_pair(seq, 1.0)
    h.eq("strength 1: x", p.x, seq[-1][1])
    h.eq("strength 1: y", p.y, seq[-1][0])


def body_monotone(h):
    seq = table(h, h.p["n"])
    t1, t2 = h.real("t1", 0.0, 1.0), h.real("t2", 0.0, 1.0)
    for t in (t1, t2):
        h.assume(t >= 0)
        h.assume(t <= 1)
    h.assume(t1 <= t2)
    a, b = S.select_pair(seq, t1), S.select_pair(seq, t2)
    h.true("a larger strength never gives a weaker entry", a.y <= b.y)


def body_range(h):
    """strengths outside [0, 1] are refused"""
    t = h.real("t", -1.0, 2.0)
    seq = table(h, 2)
    for name, f in (("selection", lambda: S.select_pair(seq, t)), ("matrix", lambda: C.create_orthonormal_matrix_lambda_close_to_identity(2, t))):
        err = False
        inside = bool(comb("and", [t >= 0, t <= 1])) if h.sym else 0 <= t <= 1
        with shim.patched(stubs(seq, [], lambda M: np.eye(2))):
            try:
                f()
            except AssertionError:
                err = True
        h.true(name + ": refused exactly outside [0, 1]", err == (not inside))


def body_matrix(h):
    """U = expm(x K), K the fixed skew symmetric matrix of that order; strength 0 gives the identity"""
    n = h.p["order"]
    seq = table(h, 3)
    t = h.real("t", 0.0, 1.0)
    h.assume(t >= 0)
    h.assume(t <= 1)
    zero = h.bool("no coupling")
    if zero:
        t = 0.0
    got = []
    marker = np.eye(n)[::-1].copy()     # orthonormal, recognisable
    asked = []

    def expm(M):
        got.append(np.array(M, dtype=object))
        return marker

    with shim.patched(stubs(seq, asked, expm)):
        with h.no_exception("construction succeeds"):
            U = C.create_orthonormal_matrix_lambda_close_to_identity(n, t)
            want = S.select_pair(seq, t)
    if not got:
        h.true("identity only without coupling", t == 0 if not h.sym or not isinstance(t, Sym) else SB(t == 0))
        h.eq("identity", U, np.eye(n))
        return
    if not asked:
        raise Unsupported("the table is read in another way")
    h.true("the table of that order is used", set(asked) == {"sequence_%d.data" % n})
    h.true("one exponential", len(got) == 1)
    for i in range(n):
        for j in range(n):
            e = 0 if i == j else (1 if i < j else -1)
            h.eq("exponent[%d,%d]" % (i, j), got[0][i, j], want.x * e)
    h.true("the exponential is returned", np.array_equal(np.asarray(U, dtype=float), marker))


def SB(c):
    return c if not isinstance(c, (bool, np.bool_)) else bool(c)


def body_tables(h):
    """the shipped tables meet the precondition of the selection"""
    n = int(h.int("order", 2, 10))
    with h.no_exception("the table can be read"):
        seq = S.load_sequence(n)
    ok = all(len(s) == 2 for s in seq)
    h.true("pairs", ok)
    if not ok:
        return
    f = [(float(str(a)) if not isinstance(a, Sym) else a, b) for a, b in seq]
    h.true("starts without coupling", f[0][0] == 0 and f[0][1] == 0)
    h.true("increasing", all(a[0] < b[0] and a[1] < b[1] for a, b in zip(f, f[1:])))
    from scipy.linalg import expm
    K = np.triu(np.ones((n, n)), 1)
    K = K - K.T
    for i in (1, len(f) // 2, len(f) - 1):
        d = np.linalg.norm(expm(f[i][1] * K) - np.eye(n))
        h.true("entry %d is the distance from the identity" % i, abs(d - f[i][0]) < 1e-9)


def body_saved(h):
    """a saved table is read back"""
    import numpy
    n = S.minimum_length_of_sequence
    vals = [[0.5 * i, 0.25 * i] for i in range(n)]
    a = int(h.int("row", 0, 3))
    vals[a][0] += 1 / 3
    p = h.path("t", "seq.data")
    with shim.patched([(S, "path_to_sequence_file", lambda order: p)]):
        with h.no_exception("a saved table can be read"):
            S.save_sequence(5, vals)
            got = S.load_sequence(5)
    h.true("the same numbers", [[float(x) for x in r] for r in got] == vals)


def harnesses(tier):
    def mk(name, body, tier="quick", **p):
        return Harness(name, body, patches, params=p, bounds=p, tier=tier, points=5)
    return [mk("selection", body_select, n=5), mk("selection_short", body_select, n=2), mk("ends", body_ends, n=3),
            mk("monotone", body_monotone, n=4), mk("range", body_range), mk("matrix_2", body_matrix, order=2),
            mk("matrix_3", body_matrix, order=3), mk("matrix_5", body_matrix, order=5),
            mk("shipped_tables", body_tables), mk("saved_table", body_saved),
            mk("selection_long", body_select, tier="thorough", n=12), mk("monotone_long", body_monotone, tier="thorough", n=8),
            mk("matrix_10", body_matrix, tier="thorough", order=10)]
