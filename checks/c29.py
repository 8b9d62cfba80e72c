"""C29: generation of the tables behind the artificial coupling"""
import os
import numpy as np
from symx import core, shim
from symx.core import Sym, Unsupported
from symx.harness import Harness
from pibronic.vibronic.orthonormal import sequences as S

PROPERTY = "C29"
EXPLANATION = ("The real generation of the tables runs with a matrix exponential whose distance from the identity is an arbitrary positive number at every x of the "
               "grid, files in a scratch directory; z3 decides every comparison of distances and whether a turning point, an interval or a row can differ from the "
               "points at which the distance exceeds all earlier ones.")
ASSUMPTIONS = ["the distance at the end of the grid is below its largest value (so for all orders up to 30)", "numpy.savetxt writes the rows it is given"]
OUTSIDE = ["grids of more points than stated", "how far the distance can wander between two points of the grid"]
W = np.array([[0.0, 0.6], [0.8, 0.0]])
MINIMUM = 3


def distance_of(M):
    """D when the leading block is D*W and all else vanishes"""
    M = np.asarray(M, dtype=object)
    for i in np.ndindex(*M.shape):
        if i not in ((0, 1), (1, 0)) and (isinstance(M[i], Sym) and not (M[i] - 0).is_zero() or not isinstance(M[i], Sym) and M[i] != 0):
            raise Unsupported("norm of another matrix")
    a, b = Sym.lift(M[0, 1]) / Sym.const(core.to_fr(0.6)), Sym.lift(M[1, 0]) / Sym.const(core.to_fr(0.8))
    if a.key() != b.key():
        raise Unsupported("norm of another matrix")
    return a


class World:
    def __init__(self, h):
        self.h, self.d = h, {}
        self.tables = {}

    def at(self, x):
        k = round(float(x), 9)
        if k == 0:
            return Sym.const(0) if self.h.sym else 0.0
        if k not in self.d:
            self.d[k] = self.h.real("d(%s)" % k, 0.05, 3.0, pos=True)
        return self.d[k]

    def expm(self, M):
        M = np.asarray(M, dtype=float)
        x = M[0, 1]
        n = len(M)
        up = np.triu(np.ones((n, n)), 1)
        if not np.allclose(M, x * (up - up.T)):
            raise AssertionError("exponential of another matrix")
        out = np.eye(n).astype(object if self.h.sym else float)
        v = self.at(x)
        for i in ((0, 1), (1, 0)):
            out[i] = v * (Sym.const(core.to_fr(W[i])) if self.h.sym else W[i])
        return out

    def patches(self):
        import scipy.linalg
        h = self.h
        out = [(m, "expm", self.expm) for m in (scipy.linalg, S) if hasattr(m, "expm")]
        out += [(S, "__file__", h.path("tables", "sequences.py")), (S, "linspace_dims", (0, h.p["end"], h.p["n"])), (S, "max_value", h.p["end"]),
                (S, "n_bins", h.p.get("bins", h.p["n"])), (S, "minimum_length_of_sequence", h.p.get("minimum", MINIMUM)), (S, "print", lambda *a, **k: None)]
        if not h.sym:
            return out
        real = np.linalg.norm

        def norm(x, ord=None, axis=None, keepdims=False):
            x = np.asarray(x)
            if x.dtype != object:
                return real(x, ord, axis, keepdims)
            return distance_of(x) * Sym.const(core.to_fr(float(real(W, ord)))) if axis is None else self.unsupported()

        def savetxt(path, rows, *a, **k):
            self.tables[os.path.basename(str(path))] = [list(r) for r in rows]
            open(path, "w").close()
        out += [(m, "norm", norm) for m in (np.linalg, S) if hasattr(m, "norm")]
        return out + [(np, "savetxt", savetxt)]

    def unsupported(self):
        raise Unsupported("norm along an axis")

    def table(self, name):
        if self.h.sym:
            return self.tables.get(name)
        p = os.path.join(os.path.dirname(S.__file__), name)
        if not os.path.exists(p):
            return None
        with open(p) as f:
            return [[None if x.strip() == "None" else float(x) for x in line.split(",")] for line in f]


def up(a, b):
    return bool(a >= b)


def runs(w, grid):
    """(first, last) of every stretch of the grid on which the distance is at least every earlier one; the last is None if it is not over"""
    out, top, inside = [[0, None]], w.at(grid[0]), True
    for k in range(1, len(grid)):
        d = w.at(grid[k])
        if up(d, top):
            top = d
            if not inside:
                out.append([k, None])
            inside = True
        elif inside:
            out[-1][1] = k - 1
            inside = False
    return out


def setup(h):
    w = World(h)
    n, end = h.p["n"], h.p["end"]
    return w, [end * k / (n - 1) for k in range(n)]


def ends_low(h, w, grid):
    """the distance is below its largest value at the end of the grid"""
    last = w.at(grid[-1])
    if h.sym:
        h.assume(shim.comb("or", [last < w.at(x) for x in grid[1:-1]]))
    else:
        h.assume(any(last < w.at(x) for x in grid[1:-1]))


def body_points(h):
    w, grid = setup(h)
    K, one = S.build_SKSM_and_identity(h.p["order"])
    for x in grid[1:]:
        w.at(x)
    with shim.patched(w.patches()), h.no_exception("turning points are found"):
        got = S.list_of_turning_points(K, one)
    want = [x for r in runs(w, grid) for x in r if x is not None][1:]
    h.true("number of turning points", len(got) == len(want))
    for i, (p, k) in enumerate(zip(got, want)):
        h.true("x of turning point %d" % i, abs(float(p.x) - grid[k]) < 1e-9)
        h.eq("distance at turning point %d" % i, p.y, w.at(grid[k]))


def rows_eq(h, label, rows, want):
    h.true(label + ": number of rows", rows is not None and len(rows) == len(want))
    for i, (a, b) in enumerate(zip(rows or [], want)):
        h.true("%s[%d]: columns" % (label, i), len(a) == len(b))
        for j, (x, y) in enumerate(zip(a, b)):
            if x is None or y is None:
                h.true("%s[%d,%d]" % (label, i, j), x is None and y is None)
            elif not isinstance(x, Sym) and not isinstance(y, Sym):
                h.true("%s[%d,%d]" % (label, i, j), abs(x - y) < 1e-9)
            else:
                h.eq("%s[%d,%d]" % (label, i, j), x, y)


def intervals(w, grid):
    return [(grid[a], grid[b]) for a, b in runs(w, grid)]


def body_table(h):
    """rows inside the intervals up to the last point before a quarter of the range, at the distance of their own x"""
    w, grid = setup(h)
    order, n, bins = h.p["order"], h.p["n"], h.p["bins"]
    for x in grid[1:]:
        w.at(x)
    ends_low(h, w, grid)
    old = h.path("tables", "sequence_%d.data" % order)
    with open(old, "w") as f:
        f.write("old")
    w.tables["sequence_%d.data" % order] = "old"
    err = None
    with shim.patched(w.patches()):
        try:
            S.generate_full_monotonic_sequence(order)
        except Unsupported:
            raise
        except Exception as e:
            err = e
        iv = intervals(w, grid)
        top = iv[-1][1]
        quarter = 2 * np.sqrt(order) / 4
        above = None
        for k in range(bins):
            if not up(quarter, w.at(top * k / (bins - 1))):
                above = k
                break
        if above is None:
            h.true("refused if a quarter of the range is not reached", err is not None)
            return
        best = top * (above - 1) / (bins - 1)
        xs = [best * k / (bins - 1) for k in range(bins)]
        want = [[w.at(x), x] for x in xs if any(a - 1e-9 <= x <= b + 1e-9 for a, b in iv)]
        if len(want) < h.p.get("minimum", MINIMUM):
            h.true("a short table is refused", err is not None)
            with open(old) as f:
                h.true("the old table is left alone", f.read() == "old" if h.sym else f.read() == "old")
            return
        h.true("the table is generated", err is None)
        h.notes["the table is generated"] = repr(err)
        if err is not None:
            return
        rows_eq(h, "intervals", w.table("sequence_%d.pairs" % order), [list(x) for x in iv])
        rows_eq(h, "table", w.table("sequence_%d.data" % order), want)


def body_first(h):
    w, grid = setup(h)
    order = h.p["order"]
    for x in grid[1:]:
        w.at(x)
    K, one = S.build_SKSM_and_identity(order)
    err = got = None
    with shim.patched(w.patches()):
        try:
            got = S.find_first_turn_around_point(K, one)
        except Unsupported:
            raise
        except Exception as e:
            err = e
        last = runs(w, grid)[0][1]
        if last is None:
            h.true("refused without a turning point", err is not None)
            return
        h.true("a turning point is found", err is None)
        if err is not None:
            return
        h.eq("distance before the first decrease", got[0], w.at(grid[last]))
        h.true("x before the first decrease", abs(float(got[1]) - grid[last]) < 1e-9)
        bins = h.p["bins"]
        with h.no_exception("the table up to the first turning point"):
            S.generate_monotonic_sequence_to_first_turn_around(order)
        xs = [grid[last] / 2 * k / (bins - 1) for k in range(bins)]
        rows_eq(h, "table", w.table("sequence_%d.data" % order), [[w.at(x), x] for x in xs])


def body_plot(h):
    w, grid = setup(h)
    order, bins = h.p["order"], h.p["bins"]
    for x in grid[1:]:
        w.at(x)
    ends_low(h, w, grid)
    name = "sequence_%d.data" % order
    with shim.patched(w.patches()):
        iv = intervals(w, grid)
        with h.no_exception("%s for plotting" % h.p["what"]):
            if h.p["what"] == "sequence":
                S.generate_full_monotonic_sequence_for_plotting(order)
                xs = [iv[-1][1] * k / (bins - 1) for k in range(bins)]
                want = [[w.at(x), w.at(x) if any(a - 1e-9 <= x <= b + 1e-9 for a, b in iv) else None, x] for x in xs]
            elif h.p["what"] == "turning points":
                S.generate_turning_point_sequence_for_plotting(order)
                marked = [x for p in runs(w, grid) for x in p][1:]
                want = [[w.at(x), w.at(x) if k in marked else None, x] for k, x in enumerate(grid)]
            else:
                S.generate_sequences_for_plotting(order)
                want = [[w.at(x) * 0.8 if not h.sym else w.at(x) * Sym.const(core.to_fr(0.8)), w.at(x),
                         w.at(x) * 0.8 if not h.sym else w.at(x) * Sym.const(core.to_fr(0.8)), x] for x in grid]
        rows_eq(h, "plot", w.table(name), want)


def harnesses(tier):
    def mk(name, body, tier="quick", **p):
        return Harness(name, body, params=p, bounds=p, tier=tier, points=4,
                       stubs=["expm: distance from the identity free at every x", "norm: of multiples of one matrix", "savetxt: recorded"])
    return [mk("points", body_points, n=6, end=5, order=2), mk("points_order_3", body_points, n=5, end=2, order=3),
            mk("table", body_table, n=4, end=3, order=4, bins=4), mk("table_order_2", body_table, n=4, end=3, order=2, bins=5),
            mk("table_two_rises", body_table, n=6, end=5, order=4, bins=5, minimum=3),
            mk("table_long", body_table, n=7, end=6, order=3, bins=5, minimum=2),
            mk("first", body_first, n=5, end=4, order=3, bins=5),
            mk("plot_sequence", body_plot, what="sequence", n=5, end=4, order=3, bins=4),
            mk("plot_points", body_plot, what="turning points", n=8, end=7, order=2, bins=4),
            mk("plot_norms", body_plot, what="norms", n=5, end=4, order=2, bins=4),
            mk("points_long", body_points, n=8, end=7, order=2),
            mk("table_longer", body_table, n=9, end=8, order=3, bins=6, minimum=2, tier="thorough"),
            mk("points_longer", body_points, n=11, end=10, order=2, tier="thorough")]
