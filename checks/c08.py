"""C08: loading result files"""
import itertools
import os
import numpy as np
from symx import core, shim
from symx.core import Sym, ZInt, SymBool
from symx.harness import Harness, Stop
from pibronic.pimc import pimc as M

PROPERTY = "C08"
EXPLANATION = ("Result files with symbolic contents are written with the real save and read back with the real load functions; the number of "
               "samples asked for is a symbolic integer. z3 decides whether a loaded row can fail to be a stored row, whether a row can "
               "come twice, and whether the number of rows can differ from min(available, requested).")
ASSUMPTIONS = ["stored numerators are pairwise distinct (so that a row can be recognised)", "numpy.savez/load store and return their arguments",
               "paths in the list are distinct"]
OUTSIDE = ["more files or samples than stated", "unreadable zip archives"]

COLS = ["scaled_rho", "scaled_g", "scaled_gofr_plus", "scaled_gofr_minus"]


def patches(h):
    npz = shim.NPShim(store=h.store)
    return [(M, "np", npz), (M, "F64", object), (M, "print", lambda *a, **k: None)]


def cls_of(h):
    return M.BoxResultPM if h.p["pm"] else M.BoxResult


def cols(h):
    return COLS if h.p["pm"] else COLS[:2]


def write(h, j, n, rho=None):
    """one result file through the real save; returns (path, rows)"""
    r = cls_of(h)(X=n)
    rows = []
    arr = {}
    for c in cols(h):
        if c == "scaled_rho":
            arr[c] = h.array("%s_f%d" % (c, j), (n,), 0.2, 2.0, pos=True) if rho is None else rho
        else:
            arr[c] = h.array("%s_f%d" % (c, j), (n,), -2.0, 2.0)
        setattr(r, c, arr[c].copy())
    r.hash_vib, r.hash_rho = "v", "r"
    from functools import partial
    from pibronic.data import file_name
    r.partial_name = partial(file_name.pimc().format, P=7, T=300.0)
    r.path_root = os.path.dirname(h.path("results", "x"))
    r.id_job = j
    r.save_results(n)
    path = r.compute_path_to_file()
    for i in range(n):
        rows.append(tuple(arr[c][i] for c in cols(h)))
    return path, rows


def same(a, b):
    return a == b


def check_rows(h, res, rows, want):
    got = [getattr(res, c) for c in cols(h)]
    n = int(want)
    h.true("number of samples", int(res.samples) == n)
    for c, g in zip(cols(h), got):
        h.true("length of " + c, np.shape(g) == (n,))
        if np.shape(g) != (n,):
            return
    for i in range(n):
        row = [g[i] for g in got]
        if any(isinstance(x, float) and x != x for x in row):
            h.fail("row %d is a stored row" % i, "nan")
            continue
        h.true("row %d is a stored row" % i,
               shim.comb("or", [shim.comb("and", [same(x, y) for x, y in zip(row, r)]) for r in rows]))
    for i, j in itertools.combinations(range(n), 2):
        a, b = got[1][i], got[1][j]
        if any(isinstance(x, float) and x != x for x in (a, b)):
            continue
        h.true("rows %d and %d differ" % (i, j), a != b)


def distinct(h, rows):
    for a, b in itertools.combinations(rows, 2):
        h.assume(a[1] != b[1])


def body_multi(h):
    paths, rows = [], []
    for j, n in enumerate(h.p["sizes"]):
        p, r = write(h, j, n)
        paths.append(p)
        rows += r
    distinct(h, rows)
    if h.p.get("bad"):
        # a file that lacks the expected arrays is ignored
        bad = h.path("results", "P7_T300.00_J99_data_points.npz")
        keys = ["number_of_samples", "s_rho", "s_g"] + (["s_gP", "s_gM"] if h.p["pm"] else [])
        gone = keys[int(h.int("missing array", 0, len(keys) - 1))]
        d = {k: 2 if k == "number_of_samples" else np.ones(2) for k in keys if k != gone}
        if h.sym:
            h.store.savez(bad, **d)
        else:
            np.savez(bad, **d)
        paths.insert(1, bad)
    res = cls_of(h)()
    total = len(rows)
    if h.p.get("all"):
        with h.no_exception("loading succeeds"):
            res.load_multiple_results(paths)
        check_rows(h, res, rows, total)
        return
    want = h.int("requested", 1, total + 2)
    with h.no_exception("loading succeeds"):
        res.load_multiple_results(paths, want)
    w = int(want)
    check_rows(h, res, rows, min(total, w))


def body_single(h):
    n = h.p["sizes"][0]
    p, rows = write(h, 0, n)
    res = cls_of(h)(X=h.p["preset"]) if h.p.get("preset") else cls_of(h)()
    if h.p.get("preset") and h.p["preset"] != n:
        try:
            res.load_results(p)
        except AssertionError:
            return
        h.fail("a file with another sample count is refused", "no error")
        return
    with h.no_exception("loading succeeds"):
        k = cls_of(h).read_number_of_samples(p)
        res.load_results(p)
    h.true("number of samples asked for", int(k) == n)
    h.true("number of samples", int(res.samples) == n)
    for k, c in enumerate(cols(h)):
        h.eq(c, getattr(res, c), np.array([r[k] for r in rows], dtype=object))


def body_zero(h):
    """zero weights must be refused, all others accepted"""
    n = h.p["sizes"][0]
    z = h.bool("weight is zero")
    rho = h.array("rho", (n,), 0.2, 2.0, pos=True)
    if z:
        rho[h.p["at"]] = Sym.const(0) if h.sym else 0.0
    p, rows = write(h, 0, n, rho)
    res = cls_of(h)()
    refused = False
    try:
        res.load_multiple_results([p])
    except AssertionError:
        refused = True
    h.true("zero weight refused", refused == bool(z))


def harnesses(tier):
    def mk(name, body, tier="quick", **p):
        return Harness(name, body, patches, params=p, bounds=p, tier=tier, points=6, stubs=["savez/load: in-memory store"])
    out = []
    for pm in (False, True):
        s = "_pm" if pm else ""
        out += [mk("several_files" + s, body_multi, pm=pm, sizes=[2, 3, 1]),
                mk("uneven_files" + s, body_multi, pm=pm, sizes=[1, 3], tier="quick"),
                mk("everything" + s, body_multi, pm=pm, sizes=[2, 1, 2], all=True),
                mk("foreign_file" + s, body_multi, pm=pm, sizes=[2, 1], bad=True, all=True),
                mk("one_file" + s, body_single, pm=pm, sizes=[3]),
                mk("one_file_preset" + s, body_single, pm=pm, sizes=[3], preset=3),
                mk("one_file_other_count" + s, body_single, pm=pm, sizes=[3], preset=2),
                mk("zero_weight" + s, body_zero, pm=pm, sizes=[3], at=2),
                mk("more_files" + s, body_multi, pm=pm, sizes=[3, 1, 4, 2]), mk("many_files" + s, body_multi, pm=pm, sizes=[1, 2, 1, 1, 1, 3], all=True)]
    return out
