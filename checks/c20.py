"""C20: the analysis reports every pair of beads and temperature there are results for"""
import json
import os
import numpy as np
from symx import core, shim
from symx.core import Unsupported
from symx.harness import Harness, _engine_error, harness_error
from checks import stats_common as sc
from checks.c09 import patches as patches9, quiet, save
from pibronic import constants
from pibronic.stats import stats as ST
from pibronic.data import postprocessing as PP
from pibronic.data.file_structure import FileStructure
from pibronic.vibronic import vIO

PROPERTY = "C20"
EXPLANATION = ("A results directory whose files' beads and temperatures are chosen by symbolic integers and whose samples are symbolic goes through "
               "the real analysis drivers, the process pool replaced by a sequential one; z3 decides every branch and compares each reported "
               "number with the one that follows from the samples of exactly that pair.")
ASSUMPTIONS = ["floating point is modelled as real arithmetic", "the process pool runs every task once", "numpy.savez/load and json return what was stored"]
OUTSIDE = ["more files than stated", "other processes changing the directory", "temperatures which agree in the first two decimals"]

BEADS, TEMPS = (4, 14, 40), (25.0, 250.0, 125.25)


class Pool:
    """runs the tasks one after the other"""
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def starmap(self, f, args, *a, **k):
        return [f(*x) for x in list(args)]

    def map(self, f, args, *a, **k):
        return [f(x) for x in list(args)]

    def imap(self, f, args, *a, **k):
        return iter(self.map(f, args))

    imap_unordered = imap

    def apply(self, f, args=(), kwds={}):
        return f(*args, **kwds)

    class Async:
        def __init__(self, v):
            self.v = v

        def get(self, *a):
            return self.v

        def wait(self, *a):
            pass

    def apply_async(self, f, args=(), kwds={}, *a, **k):
        return self.Async(f(*args, **kwds))

    def starmap_async(self, f, args, *a, **k):
        return self.Async(self.starmap(f, args))

    def map_async(self, f, args, *a, **k):
        return self.Async(self.map(f, args))

    def close(self):
        pass

    join = terminate = close


def text(s):
    """a string equal to s that is not the same object"""
    return "".join(list(s))


def body(h):
    root = os.path.dirname(h.path("root", "x"))
    FS = FileStructure(root, 3, 1)
    for p, t in ((FS.path_vib_model, "the model"), (FS.path_rho_model, "the sampling model")):
        with open(p, "w") as f:
            f.write(t)
    hv, hr = vIO._hash("the model"), vIO._hash("the sampling model")
    rows = {}
    n = h.p["samples"]
    an = {}
    for i in range(h.p["files"]):
        P = BEADS[int(h.int("P%d" % i, 0, h.p["P"] - 1))]
        T = TEMPS[int(h.int("T%d" % i, 0, h.p["T"] - 1))]
        cols = {c: h.array("%s_%d" % (c, i), (n,), lo, hi, pos=True)
                for c, lo, hi in (("s_rho", 0.3, 2.0), ("s_g", 0.5, 2.0), ("s_gP", 0.2, 3.0), ("s_gM", 0.2, 3.0))}
        save(h, FS.template_pimc.format(P=P, T=T, J="%d" % (7 + i)), dict(hash_vib=hv, hash_rho=hr, number_of_samples=n, **cols))
        rows.setdefault((P, T), [])
        rows[P, T] += [(cols["s_rho"][k], cols["s_g"][k], cols["s_gP"][k], cols["s_gM"][k]) for k in range(n)]
    d = {"hash_vib": hv, "hash_rho": hr}
    for T in sorted(set(t for _, t in rows)):
        an[T] = {k: h.real("%s %.2f" % (k, T), 0.5, 2.0, pos=True) for k in ("Z_sampling", "E_sampling", "Cv_sampling", "Z_sampling+beta", "Z_sampling-beta")}
        d["%.2f" % T] = {k: h.jsonable(v) for k, v in an[T].items()}
    with open(FS.path_analytic_rho, "w") as f:
        f.write(json.dumps(d, ensure_ascii=False))
    alpha = bool(h.bool("alpha")) if h.p["alpha"] is None else h.p["alpha"]
    jack = h.p["jackknife"]
    dB = h.real("dB", 0.05, 0.9, pos=True)
    f = ST.jackknife_analysis_of_pimc if jack else ST.statistical_analysis_of_pimc
    seen, stubs = [], []

    def jk(kind):
        def f(T, result, analytic):       # the jackknife itself is C07
            seen.append(kind)
            own = ST.alpha_statistical_analysis if kind else ST.basic_statistical_analysis
            out = own(T, result, analytic)
            out.update({"jk_" + k: out[k] for k in list(out)})
            return out
        return f
    if jack:
        stubs = [(ST, "basic_jackknife_analysis", jk(False)), (ST, "alpha_jackknife_analysis", jk(True))]
    with quiet(h), shim.patched([(constants, "delta_beta", dB), (ST.mp, "Pool", Pool)] + stubs):
        with h.no_exception("the results can be analysed"):
            f(FS, method=text("alpha" if alpha else "basic"), location=text("local"))
    if jack and not seen:
        raise Unsupported("the jackknife functions were not called")
    h.true("the requested method is used", not jack or all(k == alpha for k in seen))
    outs = sorted(x for x in os.listdir(FS.path_rho_results) if x.endswith("thermo"))
    want = {"P%d_T%.2f_X%d_thermo" % (P, T, len(r)): (P, T) for (P, T), r in rows.items()}
    h.true("one report for every pair of beads and temperature", outs == sorted(want))
    if outs != sorted(want):
        return
    for name in outs:
        P, T = want[name]
        r = rows[P, T]
        with open(os.path.join(FS.path_rho_results, name)) as fp:
            out = (shim.JsonShim if h.sym else json).loads(fp.read())
        h.true(name + ": hashes", out["hash_vib"] == hv and out["hash_rho"] == hr)
        m = sc.In()
        m.X, m.T, m.dB = len(r), T, dB
        for k, c in enumerate(("rho", "g", "gp", "gm")):
            a = np.empty(len(r), dtype=object)
            a[:] = [x[k] for x in r]
            setattr(m, c, a)
        m.ap, m.am = an[T]["Z_sampling"] / an[T]["Z_sampling+beta"], an[T]["Z_sampling"] / an[T]["Z_sampling-beta"]
        Z, E, Cv = sc.point(h, m, range(m.X), alpha)
        h.eq(name + ": Z", out["Z"], Z)
        h.eq(name + ": E", out["E"], E + an[T]["E_sampling"])
        h.eq(name + ": Cv", out["Cv"], Cv + an[T]["Cv_sampling"])
        h.true(name + ": jackknife values exactly if asked for", any(k.startswith("jk_") for k in out) == bool(jack))
        if jack:
            for k, v in (("Z", Z), ("E", E + an[T]["E_sampling"]), ("Cv", Cv + an[T]["Cv_sampling"])):
                h.eq(name + ": jackknife " + k, out["jk_" + k], v)


def body_refused(h):
    """unknown methods and places"""
    root = os.path.dirname(h.path("root", "x"))
    FS = FileStructure(root, 3, 1)
    for p in (FS.path_vib_model, FS.path_rho_model):
        with open(p, "w") as f:
            f.write("x")
    jack, bad = bool(h.bool("jackknife")), int(h.int("what is wrong", 0, 1))
    f = ST.jackknife_analysis_of_pimc if jack else ST.statistical_analysis_of_pimc
    err = False
    with quiet(h), shim.patched([(ST.mp, "Pool", Pool)]):
        try:
            f(FS, method="unknown" if bad == 0 else "basic", location="unknown" if bad == 1 else "local")
        except Unsupported:
            raise
        except Exception as e:
            if (h.sym and _engine_error(e)) or harness_error(e):
                raise
            err = True
    h.true("an unknown method or place is refused", err)


def patches(h):
    return patches9(h)


def harnesses(tier):
    def mk(nm, b, tier="quick", **p):
        return Harness(nm, b, patches, params=p, bounds=p, tier=tier, points=6, stubs=["multiprocessing.Pool: sequential", "savez/load: in-memory store"])
    return [mk("pairs", body, files=2, P=2, T=2, samples=2, alpha=None, jackknife=False),
            mk("pairs_jackknife", body, files=2, P=2, T=2, samples=2, alpha=None, jackknife=True),
            mk("three_files", body, files=3, P=2, T=2, samples=2, alpha=True, jackknife=False),
            mk("values", body, files=1, P=3, T=3, samples=2, alpha=None, jackknife=False),
            mk("refused", body_refused),
            mk("three_by_three", body, tier="thorough", files=3, P=3, T=3, samples=2, alpha=True, jackknife=False)]
