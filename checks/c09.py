"""C09: results of another model never enter an analysis"""
import json
import os
import numpy as np
from symx import core, shim
from symx.core import Sym
from symx.harness import Harness
from checks import stats_common as sc
from pibronic import constants
from pibronic.stats import stats as ST
from pibronic.data import postprocessing as PP
from pibronic.data.file_structure import FileStructure
from pibronic.pimc import pimc as M

PROPERTY = "C09"
EXPLANATION = ("Result and analytic files whose recorded hashes are chosen by symbolic booleans, and whose numbers are symbolic, go through "
               "the real pruning, loading and analysis; z3 decides every branch and whether a number of a stale file can reach the output.")
ASSUMPTIONS = ["floating point is modelled as real arithmetic", "stored numerators are pairwise distinct",
               "numpy.savez/load and json store and return their arguments"]
OUTSIDE = ["more files than stated", "hash collisions", "files modified while they are read"]

HV, HR = "0123456789abcdef" * 8, "fedcba9876543210" * 8
# hashes of other models: unrelated, beginning alike, ending alike, the same digits, cut short, continued
OTHER = [lambda x: x[64:0:-1] + x[:64], lambda x: x[:-1] + "g", lambda x: "g" + x[1:], lambda x: "".join(sorted(x)), lambda x: x[:64],
         lambda x: x + "0", lambda x: "", lambda x: HR if x == HV else HV]
WHICH = [0]


def patches(h):
    npz = shim.NPShim(store=h.store)
    js = shim.JsonShim()
    return sc.patches(h) + [(M, "print", lambda *a, **k: None), (PP, "np", npz), (PP, "json", js), (ST, "json", js),
                            (PP, "print", lambda *a, **k: None)]


def quiet(h):
    return shim.patched([] if h.sym else [(PP, "print", lambda *a, **k: None), (M, "print", lambda *a, **k: None)])


def structure(h):
    FS = FileStructure(os.path.dirname(h.path("root", "x")), 3, 1)
    FS.hash_vib, FS.hash_rho = HV, HR
    WHICH[0] = int(h.int("another hash", 0, len(OTHER) - 1)) if h.p.get("similar") else 0
    return FS


def kind(h, name):
    """0 right, 1 other model, 2 missing"""
    k = h.int(name, 0, 2)
    return int(k)


def hashes(kv, kr):
    d = {}
    if kv != 2:
        d["hash_vib"] = HV if kv == 0 else OTHER[WHICH[0]](HV)
    if kr != 2:
        d["hash_rho"] = HR if kr == 0 else OTHER[WHICH[0]](HR)
    return d


def save(h, path, d):
    if h.sym:
        h.store.savez(path, **d)
    else:
        np.savez(path, **d)


def body_prune(h):
    FS = structure(h)
    paths, want = [], []
    for i, k in enumerate(h.p["files"]):
        kv, kr = kind(h, "vib%d" % i), kind(h, "rho%d" % i)
        d = hashes(kv, kr)
        if k == "npz":
            p = FS.template_pimc.format(P=3 + i, T=300.0, J="0")
            save(h, p, dict(d, number_of_samples=1))
        else:
            p = FS.template_jackknife.format(P=3 + i, T=300.0, X=5)
            with open(p, "w") as f:
                json.dump(dict(d, E=1.0), f)
        paths.append(p)
        if kv == 0 and kr == 0:
            want.append(p)
    got = PP.prune_results_using_hashes(FS, list(paths))
    h.true("exactly the files of this model", list(got) == want)


def body_analysis(h):
    """starmap_wrapper on files of which some are stale"""
    FS = structure(h)
    P, T = 5, h.p["T"]
    rows = []
    m = sc.In()
    for i, n in enumerate(h.p["sizes"]):
        kv, kr = h.bool("vib%d stale" % i), h.bool("rho%d stale" % i)
        d = hashes(int(bool(kv)), int(bool(kr)))
        cols = {}
        for c, lo, hi in (("s_rho", 0.3, 2.0), ("s_g", 0.5, 2.0), ("s_gP", 0.2, 3.0), ("s_gM", 0.2, 3.0)):
            cols[c] = h.array("%s_%d" % (c, i), (n,), lo, hi, pos=True)
        save(h, FS.template_pimc.format(P=P, T=T, J="%d" % i), dict(d, number_of_samples=n, **cols))
        if not kv and not kr:
            rows += [(cols["s_rho"][k], cols["s_g"][k], cols["s_gP"][k], cols["s_gM"][k]) for k in range(n)]
    # a file of the same model at another number of beads / temperature never counts
    for PP_, TT in ((P + 50, T), (P, T + 1), (P, T + 0.25)):
        one = {c: h.array("other_%s_%d_%.2f" % (c, PP_, TT), (1,), 0.3, 2.0, pos=True) for c in ("s_rho", "s_g", "s_gP", "s_gM")}
        save(h, FS.template_pimc.format(P=PP_, T=TT, J="0"), dict(hash_vib=HV, hash_rho=HR, number_of_samples=1, **one))
    av, ar = kind(h, "analytic vib"), kind(h, "analytic rho")
    an = {k: h.real(k, 0.5, 2.0, pos=True) for k in ("Z_sampling", "E_sampling", "Cv_sampling", "Z_sampling+beta", "Z_sampling-beta")}
    an2 = {k: h.real("other " + k, 0.5, 2.0, pos=True) for k in an}
    d = hashes(av, ar)
    d["%.2f" % (T + 1)] = {k: h.jsonable(v) for k, v in an2.items()}
    here = not h.p.get("absent") or bool(h.bool("values at this temperature"))
    if here:
        d["%.2f" % T] = {k: h.jsonable(v) for k, v in an.items()}
    with open(FS.path_analytic_rho, "w") as f:
        f.write(json.dumps(d, ensure_ascii=False))
    alpha = h.p["alpha"]
    f = ST.alpha_statistical_analysis if alpha else ST.basic_statistical_analysis
    dB = h.real("dB", 0.05, 0.9, pos=True)
    refused = None
    try:
        with quiet(h), shim.patched([(constants, "delta_beta", dB)]):
            ST.starmap_wrapper(FS, P, T, f)
    except (AssertionError, KeyError, ValueError, OSError, Exception) as e:   # noqa
        from symx.harness import _engine_error, harness_error
        if isinstance(e, core.Unsupported) or (h.sym and _engine_error(e)) or harness_error(e):
            raise
        refused = e
    outs = [x for x in sorted(os.listdir(FS.path_rho_results)) if x.endswith("thermo")]
    ok = rows and av == 0 and ar == 0 and here
    if not ok:
        h.true("stale data is refused", refused is not None and outs == [])
        return
    if refused is not None:
        h.fail("valid data is analysed", repr(refused))
        return
    h.true("one output file named by beads, temperature and samples", outs == ["P%d_T%.2f_X%d_thermo" % (P, T, len(rows))])
    if len(outs) != 1:
        return
    with open(os.path.join(FS.path_rho_results, outs[0])) as fp:
        out = (shim.JsonShim if h.sym else json).loads(fp.read())
    h.true("output carries the hashes", out["hash_vib"] == HV and out["hash_rho"] == HR)
    m.X, m.T, m.dB = len(rows), T, dB
    for k, c in enumerate(("rho", "g", "gp", "gm")):
        a = np.empty(len(rows), dtype=object)
        a[:] = [r[k] for r in rows]
        setattr(m, c, a)
    m.ap, m.am = an["Z_sampling"] / an["Z_sampling+beta"], an["Z_sampling"] / an["Z_sampling-beta"]
    if h.sym:
        m.T = T
    Z, E, Cv = sc.point(h, m, range(m.X), alpha)
    h.eq("Z", out["Z"], Z)
    h.eq("E", out["E"], E + an["E_sampling"])
    h.eq("Cv", out["Cv"], Cv + an["Cv_sampling"])


def body_again(h):
    """a second analysis after the analytic values, or the results, were replaced sees the new ones only"""
    FS = structure(h)
    P, T, n, alpha = 5, h.p["T"], h.p["n"], h.p["alpha"]
    f = ST.alpha_statistical_analysis if alpha else ST.basic_statistical_analysis
    dB = h.real("dB", 0.05, 0.9, pos=True)
    names = ("Z_sampling", "E_sampling", "Cv_sampling", "Z_sampling+beta", "Z_sampling-beta")

    def results(tag):
        cols = {c: h.array("%s_%s" % (c, tag), (n,), lo, hi, pos=True)
                for c, lo, hi in (("s_rho", 0.3, 2.0), ("s_g", 0.5, 2.0), ("s_gP", 0.2, 3.0), ("s_gM", 0.2, 3.0))}
        save(h, FS.template_pimc.format(P=P, T=T, J="0"), dict(hashes(0, 0), number_of_samples=n, **cols))
        return cols

    def analytic(tag, stale=False):
        an = {k: h.real(k + tag, 0.5, 2.0, pos=True) for k in names}
        d = hashes(int(stale), 0)
        d["%.2f" % T] = {k: h.jsonable(v) for k, v in an.items()}
        with open(FS.path_analytic_rho, "w") as fp:
            fp.write(json.dumps(d, ensure_ascii=False))
        return an

    def run():
        with quiet(h), shim.patched([(constants, "delta_beta", dB)]):
            ST.starmap_wrapper(FS, P, T, f)
        with open(os.path.join(FS.path_rho_results, "P%d_T%.2f_X%d_thermo" % (P, T, n))) as fp:
            return (shim.JsonShim if h.sym else json).loads(fp.read())

    def check(tag, out, cols, an):
        m = sc.In()
        m.X, m.T, m.dB = n, T, dB
        m.rho, m.g, m.gp, m.gm = (cols[c] for c in ("s_rho", "s_g", "s_gP", "s_gM"))
        m.ap, m.am = an["Z_sampling"] / an["Z_sampling+beta"], an["Z_sampling"] / an["Z_sampling-beta"]
        Z, E, Cv = sc.point(h, m, range(n), alpha)
        h.eq(tag + " Z", out["Z"], Z)
        h.eq(tag + " E", out["E"], E + an["E_sampling"])
        h.eq(tag + " Cv", out["Cv"], Cv + an["Cv_sampling"])
    cols, an = results("a"), analytic("a")
    check("first", run(), cols, an)
    new_results, new_analytic = bool(h.bool("new results")), bool(h.bool("new analytic values"))
    if new_results:
        cols = results("b")
    if new_analytic:
        an = analytic("b")
    check("second", run(), cols, an)
    analytic("c", stale=True)
    try:
        run()
    except (AssertionError, KeyError):
        return
    h.fail("stale analytic values are refused after valid ones")


def harnesses(tier):
    def mk(name, body, tier="quick", points=8, **p):
        return Harness(name, body, patches, params=p, bounds=p, tier=tier, points=points, stubs=["savez/load: in-memory store"])
    return [mk("prune_points", body_prune, files=["npz", "npz"]),
            mk("prune_mixed", body_prune, files=["thermo", "npz"]),
            mk("prune_similar", body_prune, files=["thermo"], similar=True),
            mk("prune_similar_points", body_prune, files=["npz"], similar=True),
            mk("analysis_similar", body_analysis, sizes=[2], T=125.25, alpha=True, similar=True, points=20),
            mk("analysis_basic", body_analysis, sizes=[2, 3], T=125.25, alpha=False, points=20),
            mk("analysis_alpha", body_analysis, sizes=[3, 2], T=250.0, alpha=True, points=20),
            mk("analysis_absent", body_analysis, sizes=[2], T=300.0, alpha=True, absent=True, points=20),
            mk("again_basic", body_again, n=2, T=300.0, alpha=False),
            mk("again_alpha", body_again, n=2, T=77.5, alpha=True),
            mk("analysis_three_files", body_analysis, sizes=[2, 2, 3], T=99.5, alpha=True, points=30, tier="thorough")]
