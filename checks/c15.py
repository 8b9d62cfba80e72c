"""C15: parameters in file names survive the way back"""
import os
import types
import numpy as np
from symx import core, shim, strings
from symx.core import Sym, Unsupported, ZInt, wrap_z
from symx.shim import comb
from symx.harness import Harness
from pibronic.data import file_name as FN
from pibronic.data import postprocessing as PP

PROPERTY = "C15"
EXPLANATION = ("Names are made by the real naming functions from symbolic numbers and put into directories of symbolic characters; the real "
               "functions read the numbers back; z3 decides every comparison of characters and whether a number can differ.")
ASSUMPTIONS = ["glob matches as documented: '*', '?' and '[...]' within one path component"]
OUTSIDE = ["longer directory names and numbers than stated", "names not made by the naming module"]

KINDS = {"pimc": (FN.pimc, "PTJ"), "jackknife": (FN.jackknife, "PTX"), "sos": (FN.sos, "B"), "trotter": (FN.trotter, "PB"),
         "training_input": (FN.training_data_input, "PTJ"), "training_g": (FN.training_data_g_output, "PTJ"),
         "training_rho": (FN.training_data_rho_output, "PTJ")}
ALPHABET = "P_TBJXsa/.1"


def patches(h):
    glob_ = strings.GlobShim([])
    h.glob = glob_
    os_ = strings.OsShim(os)
    return [(PP, "int", strings.sh_int), (PP, "float", strings.sh_float), (PP, "os", os_), (PP, "join", os_.path.join), (PP, "glob", glob_)]


def values(h, kind, tag="", digits=2):
    out = {}
    for k in KINDS[kind][1]:
        if k == "T":
            c = h.int("%sT (1/100 K)" % tag, 1, 10 ** (digits + 2) - 1)
            out[k] = wrap_z(core.z3.ToReal(c.z) / 100) if h.sym else c / 100
        else:
            out[k] = h.int(tag + k, 0 if k == "J" else 1, 10 ** digits - 1)
    return out


def folder(h, n, tag="dir", alphabet=ALPHABET):
    r = ""
    for i in range(n):
        c = h.char("%s%d" % (tag, i), alphabet)
        r = r + c
    return r


def name(h, kind, v):
    t = KINDS[kind][0]().format(**v)
    return strings.from_text(t) if h.sym else t


def same(h, label, got, want):
    h.true(label, got == want)


GET = {"pimc": {"P": "extract_bead_value_from_pimc_file_path", "T": "extract_temperature_value_from_pimc_file_path",
                "J": "extract_job_value_from_pimc_file_path"},
       "jackknife": {"P": "extract_bead_value_from_thermo_file_path", "T": "extract_temperature_value_from_thermo_file_path",
                     "X": "extract_sample_value_from_thermo_file_path"},
       "sos": {"B": "extract_basis_value_from_sos_file_path"},
       "trotter": {"P": "extract_bead_value_from_trotter_file_path"}}


def body_value(h):
    kind = h.p["kind"]
    v = values(h, kind, digits=h.p["digits"])
    path = "/" + folder(h, h.p["dir"]) + "/" + name(h, kind, v)
    for k, f in GET[kind].items():
        with h.no_exception(k + " can be read"):
            got = getattr(PP, f)(path)
        same(h, k, got, v[k])


def unique(h, vals):
    out = []
    for v in vals:
        if not any(bool(v == w) for w in out):
            out.append(v)
    return out


def is_list(h, label, got, want):
    """got is sorted and has exactly the given values, each once"""
    got = list(got)
    want = unique(h, want)
    h.true(label + ": number", len(got) == len(want))
    for a, b in zip(got, got[1:]):
        h.true(label + ": increasing", a < b)
    for w in want:
        h.true(label + ": every value", comb("or", [w == g for g in got]) if h.sym else w in got)


def body_lists(h):
    n, B = h.p["n"], h.p["bases"]
    d = "/" + folder(h, h.p["dir"]) + "/"
    kind = "jackknife" if h.p["which"] == "thermo" else "pimc"
    vals = [values(h, kind, "f%d " % i, 1) for i in range(n)]
    files = [d + name(h, kind, v) for v in vals]
    bv = [values(h, "sos", "v%d " % i, 1) for i in range(B)]
    br = [values(h, "sos", "r%d " % i, 1) for i in range(B)]
    vib = [d + name(h, "sos", v) for v in bv]
    rho = [d + name(h, "sos", v) for v in br]
    which = h.p["which"]
    common = [v["B"] for v in bv if any(bool(v["B"] == w["B"]) for w in br)]
    with h.no_exception("lists can be made"):
        if which == "pimc":
            P, T, B = PP.extract_parameter_lists(files, vib, rho)
        elif which == "jackknife":
            r = PP.extract_jackknife_parameters(files, vib, rho)
            P, T, B = r["pimc_beads"], r["temperatures"], r["basis_fxns"]
        else:
            r = PP.extract_pimc_parameters(files, vib, rho)
            P, T, B = r["pimc_beads"], r["temperatures"], r["basis_fxns"]
            is_list(h, "samples", r["samples"], [v["X"] for v in vals])
    is_list(h, "beads", P, [v["P"] for v in vals])
    is_list(h, "temperatures", T, [v["T"] for v in vals])
    is_list(h, "basis sizes", B, common)


def body_trotter(h):
    n = h.p["n"]
    d = "/" + folder(h, h.p["dir"]) + "/"
    vals = [values(h, "trotter", "f%d " % i, 1) for i in range(n)]
    files = [d + name(h, "trotter", v) for v in vals]
    with h.no_exception("list can be made"):
        r = PP.extract_trotter_paramater_list(files)
    is_list(h, "basis sizes", sorted(r.keys()), [v["B"] for v in vals])
    for b in r:
        mine = [v["P"] for v in vals if bool(v["B"] == b)]
        got = list(r[b])
        h.true("every file once", len(got) == len(mine))
        for p in mine:
            h.true("beads of a basis", comb("or", [p == g for g in got]) if h.sym else p in got)


def body_glob(h):
    """each list has exactly the files of its kind, whatever the directory is called"""
    base = "/" + folder(h, h.p["dir"], alphabet=h.p["alphabet"]) + "/"
    FS = types.SimpleNamespace(path_rho_results=base + "rr/", path_rho_params=base + "rp/", path_vib_params=base + "vp/",
                               path_vib_results=base + "vr/")
    files = []
    for i, (d, kind) in enumerate((("rr", "pimc"), ("rr", "pimc"), ("rr", "jackknife"), ("rr", "training_input"), ("rr", "training_g"),
                                   ("rr", "training_rho"), ("rp", "sos"), ("vp", "sos"), ("vp", "trotter"), ("vr", "pimc"))):
        files.append((d, kind, base + d + "/" + name(h, kind, values(h, kind, "f%d " % i, 1))))
    if h.sym:
        h.glob.files = [f[2] for f in files]
    else:
        # the real file system, below a scratch root
        root = h.path("x")
        for d, kind, f in files:
            p = root + f
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").close()
        files = [(d, k, root + f) for d, k, f in files]
        for k in vars(FS):
            setattr(FS, k, root + getattr(FS, k))

    def ids(lst):
        out = []
        for g in lst:
            hit = [i for i, f in enumerate(files) if g is f[2] or (not h.sym and os.path.normpath(g) == os.path.normpath(f[2]))]
            out.append(hit[0] if hit else -1)
        return sorted(out)

    def want(d, kind):
        r = [i for i, f in enumerate(files) if f[0] == d and f[1] == kind]
        if h.sym:
            return r
        return sorted({[j for j in range(len(files)) if files[j][2] == files[i][2]][0] for i in r})
    for f, d, kind in (("retrive_pimc_file_list", "rr", "pimc"), ("retrive_jackknife_file_list", "rr", "jackknife"),
                       ("retrive_sos_coupled_file_list", "vp", "sos"), ("retrive_sos_sampling_file_list", "rp", "sos")):
        with h.no_exception(f):
            got = getattr(PP, f)(FS)
        h.true(f, ids(got) == want(d, kind))
    with h.no_exception("all lists"):
        r = PP.retrive_all_file_paths(FS)
        s = PP.retrive_file_paths_for_jackknife(FS)
    h.true("all lists", [ids(x) for x in r] == [want(*k) for k in (("rr", "pimc"), ("rr", "jackknife"), ("vp", "sos"), ("rp", "sos"))])
    h.true("lists for the jackknife", [ids(x) for x in s] == [want(*k) for k in (("rr", "pimc"), ("vp", "sos"), ("rp", "sos"))])


def body_distinct(h):
    """other parameters, other name; the same file name is never used for two kinds"""
    k1, k2 = h.p["kinds"]
    a, b = values(h, k1, "a ", 2), values(h, k2, "b ", 2)
    x, y = name(h, k1, a), name(h, k2, b)
    if k1 != k2:
        h.true("names of two kinds differ", not bool(x == y))
        return
    eq = comb("and", [a[k] == b[k] for k in a]) if h.sym else a == b
    h.true("equal names exactly for equal parameters", bool(x == y) == bool(eq))


def harnesses(tier):
    def mk(nm, body, tier="quick", **p):
        return Harness(nm, body, patches, params=p, bounds=p, tier=tier, points=6)
    out = []
    for k in GET:
        out.append(mk("value_" + k, body_value, kind=k, digits=2, dir=3))
        out.append(mk("value_long_" + k, body_value, kind=k, digits=4, dir=1))
        out.append(mk("value_deep_" + k, body_value, tier="thorough", kind=k, digits=3, dir=5))
    out += [mk("lists_pimc", body_lists, which="pimc", n=2, bases=1, dir=2),
            mk("lists_basis", body_lists, which="pimc", n=1, bases=2, dir=1),
            mk("lists_jackknife", body_lists, which="jackknife", n=2, bases=1, dir=2),
            mk("lists_thermo", body_lists, which="thermo", n=2, bases=1, dir=2),
            mk("lists_trotter", body_trotter, n=2, dir=2),
            mk("files", body_glob, dir=3, alphabet="a[]"),
            mk("files_wildcards", body_glob, dir=2, alphabet="a*?1"),
            mk("lists_three", body_lists, tier="thorough", which="pimc", n=3, bases=2, dir=2),
            mk("lists_trotter_three", body_trotter, tier="thorough", n=3, dir=2),
            mk("files_deep", body_glob, tier="thorough", dir=3, alphabet="a[]*?1")]
    ks = list(KINDS)
    for i, a in enumerate(ks):
        for b in ks[i:]:
            out.append(mk("names_%s_%s" % (a, b), body_distinct, tier="quick" if a == b else "thorough", kinds=(a, b)))
    return out
