"""C26: plots show the reported values at their own beads, temperature and number of samples"""
import json
import os
import numpy as np
from symx import core, shim
from symx.core import Sym
from symx.harness import Assumption, Harness
from checks import es_common as ec
from checks.model_common import FileStructure, VIO
from pibronic import constants
from pibronic.data import postprocessing as PP
from pibronic.plotting import plotting as PL

PROPERTY = "C26"
EXPLANATION = ("Report files whose beads, temperature, number of samples and recorded hashes are symbolic choices and whose numbers are symbolic go through the "
               "real plotting classes; the drawing library is replaced by a recorder, and z3 compares every point handed to it with the number "
               "that follows from the reports.")
ASSUMPTIONS = ["floating point is modelled as real arithmetic", "matplotlib draws the points it is given"]
OUTSIDE = ["titles, labels and insets", "the unfinished classes for sum-over-states and rectangle plots", "more files than stated"]

BEADS, TEMPS, SAMPLES = (4, 14, 40), (250.0, 25.0, 125.25), (1000, 20000)
KEYS = ("Z", "E", "Cv")
MODEL = {"number of modes": 1, "number of surfaces": 1}


class NaN:
    """not a number, also among symbolic ones"""
    def _same(self, *a):
        return self

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = __abs__ = _same


NAN = NaN()


class NP(shim.NPShim):
    nan = NAN

    def full(self, shape, fill_value, dtype=None, **kw):
        if fill_value is NAN or (dtype is not None and getattr(dtype, "names", None)):
            return np.full(shape, fill_value, dtype=dtype)
        return np.full(shape, float(fill_value)) if not core.is_num(fill_value) or not isinstance(fill_value, Sym) else super().full(shape, fill_value, dtype)

    def array(self, x, dtype=None, **kw):
        if isinstance(x, list) and any(v is None for v in x):
            r = np.empty(len(x), dtype=object)
            for i, v in enumerate(x):
                r[i] = NAN if v is None else shim.untoken(v)
            return r
        return super().array(x, dtype=dtype, **kw)


def missing(x):
    return x is NAN or (isinstance(x, float) and x != x)


class Anything:
    """accepts every other call of the drawing library"""
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Anything()

    def __call__(self, *a, **k):
        return Anything()

    def __getitem__(self, i):
        return Anything()


class Axes(Anything):
    def __init__(self, n):
        self.n, self.bars, self.lines = n, [], []

    def errorbar(self, x, y, yerr=None, xerr=None, **k):
        self.bars.append((list(x), list(y), None if yerr is None else list(yerr), xerr, k.get("label", "")))
        return Anything()

    def axhline(self, y=0, *a, **k):
        self.lines.append(y)
        return Anything()

    def __getitem__(self, i):
        raise TypeError("'Axes' object is not subscriptable")


class Figure(Anything):
    def __init__(self, axes):
        self.axes, self.saved = axes, []

    def savefig(self, path, *a, **k):
        self.saved.append(path)


class Plt(Anything):
    def __init__(self):
        self.figures = []

    def subplots(self, nrows=1, ncols=1, squeeze=True, **k):
        ax = np.empty((nrows, ncols), dtype=object)
        for i in np.ndindex(*ax.shape):
            ax[i] = Axes(i)
        self.figures.append(Figure(list(ax.flat)))
        if not squeeze:
            return self.figures[-1], ax
        return self.figures[-1], ax.item() if ax.size == 1 else ax.squeeze()


def patches(h):
    js = shim.JsonShim()
    return [(PL, "np", NP(store=h.store)), (PL, "F64", object), (PL, "json", js), (PP, "json", js), (PP, "np", shim.NPShim(store=h.store))]


def structure(h, root, D, R):
    FS = FileStructure(root, D, R)
    for p, t in ((FS.path_vib_model, "vib"), (FS.path_rho_model, "rho")):
        with open(p, "w") as f:
            f.write(json.dumps(MODEL) + " " * (2 * D + 20 * R + len(t)) + ("\n" if t == "vib" else ""))
    FS.generate_model_hashes()
    return FS


def reports(h, FS, tag, n, temps, beads=BEADS, samples=SAMPLES):
    """report files; {(P, T, X): values} of those which belong to the models"""
    own = {}
    for i in range(n):
        P = beads[int(h.int("%sP%d" % (tag, i), 0, len(beads) - 1))]
        T = temps[int(h.int("%sT%d" % (tag, i), 0, len(temps) - 1))]
        X = samples[int(h.int("%sX%d" % (tag, i), 0, len(samples) - 1))]
        path = FS.template_jackknife.format(P=P, T=T, X=X)
        if os.path.exists(path):
            raise core.Infeasible() if h.sym else Assumption()
        v = {}
        for k in KEYS:
            v[k] = h.real("%s%s%d" % (tag, k, i), 0.5, 2.0, pos=True)
            v[k + " error"] = h.real("%s%s%d error" % (tag, k, i), 0.01, 0.1, pos=True)
        bad = int(h.int("%sstale%d" % (tag, i), 0, h.p.get("stale", 2)))
        d = {"hash_vib": FS.hash_vib if bad != 1 else "other", "hash_rho": FS.hash_rho if bad != 2 else "other"}
        with open(path, "w") as f:
            f.write(json.dumps(dict({k: h.jsonable(x) for k, x in v.items()}, **d), ensure_ascii=False))
        if not bad:
            own[P, T, X] = v
    return own


def reference(h, path, key, tag, temps, without=None):
    out = {T: h.real("%s %.2f" % (tag, T), 0.5, 3.0, pos=True) for T in temps if T != without}
    with open(path, "w") as f:
        f.write(json.dumps({"%.2f" % T: {key: h.jsonable(x), "other": 7.0} for T, x in out.items()}, ensure_ascii=False))
    return out


def draw(h, what, obj):
    plt = Plt()
    with shim.patched([(PL, "plt", plt)]), h.no_exception("drawn"):
        getattr(obj, what)()
    return plt


def check_points(h, label, bars, own, value):
    """every curve is one number of samples at one temperature, its points the reports at the beads there are"""
    beads = sorted(set(P for P, _, _ in own))
    want = {}
    for P, T, X in own:
        want.setdefault((T, X), {})[P] = value(T, own[P, T, X])
    # the classes draw a curve for every pair of temperature and samples there is
    for T in set(t for _, t, _ in own):
        for X in set(x for _, _, x in own):
            want.setdefault((T, X), {})
    h.true(label + "one curve for every temperature and number of samples", sorted(bars) == sorted(want))
    if sorted(bars) != sorted(want):
        h.notes[label + "one curve for every temperature and number of samples"] = "%s, expected %s" % (sorted(bars), sorted(want))
        return
    for c, (x, y, err) in bars.items():
        taus = [float(constants.beta(c[0])) / P for P in beads]
        h.true(label + "tau of every point", len(x) == len(beads) and all(abs(float(a.const_value() if isinstance(a, Sym) else a) - b) < 1e-9 * b for a, b in zip(x, taus)))
        if len(y) != len(beads) or len(err) != len(beads):
            h.true(label + "one point for every number of beads", False)
            continue
        for i, P in enumerate(beads):
            t = "%s%d beads, %.2f K, %d samples" % (label, P, c[0], c[1])
            if P not in want[c]:
                h.true(t + ": no point", missing(y[i]) and missing(err[i]))
                continue
            h.true(t + ": a point", not missing(y[i]) and not missing(err[i]))
            if not missing(y[i]) and not missing(err[i]):
                h.eq(t, y[i], want[c][P][0])
                h.eq(t + " error", err[i], want[c][P][1])


def curves(h, fig, own, temps):
    """{(T, X): points} of a figure with one frame for every temperature"""
    out = {}
    Xs = sorted(set(x for _, _, x in own))
    Ts = sorted(set(t for _, t, _ in own))
    h.true("one frame for every temperature", len(fig.axes) == max(1, len(Ts)))
    for T, ax in zip(Ts, fig.axes):
        h.true("one curve for every number of samples", len(ax.bars) == len(Xs))
        for X, (x, y, e, _, lab) in zip(Xs, ax.bars):
            h.true("label", "%.2f" % T in lab)
            out[T, X] = (x, y, e)
    return out


def body_single(h):
    """values of one model as they are reported"""
    root = os.path.dirname(h.path("root", "x"))
    FS = structure(h, root, 3, 1)
    own = reports(h, FS, "", h.p["files"], TEMPS[:h.p["T"]], BEADS[:h.p["P"]], SAMPLES[:h.p["X"]])
    with h.no_exception("loaded"):
        obj = PL.plot_Z_test(FS)
        obj.load_data()
    if not own:
        return
    for k in KEYS:
        plt = draw(h, "plot_" + k, obj)
        if len(plt.figures) != 1:
            h.true("one figure", False)
            return
        fig = plt.figures[0]
        check_points(h, k + ": ", curves(h, fig, own, TEMPS), own, lambda T, v: (v[k], v[k + " error"]))
        h.true("place of the plot", fig.saved == [os.path.join(FS.path_rho_plots, "%s_D3_R1.pdf" % k)])


def percent(h, Zr, Zo):
    def f(T, v):
        return (v["Z"] * Zr[T] - Zo[T]) * 100 / Zo[T], v["Z error"] * Zr[T] * 100 / Zo[T]
    return f


def body_original(h):
    """deviation from the analytic value in percent"""
    root = os.path.dirname(h.path("root", "x"))
    FS = structure(h, root, 3, 1)
    temps = TEMPS[:h.p["T"]]
    own = reports(h, FS, "", h.p["files"], temps, BEADS[:h.p["P"]], SAMPLES[:h.p["X"]])
    lack = int(h.int("file without a temperature", 0, 2)) if h.p.get("lack") else 0
    Zr = reference(h, FS.path_analytic_rho, "Z_sampling", "Zr", temps, temps[0] if lack == 1 else None)
    Zo = reference(h, FS.path_analytic_orig, "Z_coupled", "Zo", temps, temps[0] if lack == 2 else None)
    if lack and any(k[1] == temps[0] for k in own):
        with shim.patched([(PL, "plt", Plt())]):
            h.true("a temperature without reference value is refused", ec.raises(h, lambda: PL.plot_original_Z_test(FS).load_data()) is not None)
        return
    with h.no_exception("loaded"):
        obj = PL.plot_original_Z_test(FS)
        obj.load_data()
    if not own:
        return
    plt = draw(h, "plot_Z", obj)
    if len(plt.figures) != 1:
        h.true("one figure", False)
        return
    fig = plt.figures[0]
    check_points(h, "", curves(h, fig, own, temps), own, percent(h, Zr, Zo))
    h.true("the reference is zero", all(len(a.lines) == 1 and float(a.lines[0]) == 0 for a in fig.axes))
    h.true("place of the plot", fig.saved == [os.path.join(FS.path_rho_plots, "Z_orig_D3_R1.pdf")])


def body_diagonal(h):
    """two sampling models, largest number of samples"""
    root = os.path.dirname(h.path("root", "x"))
    out = []
    temps = TEMPS[:1]
    FSs = [structure(h, root, 3, R) for R in (0, 1)]
    for FS, t in zip(FSs, "ab"):
        own = reports(h, FS, t, h.p["files"], temps, BEADS[:h.p["P"]], SAMPLES[:h.p["X"]])
        out.append((FS, own, reference(h, FS.path_analytic_rho, "Z_sampling", t + "Zr", temps)))
    Zo = reference(h, FSs[0].path_analytic_orig, "Z_coupled", "Zo", temps)
    if not out[0][1] and not out[1][1]:
        h.true("nothing to plot is refused", ec.raises(h, PL.plot_original_Z_vs_diagonal_test, FSs) is not None)
        return
    with h.no_exception("loaded"):
        obj = PL.plot_original_Z_vs_diagonal_test(FSs)
        obj.load_data()
    if not out[0][1] or not out[1][1]:
        return
    plt = draw(h, "plot_Z", obj)
    if len(plt.figures) != 1 or len(plt.figures[0].axes) != 1 or len(plt.figures[0].axes[0].bars) != 2:
        h.true("one curve for every sampling model", False)
        return
    fig = plt.figures[0]
    for (FS, own, Zr), (x, y, e, _, lab) in zip(out, fig.axes[0].bars):
        top = max(k[2] for k in own)
        beads = set(k[0] for k in own)
        h.true("label", "=%d)" % FS.id_rho in lab)
        sel = {k: v for k, v in own.items() if k[2] == top}
        if set(k[0] for k in sel) != beads:
            # beads without a report of that many samples
            for P in beads - set(k[0] for k in sel):
                i = sorted(beads).index(P)
                h.true("no point", missing(y[i]) and missing(e[i]))
            keep = [i for i, P in enumerate(sorted(beads)) if (P, temps[0], top) in sel]
            x, y, e = [x[i] for i in keep], [y[i] for i in keep], [e[i] for i in keep]
        check_points(h, "rho %d: " % FS.id_rho, {(temps[0], top): (x, y, e)}, sel, percent(h, Zr, Zo))
    h.true("place of the plot", fig.saved == [os.path.join(FSs[0].path_vib_plots, "Z_orig_D3_R0_R1.pdf")])


class Holder:
    pass


def body_loaders(h):
    """reference values of every temperature of every model; never those of another model"""
    root = os.path.dirname(h.path("root", "x"))
    FSs = [structure(h, root, D, 0) for D in (3, 4)]
    obj = Holder()
    obj.FS_lst, obj.lst_T, obj.lst_P = FSs, [list(TEMPS[:2]), list(TEMPS[1:])], [list(BEADS[:2]), list(BEADS)]
    which = h.p["which"]
    B = int(h.int("basis", 79, 81)) if which in ("sos", "trotter") else None
    gone = int(h.int("missing", 0, 2 if which == "trotter" else 4))        # 2: nothing, 3 and 4: only one temperature
    vals = []
    for i, FS in enumerate(FSs):
        if which == "trotter":
            vals.append({})
            for P in obj.lst_P[i]:
                if gone == i and P == 14:
                    continue
                vals[i][P] = reference(h, FS.template_trotter_vib.format(P=P, B=B), "Z_trotter", "t%d %d" % (i, P), TEMPS)
            continue
        path = {"sos": FS.template_sos_vib.format(B=B) if B else None, "original": FS.path_analytic_orig, "sampling": FS.path_analytic_rho}[which]
        vals.append(None if gone == i else reference(h, path, "Z", "r%d" % i, TEMPS, TEMPS[1] if gone == i + 3 else None))
    f = {"sos": PL.load_sos, "original": PL.load_analytical_original, "sampling": PL.load_analytical_sampling, "trotter": PL.load_trotter_coupled}[which]
    if which == "trotter":
        with h.no_exception("loaded"):
            f(obj, basis_size=B)
        for i in range(2):
            for T in obj.lst_T[i]:
                got = obj.trotter_coupled_list[i]["%.2f" % T]["Z_trotter"]
                h.true("one value for every number of beads", len(got) == len(obj.lst_P[i]))
                for P, x in zip(obj.lst_P[i], got):
                    if P not in vals[i]:
                        h.true("no value where there is no file", missing(x))
                    else:
                        h.true("a value", not missing(x))
                        if not missing(x):
                            h.eq("value of %d beads" % P, x, vals[i][P][T])
        return
    args = {"basis_size": B} if B else {}
    e = ec.raises(h, f, obj, **args)
    h.true("missing values are an error", (e is None) == (gone == 2))
    if e is None and gone == 2:
        got = {"sos": "sos_list", "original": "analytical_orig_list", "sampling": "analytical_rho_list"}[which]
        for i in range(2):
            d = getattr(obj, got)[i]
            h.true("temperatures", sorted(d) == sorted("%.2f" % T for T in obj.lst_T[i]))
            for T in obj.lst_T[i]:
                h.eq("value", d["%.2f" % T]["Z"], vals[i][T])


def harnesses(tier):
    def mk(nm, body, tier="quick", **p):
        return Harness(nm, body, patches, params=p, bounds=p, tier=tier, points=6)
    return [mk("values", body_single, files=2, P=2, T=2, X=2, stale=1), mk("values_stale", body_single, files=2, P=1, T=2, X=1), mk("percent", body_original, files=2, P=2, T=2, X=1, stale=1),
            mk("percent_lacking", body_original, files=2, P=1, T=2, X=1, stale=0, lack=True),
            mk("two_sampling_models", body_diagonal, files=2, P=2, X=2, stale=0), mk("two_sampling_models_stale", body_diagonal, files=1, P=2, X=1)] + [
            mk("load_" + w, body_loaders, which=w) for w in ("original", "sampling", "sos", "trotter")] + [
            mk("values_more", body_single, tier="thorough", files=3, P=3, T=2, X=2), mk("percent_more", body_original, tier="thorough", files=3, P=2, T=3, X=2)]
