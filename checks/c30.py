"""C30: the grids drawn of a model show its own elements"""
import json
import os
import numpy as np
from symx import core, shim
from symx.harness import Harness
from checks import model_common as mc
from checks.c26 import Anything, missing
from checks.model_common import FileStructure, VMK, VIO
from pibronic.plotting import grid_plots as GP
from pibronic.plotting import prepare

PROPERTY = "C30"
EXPLANATION = ("The original and the coupled model of a data set with symbolic elements go through the real loading and drawing of the grids; the drawing library is "
               "replaced by a recorder, and z3 compares every square and every sign with the element of the stored model.")
ASSUMPTIONS = ["matplotlib draws the squares and texts it is given", "the elements are symmetric in the surfaces"]
OUTSIDE = ["titles, ticks and colours", "more modes or surfaces than stated", "rendering (needs LaTeX)"]


class Axes(Anything):
    def __init__(self, plt):
        self.images, self.texts, self.spines, self.plt = [], [], {}, plt
        self.figure = None

    def imshow(self, X, *a, **k):
        self.images.append((np.array(X, dtype=object), k.get("origin") or "upper"))
        return Anything()

    def text(self, x, y, s, *a, **k):
        self.texts.append((x, y, s))
        return Anything()


class Figure(Anything):
    def __init__(self, plt, axes):
        self.plt, self.axes = plt, axes
        for a in axes:
            a.figure = self

    def savefig(self, path, *a, **k):
        # what the figure holds at the time it is saved
        self.plt.saved.append((str(path), [(list(x.images), list(x.texts)) for x in self.axes]))


class Plt(Anything):
    def __init__(self):
        self.saved = []

    def subplots(self, nrows=1, ncols=1, **k):
        a = Axes(self)
        if nrows != 1 or ncols != 1:
            raise core.Unsupported("several grids in one figure")
        return Figure(self, [a]), a


class NP(shim.NPShim):
    def full(self, shape, fill_value, dtype=None, **kw):
        return np.full(shape, fill_value, dtype=object) if isinstance(fill_value, str) else super().full(shape, fill_value, dtype)

    @staticmethod
    def sign(x, **kw):
        x = np.asarray(x, dtype=object)
        out = np.empty(x.shape)
        for i in np.ndindex(*x.shape):
            out[i] = 1.0 if bool(x[i] > 0) else -1.0 if bool(x[i] < 0) else 0.0
        return out


def patches(h):
    return mc.patches(h) + [(GP, "np", NP(store=h.store)), (GP, "json", shim.JsonShim())]


NAMES = {VMK.E: "energy", VMK.G1: "linear", VMK.G2: "quadratic"}


def some_model(h, tag, A, N):
    d = mc.model(h, A, N, [VMK.E, VMK.w, VMK.G1, VMK.G2][:h.p["orders"] + 2], tag=tag, sym=True)
    free = tag in h.p["free"]
    # elements whose sign is known
    for k in NAMES:
        for i, v in np.ndenumerate(d[k]) if k in d else ():
            if not free or k in h.p["known"] or h.p.get("known_diagonal") and i[-1] == i[-2]:
                h.assume(v > 0)
    if not free:
        return d
    # an element which vanishes in a model which does not, and a vanishing order
    if A > 1 and bool(h.bool(tag + "no coupling between the first surfaces")):
        for k in NAMES:
            if k in d and k not in h.p["known"]:
                d[k][..., 0, 1] = d[k][..., 1, 0] = 0.0
    out = dict(d)
    for k in (VMK.G1, VMK.G2):
        if k in out and k not in h.p["known"] and bool(h.bool("%sno %s terms" % (tag, NAMES[k]))):
            del out[k]
    return out


def sign(h, v):
    return "+" if bool(v > 0) else "-" if bool(v < 0) else "0"


def body(h):
    A, N = h.p["A"], h.p["N"]
    D = 12 if bool(h.bool("data set of two digits")) else 7
    Ar = A + int(h.int("surfaces of the sampling model", -A, 1)) if h.p.get("sampling") else A
    FS = FileStructure(os.path.dirname(h.path("root", "x")), D, int(h.int("sampling model", 0, 1)) if h.p.get("sampling") else 0)
    models = {"original": some_model(h, "o", A, N), "coupled": some_model(h, "c", A, N)}
    mc.write(h, FS.path_orig_model, models["original"])
    mc.write(h, FS.path_vib_model, models["coupled"])
    if Ar:
        with open(FS.path_rho_model, "w") as f:
            json.dump({"number of modes": N, "number of surfaces": Ar}, f)
    plt = Plt()
    names = [(m, n, v) for m, n, v in ((GP, "plt", plt), (GP, "load_latex_module_on_server", lambda *a, **k: None),
                                       (prepare, "load_latex_module_on_server", lambda *a, **k: None)) if hasattr(m, n)]
    with shim.patched(names):
        with h.no_exception("the models are loaded"):
            g = GP.plotGrids(FS)
            g.load_data()
        for k in list(NAMES)[:h.p["orders"] + 1]:
            del plt.saved[:]
            draw = getattr(g, {VMK.E: "plot_energy", VMK.G1: "plot_linear_coupling", VMK.G2: "plot_quadratic_coupling"}[k])
            if not all(k in m for m in models.values()):
                err = None
                try:
                    draw()
                except core.Unsupported:
                    raise
                except Exception as e:
                    err = e
                h.true("vanishing %s terms are not drawn" % NAMES[k], err is not None and not plt.saved)
                continue
            with h.no_exception("the %s grids are drawn" % NAMES[k]):
                draw()
            check(h, k, FS, D, models, plt, A, N)


def check(h, k, FS, D, models, plt, A, N):
    want = {}
    for which, m in models.items():
        for i in np.ndindex(*(N,) * (len(np.shape(m[k])) - 2)):
            f = "%s_%s_grid_D%d%s.pdf" % (which, NAMES[k], D, "".join("_N%d" % (j + 1) for j in i))
            want[os.path.join(FS.path_vib_plots, f)] = (which, m[k][i])
    h.true("%s: the files" % NAMES[k], sorted(p for p, _ in plt.saved) == sorted(want))
    for path, axes in plt.saved:
        if path not in want:
            continue
        which, V = want[path]
        label = os.path.basename(path)[:-4].replace("_D%d" % D, "")
        if len(axes) != 1 or len(axes[0][0]) != 1 or axes[0][0][0][0].shape != (A, A):
            h.true(label + ": one grid of all surfaces", False)
            continue
        (image, origin), texts = axes[0][0][0], axes[0][1]
        h.true(label + ": first surface on top", origin == "upper")
        h.eq(label + ": squares", image, V)
        # x is the column of the square, y its row
        at = sorted((float(y), float(x), str(s)) for x, y, s in texts)
        h.true(label + ": a sign in every square", [t[:2] for t in at] == [(float(a), float(b)) for a in range(A) for b in range(A)])
        if len(at) == A * A:
            for (a, b), t in zip(np.ndindex(A, A), at):
                h.true("%s: sign of %d,%d" % (label, a, b), t[2] == sign(h, V[a, b]))


def harnesses(tier):
    def mk(name, tier="quick", **p):
        p.setdefault("known", [])
        return Harness(name, body, patches, params=p, bounds={k: v if k != "known" else [NAMES[x] for x in v] for k, v in p.items()}, tier=tier, points=4,
                       stubs=["matplotlib: recorded", "loading of the LaTeX module: nothing", "sign: decided by the solver"])
    return [mk("original_energy", A=2, N=1, orders=0, free="o"), mk("coupled_energy", A=2, N=1, orders=0, free="c"),
            mk("sampling_model", A=1, N=1, orders=1, free="", sampling=True), mk("sampling_model_states", A=2, N=2, orders=0, free="", sampling=True),
            mk("original_linear", A=1, N=2, orders=1, free="o"), mk("coupled_linear", A=1, N=2, orders=1, free="c"),
            mk("both", A=1, N=1, orders=2, free="oc"),
            mk("quadratic", A=1, N=2, orders=2, free="c", known=[VMK.E, VMK.G1]),
            mk("three_surfaces", A=3, N=1, orders=0, free="c", known_diagonal=True),
            mk("linear_coupled", A=2, N=1, orders=1, free="c", known=[VMK.E]),
            mk("linear_original", A=2, N=1, orders=1, free="o", known=[VMK.E]),
            mk("quadratic_coupled", A=2, N=2, orders=2, free="oc", known=[VMK.E, VMK.G1, VMK.G2]),
            mk("many_modes", A=2, N=11, orders=1, free="", known=[VMK.E, VMK.G1]),
            mk("three_surfaces_free", A=3, N=1, orders=0, free="o", tier="thorough")]
