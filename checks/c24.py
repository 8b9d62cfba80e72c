"""C24: generated models and templates are valid models of the requested kind"""
import itertools as it
import random
import numpy as np
from symx import core, shim
from symx.core import Sym
from symx.shim import comb
from symx.harness import Harness
from checks import es_common as ec
from checks import model_common as mc
from checks.model_common import VIO, VMK, SHORT

PROPERTY = "C24"
EXPLANATION = ("The real generators run with a random source whose every draw is a symbolic number and with symbolic ranges and scalings; z3 decides "
               "whether any parameter can leave its range, be unsymmetric or differ from the requested one.")
ASSUMPTIONS = ["numpy's and python's uniform draws lie in the interval they are asked for", "floating point is modelled as real arithmetic"]
OUTSIDE = ["the distribution of the draws inside the interval", "more surfaces or modes than stated", "random orthonormal matrices"]


class Source:
    """random number stand-in for numpy.random and random: every draw is an input"""

    def __init__(self, h):
        self.h, self.n, self.u, self.ints = h, 0, [], 0

    def one(self):
        x = self.h.real("u%d" % self.n, 0.0, 1.0)
        self.n += 1
        self.h.assume(comb("and", [x >= 0, x < 1]) if self.h.sym else 0 <= x < 1)
        self.u.append(x)
        return x

    def random(self, size=None):
        if size is None or size == ():
            return self.one()
        a = np.empty(size, dtype=object if self.h.sym else float)
        for i in np.ndindex(*a.shape):
            a[i] = self.one()
        return a

    random_sample = ranf = sample = random

    def rand(self, *shape):
        return self.random(shape)

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None:
            size = np.broadcast(np.asarray(low, dtype=object), np.asarray(high, dtype=object)).shape
        return low + (high - low) * self.random(size)

    def randint(self, a, b=None, size=None):
        """as in the module random: both ends included"""
        x = self.h.int("int%d" % self.ints, a, b)
        self.ints += 1
        self.h.assume(x <= self.h.p["draw"])
        return int(x)

    def seed(self, *a):
        return None

    def default_rng(self, *a):
        return self

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise core.Unsupported("random." + n)


class NP(shim.NPShim):
    def linspace(self, start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
        if retstep or axis:
            raise core.Unsupported("linspace")
        n = int(num)
        out = np.empty(n, dtype=object)
        a, b = Sym.lift(start), Sym.lift(stop)
        for i in range(n):
            out[i] = a if i == 0 else a + (b - a) * i / (n - 1 if endpoint else n)
        return out


def patches(h):
    h.source = Source(h)
    return [(VIO, "np", NP(random=h.source, store=h.store)), (VIO, "F64", object), (VIO, "random", h.source)]


def run(h, f, *a):
    if h.sym:
        return f(*a)
    h.source = Source(h)
    names = ("uniform", "random", "random_sample", "rand", "default_rng")
    with shim.patched([(np.random, n, getattr(h.source, n)) for n in names] + [(random, n, getattr(h.source, n)) for n in ("uniform", "random", "randint")]):
        return f(*a)


def within(h, label, x, lo, hi):
    if h.sym:
        h.true(label, comb("and", [Sym.lift(x) >= lo, Sym.lift(x) <= hi]))
    else:
        t = 1e-9 * (1 + abs(lo) + abs(hi))
        h.true(label, lo - t <= x <= hi + t)


def check_model(h, m, A, N, diag, fr, er, ls, independent=True):
    h.true("dimensions", m[VMK.A] == A and m[VMK.N] == N)
    for k in mc.ORDER:
        h.true("shape of " + SHORT[k], k not in m or np.shape(m[k]) == mc.shape(k, A, N, diag))
        if k in m and np.shape(m[k]) != mc.shape(k, A, N, diag):
            return
    if fr is not None:
        h.eq("frequencies", m[VMK.w], shim.obj([fr[0] if i == 0 else fr[0] + (fr[1] - fr[0]) * i / (N - 1) for i in range(N)]) if h.sym
             else np.linspace(fr[0], fr[1], N))
    free = []
    flat = not independent
    for i in np.ndindex(*m[VMK.E].shape):
        within(h, "energy in its range", m[VMK.E][i], er[0], er[1])
        if not diag:
            h.eq("energies symmetric", m[VMK.E][i], m[VMK.E][i[::-1]])
        if not flat and (diag or i[0] <= i[1]):
            free.append((m[VMK.E][i] - er[0]) / (er[1] - er[0]))
    G = m[VMK.G1]
    for i in np.ndindex(*G.shape):
        w = m[VMK.w][i[0]]
        if ls is not None:
            within(h, "linear term in its range", G[i] * w, -ls, ls)
        if not diag:
            h.eq("linear terms symmetric", G[i], G[(i[0], i[2], i[1])])
        if not flat and (diag or i[1] <= i[2]):
            free.append((G[i] * w / (ls if ls is not None else 1) + 1) / 2)
    for k in (VMK.G2, VMK.G3, VMK.G4):
        if k in m:
            h.eq("no " + SHORT[k], m[k], h.zeros(mc.shape(k, A, N, diag)))
    if flat:
        return
    # no two parameters which may differ are always the same
    u = [float(x) for x in h.source.u] if not h.sym else None
    if h.sym:
        keys = [Sym.lift(x).key() for x in free]
        ok = len(set(keys)) == len(keys)
    else:
        ok = len(set(u)) < len(u) or all(abs(x - y) > 1e-12 for x, y in it.combinations(free, 2))
    h.true("parameters are drawn independently", ok)


def body_generate(h):
    A, N = int(h.int("surfaces", 1, h.p["A"])), int(h.int("modes", 1, h.p["N"]))
    diag = bool(h.bool("diagonal"))
    fr = [h.real("lowest frequency", 0.01, 0.5, pos=True), h.real("highest frequency", 0.5, 2.0, pos=True)]
    er = [h.real("lowest energy", -2.0, 1.0), h.real("highest energy", 1.0, 3.0)]
    ls = h.real("linear scaling", 0.01, 0.3, pos=True)
    h.assume(fr[0] < fr[1])
    h.assume(er[0] < er[1])
    given = {"numStates": A, "numModes": N, "diagonal": diag, "frequency_range": list(fr), "energy_range": list(er), "linear_scaling": ls}
    dflt = {"frequency_range": [0.02, 0.04], "energy_range": [0.0, 2.0], "linear_scaling": 0.04, "numStates": 2, "numModes": 3, "diagonal": False}
    if h.p["optional"]:
        which = int(h.int("left out", 0, len(given)))
        for i, k in enumerate(list(given)):
            if which in (i, len(dflt)):
                del given[k]
    p = dict(dflt, **given)
    keep = {k: (list(v) if isinstance(v, list) else v) for k, v in given.items()}
    arg = None if not given and h.bool("no dictionary") else given
    with h.no_exception("generated"):
        m = run(h, VIO.generate_vibronic_model_data, arg)
    h.true("the request is left alone", list(given) == list(keep) and all(
        all(a is b for a, b in zip(given[k], keep[k])) if isinstance(keep[k], list) else given[k] is keep[k] for k in keep))
    check_model(h, m, p["numStates"], p["numModes"], p["diagonal"], p["frequency_range"], p["energy_range"], p["linear_scaling"])


def body_limits(h):
    """ranges of one point, descending frequencies and a scaling of zero are as good as any other"""
    A, N = int(h.int("surfaces", 1, h.p["A"])), int(h.int("modes", 1, h.p["N"]))
    diag = bool(h.bool("diagonal"))
    lo, hi = h.real("one frequency", 0.01, 0.5, pos=True), h.real("other frequency", 0.5, 2.0, pos=True)
    e0, e1 = h.real("lowest energy", -2.0, 1.0), h.real("highest energy", 1.0, 3.0)
    ls = h.real("linear scaling", 0.01, 0.3, pos=True)
    h.assume(e0 < e1)
    h.assume(lo < hi)
    kind = int(h.int("limit", 0, 3))
    zero = Sym.const(0) if h.sym else 0.0
    fr, er, ls = ([hi, lo] if kind == 0 else [lo, lo] if kind == 1 else [lo, hi]), ([e0, e0] if kind == 2 else [e0, e1]), (zero if kind == 3 else ls)
    given = {"numStates": A, "numModes": N, "diagonal": diag, "frequency_range": fr, "energy_range": er,
             "linear_scaling": 0.0 if kind == 3 else ls}
    if kind == 2 and h.bool("range of energies at zero"):
        given["energy_range"] = er = [0.0, 0.0]
    with h.no_exception("generated"):
        m = run(h, VIO.generate_vibronic_model_data, given)
    check_model(h, m, A, N, diag, fr, er, ls, independent=False)
    with h.no_exception("generated again"):
        keep = {k: np.array(v, copy=True) for k, v in m.items() if isinstance(v, np.ndarray)}
        n = run(h, VIO.generate_vibronic_model_data, given)
        for k in keep:
            if n[k].flags.writeable:
                n[k].fill(1)
    for k in keep:
        h.eq("the first model is left alone: " + SHORT[k], m[k], keep[k])


def body_random(h):
    diag = h.p["diagonal"]
    with h.no_exception("generated"):
        m = run(h, VIO.create_random_diagonal_model if diag else VIO.create_random_model)
        A, N = m[VMK.A], m[VMK.N]
        (VIO.verify_diagonal_model_parameters if diag else VIO.verify_model_parameters)(m)
    h.true("several surfaces and modes", 2 <= A <= 10 and 2 <= N <= 20)
    for i in range(N):
        h.true("positive frequencies", m[VMK.w][i] > 0)
    ok = True
    for k in mc.ORDER:
        ok = ok and (k not in m or np.shape(m[k]) == mc.shape(k, A, N, diag))
    h.true("shapes", ok)
    if ok and not diag:
        for k in (VMK.E, VMK.G1):
            h.eq("symmetric " + SHORT[k], m[k], np.swapaxes(m[k], -1, -2))
    for k in (VMK.E, VMK.G1):
        v = [x for x in np.asarray(m[k], dtype=object).flat]
        n = len(set((Sym.lift(x).key() if h.sym else float(x)) for x in v))
        if h.sym or len(set(map(float, h.source.u))) == len(h.source.u):
            h.true("different values of " + SHORT[k], n == (A if diag else A * (A + 1) // 2) * (1 if k is VMK.E else N))


def body_template(h):
    A, N = int(h.int("surfaces", 1, h.p["A"])), int(h.int("modes", 1, h.p["N"]))
    diag = bool(h.bool("diagonal"))
    f = VIO.diagonal_model_zeros_template_json_dict if diag else VIO.model_zeros_template_json_dict
    g = VIO.diagonal_model_shape_dict if diag else VIO.model_shape_dict
    with h.no_exception("template"):
        first = f(A, N)
        for v in first.values():
            if isinstance(v, np.ndarray):
                v.fill(1)
        t, s = f(A, N), g(A, N)
    h.true("all parameters", set(t) == set(mc.ORDER) | {VMK.N, VMK.A})
    h.true("dimensions", t[VMK.A] == A and t[VMK.N] == N)
    for k in mc.ORDER:
        h.true("shape of " + SHORT[k], tuple(s[k]) == mc.shape(k, A, N, diag) and np.shape(t[k]) == mc.shape(k, A, N, diag))
        h.eq("zero " + SHORT[k], t[k], h.zeros(mc.shape(k, A, N, diag)))


def body_verify(h):
    A, N = h.p["A"], h.p["N"]
    diag = bool(h.bool("diagonal"))
    f = VIO.verify_diagonal_model_parameters if diag else VIO.verify_model_parameters
    d = {}
    miss = int(h.int("missing dimension", 0, 2))
    if miss != 1:
        d[VMK.N] = N
    if miss != 2:
        d[VMK.A] = A
    ok = miss == 0
    wrong = int(h.int("wrong parameter", 0, 6)) if ok else 0
    present = bool(h.bool("other parameters"))
    for i, k in enumerate(mc.ORDER):
        s = mc.shape(k, A, N, diag)
        if i + 1 == wrong:
            how = int(h.int("kind of error", 0, 5))
            ax = int(h.int("axis", 0, 5))
            h.assume(ax < len(s))
            if how < 2:
                s = s[:ax] + (s[ax] + (1 if how else -1),) + s[ax + 1:]
            elif how == 2:
                s = s[:ax] + s[ax + 1:]
            elif how == 3:
                s = s[:ax] + (s[ax],) + s[ax:]
            elif how == 4:      # same size
                s = s[ax:] + s[:ax]
            else:               # as many elements, another number of dimensions
                s = s[:ax] + (1,) + s[ax:]
            ok = ok and s == mc.shape(k, A, N, diag)
            d[k] = np.zeros(s)
        elif present:
            d[k] = np.zeros(s)
    if not present:
        d["comment"] = "text"
    keep = dict(d)
    e = ec.raises(h, f, d)
    h.true("accepted exactly if the dimensions are given and all shapes fit", (e is None) == ok)
    h.true("left alone", d == keep if not present and not wrong else list(d) == list(keep))


def harnesses(tier):
    def mk(nm, body, tier="quick", **p):
        return Harness(nm, body, patches, params=p, bounds=p, tier=tier, points=6)
    return [mk("generate", body_generate, A=2, N=2, optional=False), mk("generate_surfaces", body_generate, A=3, N=1, optional=False),
            mk("generate_limits", body_limits, A=2, N=2), mk("generate_defaults", body_generate, A=2, N=1, optional=True), mk("random", body_random, diagonal=False, draw=3),
            mk("random_diagonal", body_random, diagonal=True, draw=4), mk("template", body_template, A=3, N=3), mk("shapes", body_verify, A=2, N=3),
            mk("generate_large", body_generate, tier="thorough", A=4, N=4, optional=False),
            mk("random_large", body_random, tier="thorough", diagonal=False, draw=5), mk("shapes_one", body_verify, tier="thorough", A=1, N=1),
            mk("shapes_large", body_verify, tier="thorough", A=3, N=2)]
