"""Shared by the checks of the path-integral sampler: drives the real preprocess()/block_compute*() on symbolic models,
and computes the same quantities from the defining formulas."""
import contextlib
import json
import os

import numpy as np

from symx import core, shim
from symx.core import Sym, Unsupported
from symx.harness import Harness

from pibronic import constants
from pibronic.pimc import pimc as M
from pibronic.vibronic import vibronic_model_io as vIO
from pibronic.vibronic import VMK

KB = 1.38064852e-23 / 1.6021766208e-19       # eV / K, the documented NIST values


class Draws:
    """random number stand-in: every draw is an input of the harness"""

    def __init__(self, h, sources):
        self.h, self.sources = h, sources
        self.normals = []       # (kind, values, loc, scale)
        self.choices = []       # (population, p)
        self.uniforms = []
        self.counts = {}

    def reset(self):
        self.normals, self.choices, self.uniforms, self.counts = [], [], [], {}

    def _vars(self, tag, shape, lo, hi):
        """inputs named by the running number of the draw, so that equal histories share inputs"""
        n = self.counts.get(tag, 0)
        a = np.empty(shape, dtype=object if self.h.sym else float)
        for i in np.ndindex(*a.shape):
            a[i] = self.h.real("%s%d" % (tag, n), lo, hi)
            n += 1
        self.counts[tag] = n
        return a

    @staticmethod
    def _shape(size, *arrs):
        if size is None:
            return np.broadcast(*[np.asarray(a, dtype=object) for a in arrs]).shape
        return (size,) if np.ndim(size) == 0 else tuple(size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        sh = self._shape(size, loc, scale)
        v = self._vars("x", sh, -1.5, 1.5)
        lo = np.broadcast_to(np.asarray(loc, dtype=object), sh)
        sc = np.broadcast_to(np.asarray(scale, dtype=object), sh)
        self.normals.append(("normal", v, lo, sc))
        if self.h.p.get("affine"):
            v = self._basis(v)
            return lo + sc * v if self.h.sym else np.asarray(lo + sc * v, dtype=float)
        return self._basis(v)

    def standard_normal(self, size=None, **kw):
        sh = self._shape(size, 0.0)
        v = self._vars("z", sh, -1.5, 1.5)
        self.normals.append(("standard", v, np.zeros(sh), np.ones(sh)))
        return self._basis(v)

    def _basis(self, v):
        """inputs are coordinates along the exact ring modes; LAPACK picks its own basis of a degenerate pair"""
        if self.h.sym or v.ndim == 0 or v.shape[-1] != self.h.p["P"]:
            return v.copy()
        C = ring(v.shape[-1])
        Q = np.linalg.eigh(C)[1].T.dot(exact_ring(v.shape[-1])[1])
        return np.einsum('kl,...l->...k', Q, v)

    def randn(self, *shape):
        return self.standard_normal(shape)

    def choice(self, a, size=None, replace=True, p=None):
        pop = list(a) if np.ndim(a) else list(range(a))
        sh = self._shape(size, 0)
        self.choices.append((pop, None if p is None else list(p)))
        n = int(np.prod(sh))
        src = [pop[self.sources[i % len(self.sources)]] for i in range(n)]
        return np.array(src).reshape(sh)

    def random(self, size=None):
        sh = self._shape(size, 0.0)
        v = self._vars("u", sh, 0.05, 0.95)
        self.uniforms.append(v)
        return v.copy()

    random_sample = random

    def rand(self, *shape):
        return self.random(shape)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.random(self._shape(size, low, high))

    def seed(self, *a):
        return None

    def default_rng(self, *a):
        return self

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("numpy.random." + n)

    def concrete_patches(self):
        return [(np.random, n, getattr(self, n)) for n in
                ("normal", "standard_normal", "randn", "choice", "random", "random_sample", "rand", "uniform",
                 "default_rng")]


def patches(h):
    """symbolic mode: the modules' numpy, scipy, json and physical constant"""
    h.draws = Draws(h, h.p.get("sources", [0]))
    npz = shim.NPShim(random=h.draws, store=h.store)
    js = shim.JsonShim()
    kb = core.TAB.get("var", "kB", name="kB", positive=True)
    kb.evalf = lambda e: KB
    return [(M, "np", npz), (M, "F64", object), (M, "scipy", shim.ScipyShim()), (M, "json", js),
            (vIO, "np", npz), (vIO, "F64", object), (vIO, "json", js),
            (constants, "boltzman", Sym.atom(kb)),
            (M, "print", lambda *a, **k: None)]


def kB(h):
    return Sym.atom(core.TAB.by_key[("var", "kB")]) if h.sym else KB


# ----------------------------------------------------------------------------------------------------------------------
# inputs
# ----------------------------------------------------------------------------------------------------------------------
def sym_in(h, name, lead, A, lo, hi, zero_diag=False):
    """array (lead..., A, A), symmetric in the last two indices and in a leading mode pair"""
    a = h.zeros(tuple(lead) + (A, A))
    for i in np.ndindex(*lead):
        for x in range(A):
            for y in range(x, A):
                if zero_diag and x == y:
                    continue
                j = tuple(sorted(i))
                v = h.real("%s_%s_%d%d" % (name, "".join(map(str, j)), x, y), lo, hi)
                a[i + (x, y)] = v
                a[i + (y, x)] = v
    return a


def inputs(h):
    p = h.p
    A, N, Ar = p["A"], p["N"], p.get("Ar", p["A"])
    m = type("Inputs", (), {})()
    m.T = h.real("T", 4000.0, 16000.0, pos=True)
    m.w = h.array("w", (N,), 0.2, 1.5, pos=True)
    m.E = sym_in(h, "E", (), A, -0.8, 0.8)
    m.lin = sym_in(h, "lin", (N,), A, -0.5, 0.5)
    m.quad = sym_in(h, "quad", (N, N), A, -0.3, 0.3) if p.get("quad", True) else h.zeros((N, N, A, A))
    m.rE = h.array("rE", (Ar,), -0.8, 0.8)
    m.rlin = h.array("rlin", (N, Ar), -0.5, 0.5)
    m.rw = m.w if p.get("same_w", True) else h.array("rw", (N,), 0.2, 1.5, pos=True)
    m.dB = h.real("dB", 0.02, 0.1, pos=True) if p.get("pm") else None
    return m


def write_models(h, m):
    A, N, Ar = h.p["A"], h.p["N"], h.p.get("Ar", h.p["A"])
    vib = {"number of modes": N, "number of surfaces": A, "energies": h.jsonable(m.E), "frequencies": h.jsonable(m.w),
           "linear couplings": h.jsonable(m.lin), "quadratic couplings": h.jsonable(m.quad)}
    if not h.p.get("quad", True):
        del vib["quadratic couplings"]
    rho = {"number of modes": N, "number of surfaces": Ar, "energies": h.jsonable(m.rE),
           "frequencies": h.jsonable(m.rw), "linear couplings": h.jsonable(m.rlin)}
    pv, pr = h.path("coupled_model.json"), h.path("sampling_model.json")
    for path, d in ((pv, vib), (pr, rho)):
        with open(path, "w", encoding="UTF8") as f:
            f.write(json.dumps(d, ensure_ascii=False))
    return pv, pr


def make_data(h, m, cls=None):
    p = h.p
    pv, pr = write_models(h, m)
    cls = cls or (M.BoxDataPM if p.get("pm") else M.BoxData)
    data = cls(m.dB) if p.get("pm") else cls()
    data.id_data, data.id_rho = 0, 0
    data.path_vib_model, data.path_rho_model = pv, pr
    data.states, data.modes = p["A"], p["N"]
    data.beads, data.temperature = p["P"], m.T
    data.block_size = p.get("B", 1)
    data.blocks = p.get("blocks", 1)
    data.samples = data.block_size * data.blocks
    data.hash_vib, data.hash_rho = "v" * 8, "r" * 8
    return data


@contextlib.contextmanager
def environment(h):
    """concrete mode: only the random number generator is replaced"""
    if h.sym:
        yield
    else:
        h.draws = Draws(h, h.p.get("sources", [0]))
        with shim.patched(h.draws.concrete_patches() + [(M, "print", lambda *a, **k: None)]):
            yield


def saved_arrays(h, root):
    """contents of the single result file that was written"""
    files = [f for f in sorted(os.listdir(root)) if f.endswith(".npz")]
    if len(files) != 1:
        return None, files
    path = os.path.join(root, files[0])
    src = h.store.load(path) if h.sym else np.load(path)
    return {k: np.array(src[k], dtype=object) if h.sym else src[k] for k in src.keys()}, files[0]


def run(h, m, data=None, root="results"):
    """run the real sampler; returns (saved arrays, file name)"""
    data = data or make_data(h, m)
    root = os.path.dirname(h.path(root, "x"))
    if h.sym:
        h.draws.reset()
    with environment(h):
        data.preprocess()
        res = (M.BoxResultPM if h.p.get("pm") else M.BoxResult)(data=data)
        res.path_root = root
        res.id_job = h.p.get("job")
        (M.block_compute_pm if h.p.get("pm") else M.block_compute)(data, res)
    return saved_arrays(h, root) + (data,)


# ----------------------------------------------------------------------------------------------------------------------
# oracle
# ----------------------------------------------------------------------------------------------------------------------
def ring(P):
    C = np.zeros((P, P), dtype=int)
    for i in range(P):
        C[i, (i + 1) % P] = 1
        C[i, (i - 1) % P] = 1
    return C


def exact_ring(P):
    """eigenpairs as floats, in the basis the symbolic stub uses"""
    r = shim._exact_circulant(ring(P))
    if r is None:
        return np.linalg.eigh(ring(P))
    f = np.vectorize(lambda s: Sym.lift(s).evalf({}), otypes=[float])
    return f(r[0]), f(r[1])


def ring_eig(h, P):
    if h.sym:
        return shim.sym_eigh(ring(P))
    return exact_ring(P)


def sampled_R(h, m):
    """configurations (X, N, P) from the draws: R = d_source + U x"""
    p = h.p
    N, P, X = p["N"], p["P"], p.get("B", 1) * p.get("blocks", 1)
    lam, U = ring_eig(h, P)
    beta = 1 / (kB(h) * m.T)
    tau = beta / P
    cc = np.concatenate([np.asarray(v, dtype=object).reshape(-1) for _, v, _, _ in h.draws.normals])
    if cc.size != X * N * P:
        raise Unsupported("unexpected number of normal draws")
    cc = cc.reshape(X, N, P)
    std = np.concatenate([np.array([k == "standard"] * v.size) for k, v, _, _ in h.draws.normals]).reshape(X, N, P)
    pops = [c for c in h.draws.choices]
    R = np.empty((X, N, P), dtype=object)
    src = sources(h)
    for x in range(X):
        for n in range(N):
            d = -m.rlin[n, src[x]] / m.rw[n]
            q = [cc[x, n, k] for k in range(P)]
            for k in range(P):
                if std[x, n, k] or p.get("affine"):
                    q[k] = q[k] * h.sqrt(1 / (2 * h.coth(tau * m.rw[n]) - h.csch(tau * m.rw[n]) * lam[k]))
            for j in range(P):
                R[x, n, j] = d + sum(U[j, k] * q[k] for k in range(P))
    return R


def sources(h):
    X = h.p.get("B", 1) * h.p.get("blocks", 1)
    s = h.p.get("sources", [0])
    return [s[i % len(s)] for i in range(X)]


def O_elements(h, E, lin, w, R, tau):
    """O[p][a]: harmonic propagator element of every state between bead p and p+1 (common constants dropped)"""
    N, P = R.shape
    A = len(E)
    out = []
    for p in range(P):
        row = []
        for a in range(A):
            e = -tau * E[a]
            pref = 1
            for n in range(N):
                x = tau * w[n]
                d = -lin[n, a] / w[n]
                q, q2 = R[n, p] - d, R[n, (p + 1) % P] - d
                e = e + tau * (lin[n, a] * lin[n, a]) / (2 * w[n])
                e = e - (h.coth(x) * (q * q + q2 * q2) - 2 * h.csch(x) * q * q2) / 2
                pref = pref * h.csch(x)
            row.append(h.exp(e) * h.sqrt(pref))
        out.append(row)
    return out


def coupling(h, m, R, p):
    """V(R_p) without the parts that belong to the harmonic propagator"""
    N = R.shape[0]
    A = m.E.shape[0]
    V = h.zeros((A, A))
    for a in range(A):
        for b in range(A):
            v = 0
            if a != b:
                v = v + m.E[a, b]
                for n in range(N):
                    v = v + m.lin[n, a, b] * R[n, p]
            for n in range(N):
                for k in range(N):
                    v = v + m.quad[n, k, a, b] * R[n, p] * R[k, p] / 2
            V[a, b] = v
    return V


def g_of(h, m, R, tau):
    """Tr prod_p exp(-tau V_p) O_p"""
    N, P = R.shape
    A = m.E.shape[0]
    O = O_elements(h, [m.E[a, a] for a in range(A)], np.array([[m.lin[n, a, a] for a in range(A)] for n in range(N)]),
                   m.w, R, tau)
    prod = None
    for p in range(P):
        Mp = h.expm(coupling(h, m, R, p), -tau)
        X = np.empty((A, A), dtype=object)
        for a in range(A):
            for b in range(A):
                X[a, b] = Mp[a, b] * O[p][b]
        prod = X if prod is None else prod.dot(X)
    return sum(prod[a, a] for a in range(A))


def rho_of(h, m, R, tau):
    """sum over the mixture of prod_p O_p"""
    O = O_elements(h, m.rE, m.rlin, m.rw, R, tau)
    t = 0
    for a in range(len(m.rE)):
        x = 1
        for p in range(R.shape[1]):
            x = x * O[p][a]
        t = t + x
    return t
