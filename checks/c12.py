"""C12: diagonal (sampling) models made from a coupled model"""
import os
import numpy as np
from symx import core, shim
from symx.core import Sym, Unsupported
from symx.shim import comb
from symx.harness import Harness, _engine_error, harness_error
from checks import model_common as mc
from checks.model_common import VIO, VMK, SHORT
from pibronic.data.file_structure import FileStructure

PROPERTY = "C12"
EXPLANATION = ("Coupled models of symbolic numbers go through the real functions that derive diagonal models; z3 decides every branch on "
               "the values and whether a number of the derived model can differ from the defining expression.")
ASSUMPTIONS = ["json stores and returns numbers exactly", "numpy's symmetric eigenvalue routine returns the eigenvalues in ascending order",
               "floating point is modelled as real arithmetic"]
OUTSIDE = ["models larger than stated", "interrupted writes", "cubic and quartic terms in the recalculation of energies"]


def structure(h):
    return FileStructure(os.path.dirname(h.path("root", "x")), 2, 1)


def diagonal_of(h, d, A, N):
    out = {VMK.N: N, VMK.A: A}
    for k in mc.ORDER:
        v = mc.full(h, d, k, A, N, False)
        if k is VMK.w:
            out[k] = v
            continue
        r = np.empty(mc.shape(k, A, N, True), dtype=object)
        for i in np.ndindex(*r.shape):
            r[i] = v[i + (i[-1],)]
        out[k] = r
    return out


def text(p):
    with open(p, encoding="UTF8") as f:
        return f.read()


def body_remove(h):
    A, N, keys = h.p["A"], h.p["N"], h.p["keys"]
    d = mc.model(h, A, N, keys, zeros=h.p["zeros"])
    if h.p.get("offdiag"):      # a parameter that only couples
        k = h.p["offdiag"][0]
        if h.bool("no diagonal part"):
            for i in np.ndindex(*d[k].shape):
                if i[-1] == i[-2]:
                    d[k][i] = Sym.const(0) if h.sym else 0.0
    want = diagonal_of(h, d, A, N)
    how = h.p["how"]
    if how == "direct":
        src, dst = h.path("m", "a.json"), h.path("m", "b.json")
        mc.write(h, src, d)
        before = text(src)
        with h.no_exception("creation succeeds"):
            VIO.remove_coupling_from_model(src, dst)
        outs = [dst]
    else:
        FS = structure(h)
        src = FS.path_vib_model
        mc.write(h, src, d)
        before = text(src)
        if h.p.get("old"):
            for p in (FS.path_har_model, FS.path_rho_model):
                mc.write(h, p, {VMK.N: 1, VMK.A: 1, VMK.E: np.array([7.0]), VMK.w: np.array([3.0])})
        rho_before = text(FS.path_rho_model) if os.path.isfile(FS.path_rho_model) else None
        with h.no_exception("creation succeeds"):
            if how == "harmonic":
                r = VIO.create_harmonic_model(FS)
                h.true("path returned", r == FS.path_har_model)
                outs = [FS.path_har_model]
            else:
                r = VIO.create_basic_diagonal_model(FS)
                h.true("path returned", r == FS.path_rho_model)
                outs = [FS.path_har_model, FS.path_rho_model]
        if how == "harmonic":
            now = text(FS.path_rho_model) if os.path.isfile(FS.path_rho_model) else None
            h.true("the sampling model is left alone", now == rho_before)
    h.true("the coupled model is left alone", text(src) == before)
    for i, p in enumerate(outs):
        mc.eq_model(h, "diagonal model %d" % i, mc.stored(h, p, A, N, True), want, A, N, True)


def body_fill(h):
    A, N, keys = h.p["A"], h.p["N"], h.p["keys"]
    d = mc.model(h, A, N, keys)
    keep = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in d.items()}
    with h.no_exception("succeeds"):
        VIO.fill_offdiagonal_of_model_with_zeros(d)
    h.true("keys", list(d) == list(keep))
    for k in keys:
        want = keep[k].copy()
        if k is not VMK.w:
            for i in np.ndindex(*want.shape):
                if i[-1] != i[-2]:
                    want[i] = Sym.const(0) if h.sym else 0.0
        h.eq("only the diagonal remains: " + SHORT[k], d[k], want)


def bounded(h, d):
    """tolerances are relative: entries of ordinary size"""
    if h.sym:
        for v in d.values():
            if isinstance(v, np.ndarray):
                for x in v.flat:
                    h.assume(comb("and", [x <= 5, x >= -5]))


def body_symmetric(h):
    A, N, keys, modes = h.p["A"], h.p["N"], h.p["keys"], h.p["modes"]
    d = mc.model(h, A, N, keys, sym=True)
    which = int(h.int("asymmetric parameter", 0, len(h.p["perturb"])))
    if which:
        k = h.p["perturb"][which - 1]
        idx = []
        for i in np.ndindex(*d[k].shape):
            n = len(i) - 2
            if modes:
                j = (i[1], i[0]) + ((i[3], i[2]) if n == 4 else ()) + i[n:]
            else:
                j = i[:n] + (i[-1], i[-2])
            if i < j:
                idx.append(i)
        delta = h.array("delta", (len(idx),), -2.0, 2.0)
        h.assume(comb("or", [comb("or", [x >= 0.01, x <= -0.01]) for x in delta]) if h.sym else max(abs(delta)) >= 0.01)
        for x, i in zip(delta, idx):
            d[k][i] = d[k][i] + x
    bounded(h, d)
    f = VIO.model_parameters_are_symmetric_in_modes if modes else VIO.model_parameters_are_symmetric_in_surfaces
    h.true("symmetric if and only if no pair differs", bool(f(d)) == (which == 0))


def body_energies(h):
    A, Ai, N = h.p["A"], h.p["Ai"], h.p["N"]
    FS = structure(h)
    vib = mc.model(h, A, N, [VMK.E, VMK.w] + ([VMK.G1] if h.p.get("vlin", True) else []), sym=True, tag="v")
    it = mc.model(h, Ai, N, [VMK.E, VMK.w] + ([VMK.G1] if h.p.get("rlin", True) else []), True, tag="r")
    mc.write(h, FS.path_vib_model, vib)
    path = FS.path_rho_model
    mc.write(h, path, it)
    before = text(FS.path_vib_model)
    with h.no_exception("recalculation succeeds"):
        VIO.recalculate_energy_values_of_diagonal_model(FS, path)
    h.true("the coupled model is left alone", text(FS.path_vib_model) == before)
    got = mc.stored(h, path, Ai, N, True)
    lin_i = mc.full(h, it, VMK.G1, Ai, N, True)
    lin = mc.full(h, vib, VMK.G1, A, N, False)
    mc.eq_model(h, "other parameters", got, it, Ai, N, True, [VMK.w, VMK.G1, VMK.G2, VMK.G3, VMK.G4])
    for s in range(Ai):
        q = [-lin_i[n, s] / it[VMK.w][n] for n in range(N)]
        V = np.empty((A, A), dtype=object)
        for a in range(A):
            for b in range(A):
                V[a, b] = vib[VMK.E][a, b] + sum(lin[n, a, b] * q[n] for n in range(N))
                if a == b:
                    V[a, b] = V[a, b] + sum(vib[VMK.w][n] * q[n] * q[n] for n in range(N)) / 2
        delta = -sum(lin_i[n, s] * lin_i[n, s] / it[VMK.w][n] for n in range(N)) / 2
        x = got[VMK.E][s] + delta
        if h.sym:
            lam = shim._Linalg.eigvalsh(V)
            h.true("energy of state %d is an eigenvalue at its minimum" % s, comb("or", [x == l for l in lam]))
            h.true("energy of state %d is the lowest" % s, comb("and", [x <= l for l in lam]))
        else:
            h.eq("energy of state %d" % s, x, np.linalg.eigvalsh(V.astype(float))[0])


def body_energies_refused(h):
    """quadratic terms are not supported: refused, nothing overwritten"""
    A, N = 2, 2
    FS = structure(h)
    side = h.p["side"]
    vib = mc.model(h, A, N, [VMK.E, VMK.w, VMK.G1] + ([VMK.G2] if side == "vib" else []), sym=True, tag="v")
    it = mc.model(h, A, N, [VMK.E, VMK.w, VMK.G1] + ([VMK.G2] if side == "rho" else []), True, tag="r")
    if not h.sym:
        (vib if side == "vib" else it)[VMK.G2].flat[0] = 1.0
    mc.write(h, FS.path_vib_model, vib)
    mc.write(h, FS.path_rho_model, it)
    before = text(FS.path_rho_model)
    err = None
    try:
        VIO.recalculate_energy_values_of_diagonal_model(FS, FS.path_rho_model)
    except Unsupported:
        raise
    except Exception as e:  # noqa
        if (h.sym and _engine_error(e)) or harness_error(e):
            raise
        err = e
    h.true("refused", err is not None)
    h.true("file left alone", text(FS.path_rho_model) == before)


def harnesses(tier):
    E, w, l, q, c, r = mc.ORDER

    def mk(name, body, tier="quick", tol=False, **p):
        return Harness(name, body, lambda h: mc.patches(h, tol), params=p,
                       bounds={k: (v if not isinstance(v, list) else [SHORT[x] for x in v]) for k, v in p.items()}, tier=tier, points=4)
    return [mk("remove_coupling", body_remove, how="direct", A=2, N=2, keys=[E, w, l, q], zeros=[E, l, q], offdiag=[l]),
            mk("remove_coupling_three_surfaces", body_remove, how="direct", A=3, N=2, keys=[E, w, l], zeros=[l], offdiag=[E]),
            mk("remove_coupling_high_orders", body_remove, how="direct", A=2, N=1, keys=[E, w, l, q, c, r], zeros=[c, r], offdiag=[r]),
            mk("remove_coupling_same_size", body_remove, how="direct", A=2, N=2, keys=[E, w, c, r], zeros=[]),
            mk("harmonic", body_remove, how="harmonic", A=2, N=2, keys=[E, w, l, q], zeros=[l, q], old=True),
            mk("sampling", body_remove, how="basic", A=2, N=2, keys=[E, w, l, q], zeros=[l, q], old=True),
            mk("sampling_fresh", body_remove, how="basic", A=2, N=2, keys=[E, w, l], zeros=[E, l]),
            mk("fill_offdiagonal", body_fill, A=3, N=2, keys=[E, w, l, q]),
            mk("fill_offdiagonal_high_orders", body_fill, A=2, N=2, keys=[E, w, c, r]),
            mk("symmetric_surfaces", body_symmetric, tol=True, A=2, N=2, modes=False, keys=[E, w, l, q], perturb=[E, l, q]),
            mk("symmetric_surfaces_high_orders", body_symmetric, tol=True, A=2, N=2, modes=False, keys=[w, c], perturb=[c]),
            mk("symmetric_surfaces_quartic", body_symmetric, tol=True, A=2, N=1, modes=False, keys=[w, r], perturb=[r]),
            mk("symmetric_surfaces_three", body_symmetric, tol=True, A=3, N=1, modes=False, keys=[E, w, l], perturb=[E, l]),
            mk("symmetric_modes", body_symmetric, tol=True, A=2, N=2, modes=True, keys=[E, w, l, q], perturb=[q]),
            mk("symmetric_modes_quartic", body_symmetric, tol=True, A=1, N=2, modes=True, keys=[w, r], perturb=[r]),
            mk("energies", body_energies, A=2, Ai=2, N=2),
            mk("energies_more_states", body_energies, A=2, Ai=3, N=1),
            mk("energies_no_linear", body_energies, A=2, Ai=1, N=2, rlin=False),
            mk("energies_no_coupling", body_energies, A=2, Ai=1, N=1, vlin=False),
            mk("energies_three_surfaces", body_energies, A=3, Ai=1, N=1),
            mk("energies_quadratic", body_energies_refused, side="vib"),
            mk("energies_quadratic_sampling", body_energies_refused, side="rho"),
            mk("remove_coupling_large", body_remove, tier="thorough", how="direct", A=3, N=3, keys=[E, w, l, q, c], zeros=[E, l, q, c], offdiag=[q]),
            mk("symmetric_surfaces_large", body_symmetric, tier="thorough", tol=True, A=3, N=2, modes=False, keys=[E, w, l, q, c], perturb=[E, l, q, c]),
            mk("energies_large", body_energies, tier="thorough", A=3, Ai=3, N=3)]
