"""Shared by the checks of the statistical analysis"""
from fractions import Fraction
import numpy as np
from symx import core, shim
from symx.core import Sym, Unsupported
from symx.harness import Harness, H

from pibronic import constants
from pibronic.stats import stats as ST
from pibronic.stats import jackknife as JK
from pibronic.pimc import BoxResultPM
from pibronic.pimc import pimc as M

KB = 1.38064852e-23 / 1.6021766208e-19


def patches(h):
    npz = shim.NPShim(store=h.store)
    kb = core.TAB.get("var", "kB", name="kB", positive=True)
    kb.evalf = lambda e: KB
    k = Sym.atom(kb)
    out = [(ST, "np", npz), (JK, "np", npz), (M, "np", npz), (M, "F64", object), (constants, "boltzman", k)]
    for mod in (ST, JK):
        if hasattr(mod, "boltzman"):
            out.append((mod, "boltzman", k))
    return out


def kB(h):
    return Sym.atom(core.TAB.by_key[("var", "kB")]) if h.sym else KB


class In:
    pass


def inputs(h):
    X = h.p["X"]
    m = In()
    m.X = X
    m.T = h.real("T", 50.0, 2000.0, pos=True)
    m.dB = h.real("dB", 0.05, 0.9, pos=True)
    for k, (name, lo, hi) in enumerate((("rho", 0.3, 2.0), ("g", 0.5, 2.0), ("gp", 0.2, 3.0), ("gm", 0.2, 3.0))):
        if name in h.p.get("symbolic", ["rho", "g", "gp", "gm"]):
            v = h.array(name, (X,), lo, hi, pos=True)
        else:       # fixed numbers which all differ
            v = h.zeros((X,))
            for i in range(X):
                x = Fraction(2 * ((i * (3 + k) + k) % 7) + 3 + i + k, 8)
                v[i] = Sym.const(x) if h.sym else float(x)
        setattr(m, name, v)
    m.E = h.real("E_har", -2.0, 2.0)
    m.Cv = h.real("Cv_har", -2.0, 2.0)
    m.ap = h.real("alpha_plus", 0.5, 2.0, pos=True)
    m.am = h.real("alpha_minus", 0.5, 2.0, pos=True)
    return m


def result(m):
    r = BoxResultPM()
    r.samples = m.X
    r.scaled_rho, r.scaled_g, r.scaled_gofr_plus, r.scaled_gofr_minus = m.rho.copy(), m.g.copy(), m.gp.copy(), m.gm.copy()
    return r


def analytic(m):
    return {"E": m.E, "Cv": m.Cv, "alpha_plus": m.ap, "alpha_minus": m.am, "Z": 1}


def run(h, m, f):
    """the analysis function at a symbolic finite-difference step"""
    r, a = result(m), analytic(m)
    with shim.patched([(constants, "delta_beta", m.dB)]):
        out = f(m.T, r, a)
    for name, x, y in (("rho", r.scaled_rho, m.rho), ("g", r.scaled_g, m.g), ("g+", r.scaled_gofr_plus, m.gp),
                       ("g-", r.scaled_gofr_minus, m.gm)):
        h.eq("samples untouched: " + name, x, y)
    return out


def point(h, m, idx, alpha):
    """(Z, E, Cv) without the harmonic part, from the samples listed in idx"""
    n = len(idx)
    Z = sum(m.g[i] / m.rho[i] for i in idx) / n
    fp, fm = (m.ap, m.am) if alpha else (1, 1)
    Zp = sum(m.gp[i] / m.rho[i] for i in idx) / n * fp
    Zm = sum(m.gm[i] / m.rho[i] for i in idx) / n * fm
    E = -(Zp - Zm) / (2 * m.dB) / Z
    Cv = ((Zp - 2 * Z + Zm) / (m.dB * m.dB) / Z - E * E) / (kB(h) * m.T * m.T)
    return Z, E, Cv


def sizes(h, m, alpha):
    """magnitudes of the terms which make up Z, E and Cv; concrete runs differ by rounding of that size"""
    if h.sym:
        return 0.0, 0.0, 0.0
    fp, fm = (m.ap, m.am) if alpha else (1, 1)
    z = np.max(np.abs(m.g / m.rho))
    ratio = max(z, np.max(m.gp / m.rho) * fp, np.max(m.gm / m.rho) * fm) / np.min(np.abs(m.g / m.rho))
    e = ratio / m.dB
    return float(z), float(e + abs(m.E)), float((e * e + ratio / m.dB ** 2) / (kB(h) * m.T ** 2) + abs(m.Cv))


def variance(v, ddof):
    n = len(v)
    mu = sum(v) / n
    return sum((x - mu) * (x - mu) for x in v) / (n - ddof)
