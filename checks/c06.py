"""C06: Z, E, Cv and the error of Z from the samples"""
from checks.stats_common import *    # noqa
from checks import stats_common as sc

PROPERTY = "C06"
EXPLANATION = ("The real statistical analysis runs on symbolic samples, temperature and step; z3 decides whether Z, its error, E or Cv can "
               "differ from the sample mean, its standard error and the finite-difference derivatives of ln Z plus the harmonic part.")
ASSUMPTIONS = ["floating point is modelled as real arithmetic", "samples and temperature are positive"]
OUTSIDE = ["more samples than the stated X", "rounding", "multiprocessing dispatch"]


def body(h):
    alpha = h.p["alpha"]
    m = sc.inputs(h)
    f = ST.alpha_statistical_analysis if alpha else ST.basic_statistical_analysis
    out = sc.run(h, m, f)
    Z, E, Cv = sc.point(h, m, range(m.X), alpha)
    sz, se, sc_ = sc.sizes(h, m, alpha)
    h.eq("Z", out["Z"], Z)
    h.eq_root("Z error", out["Z error"], sc.variance([m.g[i] / m.rho[i] for i in range(m.X)], 0) / (m.X - 1), scale=sz)
    h.eq("E", out["E"], E + m.E, scale=se)
    h.eq("Cv", out["Cv"], Cv + m.Cv, scale=sc_)
    h.true("E error", out["E error"] == 0)
    h.true("Cv error", out["Cv error"] == 0)


def body_constants(h):
    """inverse temperatures in 1/eV with the Boltzmann constant in eV/K, and back"""
    k = float(constants.boltzman) if not h.sym else Sym.lift(constants.boltzman)
    h.true("Boltzmann constant", bool(k > 8.61732e-5) and bool(k < 8.61734e-5))
    T = h.real("T", 1.0, 2000.0, pos=True)
    b = constants.beta(T)
    h.eq("beta", b * T * k, 1)
    h.eq("temperature of beta", constants.extract_T_from_beta(b), T)
    h.eq("beta of the temperature", constants.beta(constants.extract_T_from_beta(T)), T)


def harnesses(tier):
    def mk(name, tier="quick", **p):
        return Harness(name, body, sc.patches, params=p, bounds=p, tier=tier, tol=1e-7, points=4)
    return [mk("basic_2", X=2, alpha=False), mk("basic_3", X=3, alpha=False), mk("alpha_2", X=2, alpha=True),
            mk("alpha_3", X=3, alpha=True), mk("basic_5", X=5, alpha=False), Harness("inverse_temperature", body_constants, points=4, tol=1e-9),
            mk("alpha_5", X=5, alpha=True), mk("basic_9", X=9, alpha=False, tier="thorough"),
            mk("alpha_9", X=9, alpha=True, tier="thorough")]
