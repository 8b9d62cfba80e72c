"""C07: jackknife estimates"""
from checks.stats_common import *    # noqa
from checks import stats_common as sc

PROPERTY = "C07"
EXPLANATION = ("The real jackknife analysis runs on symbolic samples; z3 decides whether an estimate can differ from X theta - (X-1) mean of "
               "the leave-one-out estimates, or a squared error from (X-1) times their sample variance.")
ASSUMPTIONS = ["floating point is modelled as real arithmetic", "samples and temperature are positive"]
OUTSIDE = ["more samples than the stated X", "rounding", "multiprocessing dispatch"]


def body(h):
    alpha = h.p["alpha"]
    m = sc.inputs(h)
    X = m.X
    f = ST.alpha_jackknife_analysis if alpha else ST.basic_jackknife_analysis
    out = sc.run(h, m, f)
    Z, E, Cv = sc.point(h, m, range(X), alpha)
    loo = [sc.point(h, m, [i for i in range(X) if i != k], alpha) for k in range(X)]
    _, se, sc_ = sc.sizes(h, m, alpha)
    h.eq("Z", out["Z"], Z)
    h.eq("E", out["E"], E + m.E, scale=se)
    h.eq("Cv", out["Cv"], Cv + m.Cv, scale=sc_)
    h.eq("jk_E", out["jk_E"], X * E - (X - 1) * sum(e for _, e, _ in loo) / X + m.E, scale=X * se)
    h.eq("jk_Cv", out["jk_Cv"], X * Cv - (X - 1) * sum(c for _, _, c in loo) / X + m.Cv, scale=X * sc_)
    if h.p.get("errors", True):
        h.eq_root("jk_E error", out["jk_E error"], (X - 1) * sc.variance([e for _, e, _ in loo], 1), tol=1e-6, scale=X * se)
        h.eq_root("jk_Cv error", out["jk_Cv error"], (X - 1) * sc.variance([c for _, _, c in loo], 1), tol=1e-6, scale=X * sc_)


def harnesses(tier):
    def mk(name, tier="quick", **p):
        return Harness(name, body, sc.patches, params=p, bounds=p, tier=tier, tol=1e-6, points=4)
    return [mk("basic_2", X=2, alpha=False), mk("alpha_2", X=2, alpha=True),
            mk("basic_3", X=3, alpha=False), mk("alpha_3", X=3, alpha=True),
            mk("basic_5_steps", X=5, alpha=False, symbolic=["gp", "gm"]), mk("alpha_5_steps", X=5, alpha=True, symbolic=["gp", "gm"]),
            mk("basic_4_weights", X=4, alpha=False, symbolic=["g"]), mk("alpha_4_weights", X=4, alpha=True, symbolic=["rho"], tier="thorough"),
            mk("basic_9_steps", X=9, alpha=False, symbolic=["gp", "gm"], tier="thorough")]
