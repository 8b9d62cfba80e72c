"""C02: numerators at the shifted temperatures"""
from checks.pimc_common import *    # noqa
from checks import pimc_common as pc

PROPERTY = "C02"
EXPLANATION = ("The real BoxDataPM.preprocess() and block_compute_pm() run on a symbolic model, temperature, temperature step "
               "and draws; z3 decides whether any saved g, g+ or g- over rho can differ from the defining formula "
               "evaluated at beta, beta+delta and beta-delta for the same configuration.")
ASSUMPTIONS = ["floating point is modelled as real arithmetic",
               "numpy.linalg.eigh returns an orthonormal eigen-decomposition of the symmetric matrix it is given",
               "numpy.amax/maximum return a positive number here (their value cancels in the ratio)",
               "numpy.random draws are arbitrary reals; the sampled source states are fixed per harness"]
OUTSIDE = ["models larger than the stated A, N, P, Ar, B", "rounding and overflow"]


def body(h):
    m = pc.inputs(h)
    d, name, data = pc.run(h, m)
    if d is None:
        h.fail("one result file", str(name))
        return
    R = pc.sampled_R(h, m)
    P = h.p["P"]
    beta = 1 / (pc.kB(h) * m.T)
    X = R.shape[0]
    h.true("one value per sample", all(len(d[k]) == X for k in ("s_g", "s_rho", "s_gP", "s_gM")))
    for x in range(X):
        r = pc.rho_of(h, m, R[x], beta / P)
        for key, b in (("s_g", beta), ("s_gP", beta + m.dB), ("s_gM", beta - m.dB)):
            h.eq_ratio("%s/rho[%d]" % (key, x), d[key][x], d["s_rho"][x], pc.g_of(h, m, R[x], b / P), r)
    h.eq("beta+", data.beta_plus, beta + m.dB)
    h.eq("beta-", data.beta_minus, beta - m.dB)
    h.eq("tau+", data.tau_plus * P, beta + m.dB)
    h.eq("tau-", data.tau_minus * P, beta - m.dB)


def harnesses(tier):
    def mk(name, tier="quick", **p):
        p["pm"] = True
        return Harness(name, body, pc.patches, params=p, bounds=p, tier=tier, tol=1e-6,
                       stubs=["eigh: keyed orthonormal decomposition", "amax/maximum: positive atom", "random: free inputs"])
    return [mk("pm_two_states", A=2, N=1, P=3, Ar=2, sources=[1]),
            mk("pm_rho_three_states", A=2, N=1, P=3, Ar=3, sources=[2], quad=False),
            mk("pm_two_blocks", A=2, N=1, P=3, Ar=2, B=1, blocks=2, sources=[0, 1], quad=False),
            mk("pm_three_surfaces", A=3, N=1, P=3, Ar=1, sources=[0], quad=False),
            mk("pm_two_modes", A=2, N=2, P=3, Ar=2, sources=[1]),
            mk("pm_other_frequencies", A=2, N=1, P=3, Ar=2, sources=[1], quad=False, same_w=False),
            mk("pm_four_beads", A=2, N=1, P=4, Ar=2, sources=[0], quad=False),
            mk("pm_three_blocks_of_two", A=2, N=1, P=3, Ar=2, B=2, blocks=3, sources=[0, 1, 1, 0, 1, 0], quad=False)]
