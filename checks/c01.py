"""C01: the importance ratio g/rho of every stored sample"""
from checks.pimc_common import *    # noqa
from checks import pimc_common as pc

PROPERTY = "C01"
EXPLANATION = ("The real BoxData.preprocess() and block_compute() run on a symbolic model, temperature and random draws; z3 "
               "decides whether the saved g/rho can differ from Tr prod_p exp(-tau V)O over sum_a prod_p O_a.")
ASSUMPTIONS = ["floating point is modelled as real arithmetic",
               "numpy.linalg.eigh returns an orthonormal eigen-decomposition of the symmetric matrix it is given",
               "numpy.amax/maximum return a positive number here (their value cancels in the ratio)",
               "numpy.random draws are arbitrary reals; the sampled source states are fixed per harness"]
OUTSIDE = ["models larger than the stated A, N, P, Ar, B", "rounding and overflow"]


def body(h):
    m = pc.inputs(h)
    d, name, data = pc.run(h, m)
    if d is None:
        h.fail("one result file", str(name))
        return
    R = pc.sampled_R(h, m)
    tau = 1 / (pc.kB(h) * m.T * h.p["P"])
    X = R.shape[0]
    h.true("one value per sample", len(d["s_g"]) == X and len(d["s_rho"]) == X)
    for x in range(X):
        g, r = pc.g_of(h, m, R[x], tau), pc.rho_of(h, m, R[x], tau)
        h.eq_ratio("g/rho[%d]" % x, d["s_g"][x], d["s_rho"][x], g, r)


def harnesses(tier):
    def mk(name, tier="quick", **p):
        return Harness(name, body, pc.patches, params=p, bounds=p, tier=tier, tol=1e-6,
                       stubs=["eigh: keyed orthonormal decomposition", "amax/maximum: positive atom", "random: free inputs"])
    out = [mk("one_state_pair", A=2, N=1, P=3, Ar=2, sources=[1]),
           mk("two_modes", A=2, N=2, P=3, Ar=2, sources=[0], quad=True),
           mk("rho_more_states", A=2, N=1, P=3, Ar=3, sources=[2]),
           mk("rho_fewer_states", A=2, N=1, P=3, Ar=1, sources=[0]),
           mk("four_beads_blocks", A=2, N=1, P=4, Ar=2, B=2, blocks=2, sources=[0, 1, 1, 0], quad=False)]
    out += [mk("rho_other_frequencies", A=2, N=1, P=3, Ar=2, sources=[1], same_w=False),
            mk("two_modes_other_frequencies", A=2, N=2, P=3, Ar=2, sources=[1], same_w=False, quad=False)]
    out += [mk("three_surfaces", A=3, N=1, P=3, Ar=2, sources=[1], quad=False),
            mk("three_surfaces_quadratic", A=3, N=1, P=3, Ar=3, sources=[0]),
            mk("two_modes_four_beads", A=2, N=2, P=4, Ar=2, sources=[1], quad=False),
            mk("three_modes", A=2, N=3, P=3, Ar=1, sources=[0], quad=False),
            mk("six_beads", A=2, N=1, P=6, Ar=2, sources=[1], quad=False),
            mk("five_samples", A=2, N=1, P=3, Ar=3, B=1, blocks=5, sources=[0, 2, 1, 2, 0], quad=False)]
    out += [mk("eight_beads", A=1, N=1, P=8, Ar=2, sources=[1], quad=False, tier="thorough"),
            mk("four_surfaces", A=4, N=1, P=3, Ar=2, sources=[1], quad=False, tier="thorough"),
            mk("three_surfaces_four_beads", A=3, N=1, P=4, Ar=2, sources=[1], quad=False, tier="thorough"),
            mk("two_modes_six_beads", A=2, N=2, P=6, Ar=1, sources=[0], quad=False, tier="thorough")]
    return out
