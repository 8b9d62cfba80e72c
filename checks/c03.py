"""C03: configurations are drawn from the normalised rho"""
from checks.pimc_common import *    # noqa
from checks import pimc_common as pc

PROPERTY = "C03"
EXPLANATION = ("The real BoxData.preprocess() and block_compute_gR() run with every normal draw an arbitrary real z. For a model "
               "equal to one component of the mixture the saved value is that component's density at the drawn "
               "configuration; z3 decides whether its exponent can differ from -sum(z^2)/2, i.e. whether the change of "
               "variables from independent standard normals to configurations has the right mean and covariance. The "
               "ratio of the two distributions is compared at the same configuration when the models differ in everything. The "
               "probabilities handed to the random choice are compared with the integrated weight of every component.")
ASSUMPTIONS = ["floating point is modelled as real arithmetic",
               "numpy.random.normal(loc, scale) is loc + scale*z with independent standard normal z; numpy.random.choice follows p",
               "numpy.linalg.eigh of the ring adjacency matrix returns an orthonormal eigenbasis with its eigenvalues"]
OUTSIDE = ["bead counts other than the stated P", "statistical quality of the generator", "rounding"]


def body(h):
    p = h.p
    N, P, Ar, s = p["N"], p["P"], p["Ar"], p["sources"][0]
    m = pc.inputs(h)
    # the vibronic model is the component that the samples come from
    m.E = h.zeros((1, 1))
    m.E[0, 0] = m.rE[s]
    m.lin = h.zeros((N, 1, 1))
    for n in range(N):
        m.lin[n, 0, 0] = m.rlin[n, s]
    m.quad = h.zeros((N, N, 1, 1))
    data = pc.make_data(h, m)
    root = os.path.dirname(h.path("results", "x"))
    with pc.environment(h):
        data.preprocess()
        res = pc.M.BoxResult(data=data)
        res.path_root = root
        pc.M.block_compute_gR(data, res)
    d, name = pc.saved_arrays(h, root)
    if d is None:
        h.fail("one result file", str(name))
        return
    X = p.get("B", 1) * p.get("blocks", 1)
    z = np.concatenate([np.asarray(v, dtype=object).reshape(-1) for _, v, _, _ in h.draws.normals])
    if z.size != X * N * P:
        raise Unsupported("unexpected number of normal draws")
    z = z.reshape(X, N * P)
    beta = 1 / (pc.kB(h) * m.T)
    tau = beta / P

    def log_weight(a):
        e = m.rE[a]
        for n in range(N):
            e = e - m.rlin[n, a] * m.rlin[n, a] / (2 * m.w[n])
        return -beta * e
    for x in range(X):
        if pc.sources(h)[x] != s:
            continue
        e = log_weight(s)
        for n in range(N):
            e = e + h.log(h.csch(tau * m.w[n])) * P / 2
        for v in z[x]:
            e = e - v * v / 2
        h.eq("log density[%d]" % x, h.log(d["s_g"][x]), e, tol=1e-8)
    if len(h.draws.choices) != 1:
        raise Unsupported("unexpected number of choices")
    pop, prob = h.draws.choices[0]
    h.true("every component can be chosen", list(pop) == list(range(Ar)))
    if prob is None:
        prob = [1.0 / Ar] * Ar
    w = [h.exp(log_weight(a)) for a in range(Ar)]
    tot = sum(w)
    for a in range(Ar):
        h.eq_ratio("probability of component %d" % a, prob[a], 1, w[a], tot)


def body_ratio(h):
    """the ratio of the two distributions at the configuration that belongs to the standard normals z, when the
    frequencies, energies and couplings of the two models have nothing in common"""
    m = pc.inputs(h)
    d, name, data = pc.run(h, m)
    if d is None:
        h.fail("one result file", str(name))
        return
    R = pc.sampled_R(h, m)
    tau = 1 / (pc.kB(h) * m.T * h.p["P"])
    for x in range(R.shape[0]):
        g, r = pc.g_of(h, m, R[x], tau), pc.rho_of(h, m, R[x], tau)
        h.eq_ratio("g/rho at R(z)[%d]" % x, d["s_g"][x], d["s_rho"][x], g, r)


def harnesses(tier):
    def mk(name, tier="quick", body=body, **p):
        p.update(A=p.get("A", 1), quad=False, affine=True)
        return Harness(name, body, pc.patches, params=p, bounds=p, tier=tier, tol=1e-6,
                       stubs=["eigh of the ring matrix: exact eigenbasis", "random.normal: loc + scale*z, z free",
                              "random.choice: probabilities recorded, source fixed"])
    return [mk("component_0_of_1", N=1, P=3, Ar=1, sources=[0]),
            mk("component_1_of_2", N=1, P=4, Ar=2, sources=[1]),
            mk("component_0_of_2_modes", N=2, P=3, Ar=2, sources=[0]),
            mk("component_2_of_3_blocks", N=1, P=3, Ar=3, B=2, blocks=2, sources=[2]),
            mk("mixed_sources", N=1, P=3, Ar=3, B=2, blocks=2, sources=[1, 0, 2, 1]),
            mk("six_beads", N=1, P=6, Ar=2, sources=[1]),
            mk("two_modes_six_beads", N=2, P=6, Ar=2, sources=[0]),
            mk("three_modes_four_beads", N=3, P=4, Ar=2, B=1, blocks=2, sources=[1, 0]),
            mk("many_blocks", N=2, P=3, Ar=4, B=3, blocks=3, sources=[3, 0, 2, 1, 1, 2, 0, 3, 3]),
            mk("other_frequencies", body=body_ratio, N=1, P=3, Ar=2, sources=[1], same_w=False),
            mk("other_frequencies_modes", body=body_ratio, N=2, P=3, Ar=1, sources=[0], same_w=False),
            mk("other_frequencies_beads", body=body_ratio, A=2, N=1, P=4, Ar=2, blocks=2, sources=[1, 0], same_w=False),
            mk("eight_beads", N=1, P=8, Ar=2, sources=[1], tier="thorough")]
