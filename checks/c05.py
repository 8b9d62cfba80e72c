"""C05: training data sets"""
from checks.pimc_common import *    # noqa
from checks import pimc_common as pc

PROPERTY = "C05"
EXPLANATION = ("The real block_compute_gR_from_raw_samples() and block_compute_rhoR_from_input_samples() run on a symbolic model and "
               "arbitrary configurations; z3 decides whether the g stored next to a configuration, or the rho returned for it, "
               "can differ from the defining formula at that configuration.")
ASSUMPTIONS = ["floating point is modelled as real arithmetic",
               "numpy.linalg.eigh returns an orthonormal eigen-decomposition of the symmetric matrix it is given",
               "numpy.random.random returns arbitrary reals", "numpy.savez stores its arguments"]
OUTSIDE = ["models larger than the stated A, N, P, Ar", "rounding and overflow"]


def body_g(h):
    p = h.p
    m = pc.inputs(h)
    data = pc.make_data(h, m)
    root = os.path.dirname(h.path("results", "x"))
    with pc.environment(h):
        data.preprocess()
        res = pc.M.BoxResult(data=data)
        res.path_root = root
        pc.M.block_compute_gR_from_raw_samples(data, res)
    X = p.get("B", 1) * p.get("blocks", 1)
    got = {}
    for f in sorted(os.listdir(root)):
        src = h.store.load(os.path.join(root, f)) if h.sym else np.load(os.path.join(root, f))
        for k in src.keys():
            got[k] = src[k]
    if "g" not in got or "input_R_values" not in got:
        h.fail("both files written", str(sorted(got)))
        return
    R = np.asarray(got["input_R_values"], dtype=object)
    h.true("one configuration per value", R.shape == (X, p["N"], p["P"]) and np.shape(got["g"]) == (X,))
    tau = 1 / (pc.kB(h) * m.T * p["P"])
    u = np.concatenate([np.asarray(v, dtype=object).reshape(-1) for v in h.draws.uniforms])
    h.eq("stored configurations are the drawn ones", R.reshape(-1), u)
    for x in range(X):
        h.eq("g[%d]" % x, got["g"][x], pc.g_of(h, m, R[x], tau))


def body_rho(h):
    p = h.p
    m = pc.inputs(h)
    X = p.get("B", 1) * p.get("blocks", 1)
    R = h.array("R", (X, p["N"], p["P"]), -1.5, 1.5)
    data = pc.make_data(h, m)
    with pc.environment(h):
        data.preprocess()
        res = pc.M.BoxResult(data=data)
        res.path_root = h.scratch
        pc.M.block_compute_rhoR_from_input_samples(data, res, R.copy())
    tau = 1 / (pc.kB(h) * m.T * p["P"])
    for x in range(X):
        h.eq("rho[%d]" % x, res.scaled_rho[x], pc.rho_of(h, m, R[x], tau))


def harnesses(tier):
    def mk(name, body, tier="quick", **p):
        return Harness(name, body, pc.patches, params=p, bounds=p, tier=tier, tol=1e-6,
                       stubs=["eigh: keyed orthonormal decomposition", "random: free inputs", "savez: in-memory store"])
    return [mk("training_g", body_g, A=2, N=1, P=3, Ar=2, sources=[0]),
            mk("training_g_blocks", body_g, A=2, N=1, P=3, Ar=2, sources=[0], B=1, blocks=2, quad=False),
            mk("training_g_two_modes", body_g, A=2, N=2, P=3, Ar=2, sources=[0], quad=False),
            mk("rho_at_given_R", body_rho, A=2, N=1, P=3, Ar=2, sources=[1], quad=False),
            mk("rho_at_given_R_blocks", body_rho, A=2, N=1, P=3, Ar=2, sources=[1], B=2, blocks=2, quad=False),
            mk("rho_other_frequencies", body_rho, A=2, N=1, P=3, Ar=2, sources=[1], quad=False, same_w=False),
            mk("rho_more_states", body_rho, A=2, N=1, P=3, Ar=3, sources=[1], quad=False),
            mk("rho_more_states_blocks", body_rho, A=1, N=1, P=3, Ar=2, sources=[1], B=1, blocks=2, quad=False),
            mk("training_g_three_surfaces", body_g, A=3, N=1, P=3, Ar=2, sources=[0], quad=False),
            mk("training_g_many", body_g, A=2, N=1, P=4, Ar=2, sources=[0, 1], B=2, blocks=2, quad=False),
            mk("rho_many", body_rho, A=1, N=1, P=4, Ar=3, sources=[1, 0], B=2, blocks=2, quad=False),
            mk("rho_two_modes", body_rho, A=1, N=2, P=3, Ar=2, sources=[1], quad=False)]
