"""C04: blocks and the result file"""
from checks.pimc_common import *    # noqa
from checks import pimc_common as pc
import re

PROPERTY = "C04"
EXPLANATION = ("The real sampler runs the same symbolic draws once split into blocks and once as a single block; z3 decides whether "
               "any stored sample can differ between the two. The saved file must hold one value per sample, the sample count, "
               "both model hashes, and a name made of beads, temperature and job.")
ASSUMPTIONS = ["floating point is modelled as real arithmetic",
               "numpy.linalg.eigh returns the same decomposition for the same matrix",
               "numpy.savez stores its arguments"]
OUTSIDE = ["more than the stated samples and blocks", "sample counts that are not blocks*block_size"]


def name_ok(h, name, P, T, J):
    m = re.match(r"^P(.+)_T(.+)_J(.+)_data_points\.npz$", name)
    if not m:
        return False
    if not h.sym:
        return m.group(1) == "%d" % P and m.group(2) == "%.2f" % T and m.group(3) == "%d" % J
    t = core.from_token(m.group(2))
    return m.group(1) == "%d" % P and m.group(3) == "%d" % J and t is not None and t[1] == ".2f" \
        and (t[0] - T).is_zero()


def body(h):
    p = h.p
    m = pc.inputs(h)
    X = p["B"] * p["blocks"]
    job = p.get("job")
    d1, name, data = pc.run(h, m, root="split")
    if d1 is None:
        h.fail("one result file", str(name))
        return
    whole = pc.make_data(h, m)
    whole.block_size, whole.blocks, whole.samples = X, 1, X
    d2, name2, _ = pc.run(h, m, whole, root="whole")
    if d2 is None:
        h.fail("one result file (unsplit)", str(name2))
        return
    keys = ["s_g"] + (["s_gP", "s_gM"] if p.get("pm") else [])
    for d in (d1, d2):
        h.true("one value per sample", all(np.shape(d[k]) == (X,) for k in keys + ["s_rho"]))
        h.true("sample count", int(d["number_of_samples"]) == X)
        h.true("model hash", str(d["hash_vib"]) == data.hash_vib)
        h.true("sampling hash", str(d["hash_rho"]) == data.hash_rho)
    for x in range(X):
        for k in keys:
            h.eq_ratio("%s/rho[%d]" % (k, x), d1[k][x], d1["s_rho"][x], d2[k][x], d2["s_rho"][x])
    h.true("file name", name_ok(h, name, p["P"], m.T, 0 if job is None else job))


def harnesses(tier):
    def mk(name, tier="quick", **p):
        p["quad"] = False
        return Harness(name, body, pc.patches, params=p, bounds=p, tier=tier, tol=1e-8,
                       stubs=["eigh: keyed orthonormal decomposition", "amax/maximum: positive atom", "random: free inputs",
                              "savez: in-memory store"])
    return [mk("three_blocks_of_one", A=2, N=1, P=3, Ar=2, B=1, blocks=3, sources=[0, 1, 1], job=7),
            mk("two_blocks_of_two", A=2, N=1, P=3, Ar=3, B=2, blocks=2, sources=[2, 0, 1, 2]),
            mk("two_blocks_of_two_pm", A=2, N=1, P=3, Ar=2, B=2, blocks=2, sources=[0, 1, 1, 0], pm=True, job=12),
            mk("two_blocks_other_frequencies", A=2, N=1, P=3, Ar=2, B=1, blocks=2, sources=[0, 1], same_w=False),
            mk("four_blocks_of_three", A=2, N=1, P=3, Ar=2, B=3, blocks=4, sources=[0, 1, 1, 0, 1, 0, 0, 1, 0, 1, 1, 1]),
            mk("two_modes_four_beads", A=2, N=2, P=4, Ar=2, B=1, blocks=2, sources=[1, 0]),
            mk("three_surfaces_pm", A=3, N=1, P=3, Ar=2, B=1, blocks=2, sources=[0, 1], pm=True, job=3)]
