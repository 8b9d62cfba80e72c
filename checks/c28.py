"""C28: from the submission of a simulation to the reported partition function"""
import json
import os
import runpy
import sys
from checks.pimc_common import *    # noqa
from checks import pimc_common as pc
from checks import server_common as sv
from checks import stats_common as st
from checks.c09 import patches as patches9
from checks.c20 import Pool
from checks.server_common import JB, Slurm, FileStructure
from pibronic.stats import stats as ST
from pibronic.data import postprocessing as PP

PROPERTY = "C28"
EXPLANATION = ("A simulation of a symbolic model goes through the real submission (a stand-in records the jobs), the real job script, sampler, result files, "
               "loading and analysis, with free random draws; z3 decides whether the reported Z can differ from the mean, over all samples of all jobs, "
               "of the exact ratio at the drawn coordinates, and E and Cv from the finite differences of the stored samples.")
ASSUMPTIONS = ["floating point is modelled as real arithmetic", "numpy.linalg.eigh returns an orthonormal eigen-decomposition of the symmetric matrix it is given",
               "numpy.amax/maximum return a positive number", "the queueing system hands the parameters to the script and copies the results back"]
OUTSIDE = ["more samples, beads, modes or surfaces than stated", "rounding", "steps of beta other than the one of the package"]


def patches(h):
    out = pc.patches(h) + patches9(h)
    # the numpy stand-in with the recorded draws is used in the sampler
    return [x for x in out if not (x[0] is M and x[1] == "np")] + [x for x in pc.patches(h) if x[0] is M and x[1] == "np"] + sv.patches(h)


def run_script(script, args):
    old, out = sys.argv, sys.stdout
    sys.argv = [script] + args
    try:
        sys.stdout = open(os.devnull, "w")
        runpy.run_path(script, run_name="__main__")
    finally:
        sys.stdout.close()
        sys.stdout, sys.argv = out, old


KEYS = ("s_rho", "s_g", "s_gP", "s_gM")


def replace(h, where, rows):
    for path in sorted(set(w[0] for w in where)):
        src = (h.store.load if h.sym else np.load)(path)
        d = {k: src[k] for k in src.files}
        for (p, i), r in zip(where, rows):
            if p == path:
                for k, v in zip(KEYS, r):
                    d[k] = d[k].copy()
                    d[k][i] = v
        (h.store.savez if h.sym else np.savez)(path, **d)


def body(h):
    p = h.p
    A, N, Ar, P = p["A"], p["N"], p["Ar"], p["P"]
    m = pc.inputs(h)
    m.T = T = 8000.0
    dB = h.real("dB", 0.02, 0.1, pos=True)
    FS = FileStructure(os.path.dirname(h.path("root", "x")), 7, 2)
    pv, pr = pc.write_models(h, m)
    for src, dst in ((pv, FS.path_vib_model), (pr, FS.path_rho_model)):
        with open(src, encoding="UTF8") as f, open(dst, "w", encoding="UTF8") as g:
            g.write(f.read())
    sl = Slurm("nlogn")
    X, B = p["samples"], p["B"]
    if h.sym:
        h.draws.reset()
    else:
        h.draws = pc.Draws(h, p["sources"])
    env = h.draws.concrete_patches() if not h.sym else []
    with shim.patched([(constants, "delta_beta", dB), (JB.PimcSubmissionClass, "MAX_SAMPLES_PER_JOB", p["per"]), (ST.mp, "Pool", Pool)] + env + sl.patches()):
        with h.no_exception("the simulation can be submitted"):
            JB.PimcSubmissionClass(FS, {"number_of_samples": X, "block_size": B, "bead_list": [P], "temperature_list": [T], "number_of_states": A,
                                        "number_of_modes": N, "id_data": 7, "id_rho": 2}).submit_jobs()
        h.true("number of jobs", len(sl.jobs) == p["jobs"])
        script = os.path.join(os.path.dirname(M.__file__), os.pardir, "server", "nlogn_feynman", "pimc.py")
        for i, text in enumerate(sl.jobs):
            # ids of jobs which share their first or last digits, in the order of the names
            with h.no_exception("the jobs run"):
                run_script(script, [sv.parameters(text), FS.path_rho, ("101", "1101", "201", "2101")[i]])
    n = p["B"] * p["blocks"]
    names = sorted(x for x in os.listdir(FS.path_rho_results) if x.endswith(".npz"))
    rows, where = [], []
    for x in names:
        path = os.path.join(FS.path_rho_results, x)
        src = (h.store.load if h.sym else np.load)(path)
        for i in range(len(src["s_g"])):
            rows.append([src[k][i] for k in KEYS])
            where.append((path, i))
    h.true("number of samples", len(rows) == n)
    if len(rows) != n:
        return
    tau = 1 / (pc.kB(h) * T * P)
    R = pc.sampled_R(h, m)
    for x in range(n):
        beta = tau * P
        for k, t in ((1, tau), (2, (beta + dB) / P), (3, (beta - dB) / P)):
            if k == 1 or p["pm"]:
                h.eq_ratio("%s/rho[%d]" % (("g", "g+", "g-")[k - 1], x), rows[x][k], rows[x][0], pc.g_of(h, m, R[x], t), pc.rho_of(h, m, R[x], tau))
    if p["cut"]:
        # the analysis is decided for every content of the result files
        rows = [[h.real("row%d_%s" % (x, k), 0.3, 2.0, pos=True) for k in KEYS] for x in range(n)]
        replace(h, where, rows)
    with shim.patched([(constants, "delta_beta", dB), (ST.mp, "Pool", Pool)]):
        an = {k: h.real(k, 0.5, 2.0, pos=True) for k in ("Z_sampling", "E_sampling", "Cv_sampling", "Z_sampling+beta", "Z_sampling-beta")}
        FS.generate_model_hashes()
        d = {"hash_vib": FS.hash_vib, "hash_rho": FS.hash_rho, "%.2f" % T: {k: h.jsonable(v) for k, v in an.items()}}
        with open(FS.path_analytic_rho, "w") as f:
            f.write(json.dumps(d, ensure_ascii=False))
        other = FileStructure(FS.path_root, 7, 2)
        with h.no_exception("the results can be analysed"), shim.patched([(PP, "print", lambda *a, **k: None)]):
            ST.statistical_analysis_of_pimc(other, method="alpha" if p["alpha"] else "basic", location="local")
    out = [x for x in sorted(os.listdir(FS.path_rho_results)) if x.endswith("thermo")]
    h.true("one report, named by beads, temperature and samples", out == ["P%d_T%.2f_X%d_thermo" % (P, T, n)])
    if len(out) != 1:
        return
    with open(os.path.join(FS.path_rho_results, out[0])) as f:
        rep = (shim.JsonShim if h.sym else json).loads(f.read())
    s = st.In()
    s.X, s.T, s.dB = n, T, dB
    for k, c in enumerate(("rho", "g", "gp", "gm")):
        a = np.empty(n, dtype=object)
        a[:] = [r[k] for r in rows]
        setattr(s, c, a)
    s.E, s.Cv = an["E_sampling"], an["Cv_sampling"]
    s.ap, s.am = an["Z_sampling"] / an["Z_sampling+beta"], an["Z_sampling"] / an["Z_sampling-beta"]
    Z, E, Cv = st.point(h, s, range(n), p["alpha"])
    _, se, sc_ = st.sizes(h, s, p["alpha"])
    h.eq("Z", rep["Z"], Z)
    h.eq("E", rep["E"], E + an["E_sampling"], scale=se)
    h.eq("Cv", rep["Cv"], Cv + an["Cv_sampling"], scale=sc_)


def harnesses(tier):
    def mk(name, tier="quick", **p):
        for k, v in dict(N=1, P=3, Ar=2, samples=2, per=1, B=1, blocks=2, jobs=2, quad=False, pm=False, alpha=False, cut=True).items():
            p.setdefault(k, v)
        return Harness(name, body, patches, params=p, bounds=p, tier=tier, tol=1e-6, points=4,
                       stubs=["eigh: keyed orthonormal decomposition", "amax/maximum: positive atom", "random: free inputs", "sbatch: recorded", "multiprocessing.Pool: sequential"])
    return [mk("one_surface", A=1, sources=[1], quad=True, cut=False),
            mk("one_surface_alpha", A=1, sources=[0], pm=True, alpha=True),
            mk("two_surfaces", A=2, sources=[0], alpha=True, quad=True),
            mk("two_surfaces_shifted", A=2, N=2, sources=[1], pm=True),
            mk("blocks", A=1, Ar=1, sources=[0], samples=8, per=4, B=2, blocks=4, alpha=True),
            mk("four_jobs", A=2, Ar=2, sources=[1], samples=4, per=1, B=1, blocks=4, jobs=4, quad=True)]
