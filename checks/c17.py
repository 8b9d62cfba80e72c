"""C17: submitted jobs draw all requested samples with the requested parameters"""
import os
import re
import numpy as np
import z3
from symx import core, shim, strings
from symx.core import Unsupported, ZInt
from symx.shim import comb
from symx.harness import Harness, _engine_error, harness_error
from checks import server_common as sc
from checks.server_common import JB, M, Slurm, FileStructure

PROPERTY = "C17"
EXPLANATION = ("The real submission code runs with symbolic sample counts, block sizes, ids and parameter lists against a recorded stand-in for the "
               "queueing system; z3 decides the integer arithmetic and whether a job can differ from what was asked for.")
ASSUMPTIONS = ["sbatch runs the given command once and answers 'Submitted batch job <id>'"]
OUTSIDE = ["block sizes below one", "paths with quotes, commas or semicolons", "longer lists of temperatures and beads than stated"]


def submission(h, slurm, FS, params):
    with shim.patched(slurm.patches()):
        return JB.PimcSubmissionClass(FS, params)


def body_sizes(h):
    """any sizes: complete blocks, all samples, not a job more"""
    FS = sc.structure(h)
    X, B = h.int("samples", 1, 10 ** 7), h.int("block size", 1, 10 ** 5)
    MAX = JB.PimcSubmissionClass.MAX_SAMPLES_PER_JOB
    p = {"number_of_samples": X, "block_size": B}
    total = X
    if h.p["overall"]:
        total = p["number_of_samples_overall"] = h.int("overall", 1, 10 ** 8)
    h.assume(B <= X)
    h.assume(B <= MAX)
    e = submission(h, Slurm(), FS, p)
    for turn in range(h.p["turns"]):
        s = "" if turn == 0 else "again: "
        with h.no_exception(s + "sizes can be computed"):
            e.setup_blocks_and_jobs()
        d = e.param_dict
        n, blocks, bs, jobs = d["number_of_samples"], d["number_of_blocks"], d["block_size"], e.n_jobs
        h.true(s + "block size is the requested one", bs == B)
        h.true(s + "blocks and samples are whole numbers", all(isinstance(x, (int, np.integer, ZInt)) for x in (n, blocks, bs, jobs)))
        h.true(s + "only complete blocks", n == blocks * B)
        h.true(s + "samples per job", d["number_of_samples_per_job"] == n)
        h.true(s + "at least one block", blocks >= 1)
        h.true(s + "a job has no more samples than allowed", n <= MAX)
        h.true(s + "a job has no more samples than requested", n <= X)
        h.true(s + "at least one job", jobs >= 1)
        h.true(s + "all samples are drawn", jobs * n >= total)
        h.true(s + "not a job more than needed", (jobs - 1) * n < total)


def body_refused(h):
    """blocks larger than the job are refused"""
    FS = sc.structure(h)
    X, B = h.int("samples", 1, 10 ** 6), h.int("block size", 1, 10 ** 6)
    MAX = JB.PimcSubmissionClass.MAX_SAMPLES_PER_JOB
    e = submission(h, Slurm(), FS, {"number_of_samples": X, "block_size": B})
    err = False
    try:
        e.setup_blocks_and_jobs()
    except AssertionError:
        err = True
    ok = bool(B <= X) and bool(B <= MAX)
    h.true("refused exactly if a block does not fit", err == (not ok))


def check_job(h, s, text, FS, T, P, e, host, extra):
    ps = sc.parameters(text)
    h.true(s + "parameters are passed", ps is not None)
    if ps is None:
        return
    h.true(s + "parameters are one value of the option list", "," not in ps)
    with h.no_exception(s + "the job understands its parameters"):
        d = M.BoxDataPM.from_json_string(ps)
    for n, got, want in (("samples", d.samples, e.param_dict["number_of_samples"]), ("blocks", d.blocks, e.param_dict["number_of_blocks"]),
                         ("block size", d.block_size, e.param_dict["block_size"]), ("beads", d.beads, P), ("states", d.states, extra["A"]),
                         ("modes", d.modes, extra["N"]), ("id of the model", d.id_data, FS.id_data),
                         ("id of the sampling model", d.id_rho, FS.id_rho)):
        h.true(s + n, got == want)
    h.eq(s + "temperature", d.temperature, T)
    h.eq(s + "step", d.delta_beta, extra["dB"])
    h.true(s + "model file", d.path_vib_model == FS.path_vib_model)
    h.true(s + "sampling model file", d.path_rho_model == FS.path_rho_model)
    h.true(s + "hashes", d.hash_vib == M.vIO._hash("model of root") and d.hash_rho == M.vIO._hash("sampling model of root"))
    script = option(text, "SAMPLING_SCRIPT")
    h.true(s + "the sampling script exists", script is not None and os.path.isfile(script))
    py = option(text, "PYTHON3_PATH")
    h.true(s + "the interpreter can be executed", py is not None and os.access(py, os.X_OK) and "python" in os.path.basename(py))
    if host in ("nlogn", "feynman"):
        want = extra["partition"] or {"nlogn": "serial", "feynman": "highmem"}[host]
        h.true(s + "partition", option(text, "--partition") == want)
    h.true(s + "memory", (option(text, "--mem") or "").startswith("7"))
    h.true(s + "processors", option(text, "--cpus-per-task") == "3")
    last = text.split()[-1]
    h.true(s + "the job script exists", last.endswith(".sh") and os.path.isfile(last))
    h.true(s + "the script belongs to the server", ("compute_canada" in last) == (host in ("graham", "orca")))
    out = option(text, "--output")
    h.true(s + "output of the job", out is not None and os.path.dirname(out) == os.path.normpath(FS.path_rho_output))
    r = option(text, "ROOT_DIR")
    h.true(s + "root directory", r is not None and os.path.normpath(r) == os.path.normpath(FS.path_rho))
    c = option(text, "COPY_TO")
    h.true(s + "results are copied to the results directory", c is not None and os.path.normpath(c) == os.path.normpath(FS.path_rho_results))


option = sc.option


def body_submit(h):
    """every temperature and bead number gets its jobs"""
    host = sc.HOSTS[int(h.int("host", 0, 3))] if h.p.get("host") is None else h.p["host"]
    FS = sc.structure(h)
    if h.p["jobs"]:
        X, B = h.int("samples", 1, 250000), h.int("block size", 60000, 100000)
        h.assume(B <= X)
    else:
        X, B = 6, h.int("block size", 1, 6)
    Ps = [h.int("P%d" % i, 3, 99) for i in range(h.p["P"])]
    for i in range(len(Ps)):
        for j in range(i):
            h.assume(Ps[i] != Ps[j])
    Ts = [h.zreal("T%d" % i, 1, 1000) for i in range(h.p["T"])]
    extra = {"A": h.int("A", 1, 5), "N": h.int("N", 1, 5), "dB": h.zreal("dB", 0, 1)}
    sl = Slurm(host)
    given = {"number_of_samples": X, "block_size": B, "bead_list": list(Ps), "temperature_list": list(Ts),
             "number_of_states": extra["A"], "number_of_modes": extra["N"], "delta_beta": extra["dB"],
             "id_data": FS.id_data, "id_rho": FS.id_rho}
    extra["partition"] = "special" if h.bool("partition is given") else None
    if extra["partition"]:
        given["partition"] = "special"
    given["memory_per_node"] = extra["memory"] = 7
    given["cpus_per_task"] = extra["cpus"] = 3
    e = submission(h, sl, FS, given)
    with shim.patched(sl.patches()):
        with h.no_exception("jobs can be submitted"):
            e.submit_jobs()
    n = int(e.n_jobs)
    per = e.param_dict["number_of_samples"]
    h.true("all samples are drawn", per * n >= X)
    h.true("number of jobs", len(sl.jobs) == n * len(Ts) * len(Ps))
    if len(sl.jobs) != n * len(Ts) * len(Ps):
        return
    k = 0
    for T in Ts:
        for P in Ps:
            for i in range(n):
                check_job(h, "job %d: " % k, sl.jobs[k], FS, T, P, e, host, extra)
                k += 1


def body_two(h):
    """two submissions do not share parameters"""
    F1, F2 = sc.structure(h), sc.structure(h, "other")
    X1, X2 = h.int("first samples", 1, 10 ** 6), h.int("second samples", 1, 10 ** 6)
    B = h.int("first block size", 1, 1000)
    h.assume(B <= X1)
    h.assume(X2 >= 1000)
    fresh = dict(JB.PimcSubmissionClass.param_dict)
    given = {"number_of_samples": X1, "block_size": B, "bead_list": [10], "temperature_list": [300.0]}
    keep = {k: (list(v) if isinstance(v, list) else v) for k, v in given.items()}
    a = submission(h, Slurm(), F1, given)
    late = bool(h.bool("second object made before the first is used"))
    if late:
        b = submission(h, Slurm(), F2, {"number_of_samples": X2})
    with h.no_exception("first"):
        a.setup_blocks_and_jobs()
    if not late:
        b = submission(h, Slurm(), F2, {"number_of_samples": X2})
    with h.no_exception("second"):
        b.setup_blocks_and_jobs()
    h.true("block size of the second is the default", b.param_dict["block_size"] == fresh["block_size"])
    h.true("total of the second", b.param_dict["number_of_samples_overall"] == X2)
    h.true("all samples of the second are drawn", b.n_jobs * b.param_dict["number_of_samples"] >= X2)
    h.true("block size of the first", a.param_dict["block_size"] == B)
    h.true("all samples of the first are drawn", a.n_jobs * a.param_dict["number_of_samples"] >= X1)
    for o, F in ((a, F1), (b, F2)):
        for n in ("path_root", "path_data", "path_rho", "path_vib_model", "path_rho_model"):
            h.true(n, o.param_dict[n] == getattr(F, n))
    h.true("lists of the second are the default", b.param_dict["bead_list"] == fresh["bead_list"])
    h.true("the caller's parameters are left alone", given == keep)


def body_errors(h):
    """a refused submission is an error, an unknown server too"""
    FS = sc.structure(h)
    how = int(h.int("fault", 0, 2))
    k = int(h.int("failing job", 0, 2))
    sl = Slurm("nlogn" if how != 1 else "unknown", fail_at=k if how == 0 else None)
    if how == 0:
        sl.failure = [("", "sbatch: error", 1), ("", "", 1), ("Submitted batch job 99\n", "", 1), ("Submitted batch job 99\n", "slurmstepd", -9)][
            int(h.int("kind of failure", 0, 3))]
    p = {"number_of_samples": 6, "block_size": 3, "bead_list": [3, 4, 5], "temperature_list": [300.0], "delta_beta": 0.1,
         "id_data": FS.id_data, "id_rho": FS.id_rho}
    if how == 2:
        p["partition"] = "missing"
    err = False
    with shim.patched(sl.patches()):
        try:
            e = JB.PimcSubmissionClass(FS, p)
            e.submit_jobs()
        except Unsupported:
            raise
        except Exception as x:  # noqa
            if (h.sym and _engine_error(x)) or harness_error(x):
                raise
            err = True
    h.true("an error is raised", err)
    h.true("jobs before the fault are submitted", len(sl.jobs) == (k if how == 0 else 0))


def body_id(h):
    n = h.int("id", 1, 10 ** h.p["digits"] - 1)
    text = "Submitted batch job {:d}".format(n)
    if h.bool("line feed"):
        text += "\n"
    out = strings.from_text(text) if h.sym else text
    if h.sym:
        with shim.patched([(JB, "int", strings.sh_int), (JB, "isinstance", lambda x, t: True if t is str and isinstance(x, strings.SymStr) else isinstance(x, t))]):
            with h.no_exception("id can be read"):
                got = JB.extract_id_job_from_output(out)
    else:
        with h.no_exception("id can be read"):
            got = JB.extract_id_job_from_output(out)
    h.true("id of the job", got == n)


def harnesses(tier):
    def mk(nm, body, tier="quick", **p):
        return Harness(nm, body, sc.patches, params=p, bounds=p, tier=tier, points=6)
    return [mk("sizes", body_sizes, overall=False, turns=2), mk("sizes_overall", body_sizes, overall=True, turns=1),
            mk("refused", body_refused), mk("submit", body_submit, jobs=False, P=2, T=2),
            mk("submit_several", body_submit, jobs=True, P=1, T=1, host="nlogn"), mk("two_submissions", body_two),
            mk("errors", body_errors), mk("id_of_job", body_id, digits=9),
            mk("submit_more", body_submit, tier="thorough", jobs=True, P=2, T=1)]
