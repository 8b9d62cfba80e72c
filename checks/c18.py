"""C18: the parameters of a job survive the way through the command line of the queueing system"""
import json
import os
import runpy
import sys
from symx import core, shim, strings
from symx.core import Unsupported, ZInt
from symx.harness import Harness
from checks import server_common as sc
from checks.server_common import M, FileStructure
from pibronic import constants
from pibronic.data import file_name

PROPERTY = "C18"
EXPLANATION = ("The real serialisation runs on symbolic parameters (the numbers travel as opaque tokens through the real json code) and the real job "
               "scripts are executed with the resulting command line, up to the sampling itself; z3 decides whether any parameter, hash or path "
               "can differ from what was sent.")
ASSUMPTIONS = ["json gives back every number it wrote", "the queueing system passes the string on unchanged, and splits the option list at commas"]
OUTSIDE = ["paths with commas, semicolons or quotes", "integer values of the step of beta (ignored by the code)"]

KEYS = {"number_of_samples": "samples", "number_of_blocks": "blocks", "number_of_states": "states", "number_of_beads": "beads",
        "number_of_modes": "modes", "temperature": "temperature", "block_size": "block_size", "id_data": "id_data", "id_rho": "id_rho"}


def patches(h):
    return sc.patches(h) + [(M, "int", shim.sh_int)]


def parameters(h, FS, samples=(1, 10 ** 6)):
    p = {"number_of_samples": h.int("samples", *samples), "number_of_blocks": h.int("blocks", 1, 1000), "number_of_states": h.int("A", 1, 9),
         "number_of_beads": h.int("P", 3, 99), "number_of_modes": h.int("N", 1, 9), "temperature": h.zreal("T", 1, 1000),
         "block_size": h.int("block size", 1, 1000), "id_data": FS.id_data, "id_rho": FS.id_rho, "path_root": FS.path_root}
    return p


def compare(h, s, d, p, FS, name="root"):
    for k, n in KEYS.items():
        h.true(s + n, getattr(d, n) == p[k])
    beta = p["beta"] if "beta" in p else 1.0 / (constants.boltzman * p["temperature"])
    h.eq(s + "beta", d.beta, beta)
    h.eq(s + "tau", d.tau, p["tau"] if "tau" in p else beta / p["number_of_beads"])
    h.true(s + "model file", d.path_vib_model == FS.path_vib_model)
    h.true(s + "sampling model file", d.path_rho_model == FS.path_rho_model)
    h.true(s + "hash of the model", d.hash_vib == M.vIO._hash("model of " + name))
    h.true(s + "hash of the sampling model", d.hash_rho == M.vIO._hash("sampling model of " + name))


def body_string(h):
    """a dictionary of parameters becomes an object"""
    FS = sc.structure(h)
    p = parameters(h, FS)
    if h.bool("beta is given"):
        p["beta"] = h.zreal("beta", 0.1, 100)
    if h.bool("tau is given"):
        p["tau"] = h.zreal("tau", 0.1, 100)
    if h.bool("step is given"):
        p["delta_beta"] = h.zreal("dB", 0.0001, 1)
    if h.bool("more parameters than needed"):
        p.update({"hostname": "nlogn", "bead_list": [3, 4], "partition": None})
    pm = bool(h.bool("plus minus"))
    cls = M.BoxDataPM if pm else M.BoxData
    keep = dict(p)
    with h.no_exception("parameters can be written"):
        s = cls.json_serialize(p)
    h.true("one value of a list of options", "," not in s and "'" not in s and "\n" not in s)
    h.true("the dictionary of the caller is left alone", p == keep)
    how = int(h.int("way", 0, 3))
    with h.no_exception("parameters can be read"):
        if how == 0:
            d = cls.from_json_string(s)
        elif how == 1:
            d = cls()
            d.load_json_string(s)
        else:       # a file, written for a job or by hand
            path = h.path("par", "parameters.json")
            text = s if how == 2 else (shim.JsonShim.dumps if h.sym else json.dumps)(p, indent=2)
            with open(path, "w", encoding="UTF8") as f:
                f.write(text)
            d = cls.from_json_file(path)
    h.true("class", type(d) is cls)
    compare(h, "", d, p, FS)
    h.eq("step of beta", d.delta_beta, p["delta_beta"] if "delta_beta" in p else (constants.delta_beta if pm else 0.0))


def body_two(h):
    """parameters of one object stay with it"""
    F1, F2 = sc.structure(h), sc.structure(h, "other")
    cls = M.BoxDataPM if h.bool("plus minus") else M.BoxData
    p1 = parameters(h, F1)
    p1["delta_beta"] = h.zreal("dB", 0.0001, 1)
    p1["beta"], p1["tau"] = h.zreal("beta", 0.1, 100), h.zreal("tau", 0.1, 100)
    a = cls.from_json_string(cls.json_serialize(p1))
    p2 = {k: (h.int(k + " of the second", 1, 9) if isinstance(v, (int, ZInt)) else h.zreal(k + " of the second", 1, 9))
          for k, v in p1.items() if k not in ("path_root", "id_data", "id_rho", "delta_beta", "beta", "tau")}
    p2.update(id_data=F2.id_data, id_rho=F2.id_rho, path_root=F2.path_root)
    b = cls.from_json_string(cls.json_serialize(p2))
    compare(h, "first: ", a, p1, F1)
    compare(h, "second: ", b, p2, F2, "other")
    h.eq("first: step", a.delta_beta, p1["delta_beta"])
    h.eq("second: step", b.delta_beta, constants.delta_beta if cls is M.BoxDataPM else 0.0)


def body_again(h):
    """one object given parameters a second time, or after the model file changed"""
    F1, F2 = sc.structure(h), sc.structure(h, "other")
    cls = M.BoxDataPM if h.bool("plus minus") else M.BoxData
    p1 = parameters(h, F1)
    d = cls.from_json_string(cls.json_serialize(p1))
    if h.bool("the model changes"):
        sc.write(F1.path_vib_model, "model of third")
        sc.write(F1.path_rho_model, "sampling model of third")
        with h.no_exception("parameters can be read again"):
            d.load_json_string(cls.json_serialize(p1))
        compare(h, "again: ", d, p1, F1, "third")
        return
    p2 = {k: (h.int(k + " of the second", 1, 9) if isinstance(v, (int, ZInt)) else h.zreal(k + " of the second", 1, 9))
          for k, v in p1.items() if k not in ("path_root", "id_data", "id_rho")}
    p2.update(id_data=F2.id_data, id_rho=F2.id_rho, path_root=F2.path_root)
    with h.no_exception("other parameters can be read"):
        d.load_json_string(cls.json_serialize(p2))
    compare(h, "second: ", d, p2, F2, "other")


def body_self(h):
    """an object writes its own parameters"""
    FS = sc.structure(h)
    p = parameters(h, FS)
    cls = M.BoxDataPM if h.bool("plus minus") else M.BoxData
    d = cls()
    for k, n in KEYS.items():
        setattr(d, n, p[k])
    p["beta"] = d.beta = h.zreal("beta", 0.1, 100)
    p["tau"] = d.tau = h.zreal("tau", 0.1, 100)
    p["delta_beta"] = d.delta_beta = h.zreal("dB", 0.0001, 1)
    with h.no_exception("an object can be written"):
        s = d.encode_self()
    h.true("one value of a list of options", "," not in s and "'" not in s)
    J = shim.JsonShim if h.sym else json
    with h.no_exception("the string is json"):
        q = J.loads(s.replace(";", ","))
    q["path_root"] = FS.path_root
    with h.no_exception("parameters can be read"):
        e = cls.from_json_string(cls.json_serialize(q))
    compare(h, "", e, p, FS)
    h.eq("step of beta", e.delta_beta, p["delta_beta"])
    other = {"a": h.int("any value", 0, 9)}
    with h.no_exception("given parameters are written instead"):
        s = d.encode_self(other)
    h.true("given parameters", J.loads(s.replace(";", ",")) == other)


def body_structure(h):
    """an object made from a directory: ids, files and the sizes of the coupled model, not of the sampling model"""
    FS = sc.structure(h)
    A, N, Ar = int(h.int("A", 1, 3)), int(h.int("N", 1, 3)), int(h.int("Ar", 1, 3))
    for path, a in ((FS.path_vib_model, A), (FS.path_rho_model, Ar)):
        with open(path, "w", encoding="UTF8") as f:
            f.write(json.dumps({"number of modes": N, "number of surfaces": a}))
    cls = M.BoxDataPM if h.bool("plus minus") else M.BoxData
    with h.no_exception("an object can be made from a directory"):
        d = cls.from_FileStructure(FS)
        e = cls.build(FS.id_data, FS.id_rho)
    h.true("class", type(d) is cls and type(e) is cls)
    for n in ("id_data", "id_rho"):
        h.true(n, getattr(d, n) == getattr(FS, n))
        h.true(n + " (from ids)", getattr(e, n) == getattr(FS, n))
    h.true("surfaces", d.states == A)
    h.true("modes", d.modes == N)
    h.true("model file", d.path_vib_model == FS.path_vib_model)
    h.true("sampling model file", d.path_rho_model == FS.path_rho_model)


def body_script(h):
    """the scripts the queueing system starts"""
    FS = sc.structure(h)
    p = parameters(h, FS, samples=(1, 3))
    p["delta_beta"] = h.zreal("dB", 0.0001, 1)
    p["number_of_samples"] = int(p["number_of_samples"])
    job = h.int("id of the job", 1, 10 ** 6)
    where = "compute_canada" if h.bool("compute canada") else "nlogn_feynman"
    script = os.path.join(os.path.dirname(M.__file__), os.pardir, "server", where, "pimc.py")
    # scratch directory of the job, of the same layout as the one of the results
    r2 = os.path.dirname(h.path("scratch", "x"))
    F2 = FileStructure(r2, FS.id_data, FS.id_rho)
    scratch = F2.path_rho
    if h.bool("without last separator"):
        scratch = scratch.rstrip("/")
    args = [script, M.BoxDataPM.json_serialize(p), scratch, "{:d}".format(job)]
    calls = []

    def preprocess(self):
        calls.append(("preprocess", self))

    def compute(data, result, *a, **k):
        if a or k:
            raise Unsupported("block_compute_pm with more arguments")
        calls.append(("compute", data))
        result.save_results(data.samples)
        calls.append(("saved", result))

    def wrong(*a, **k):
        calls.append(("another computation", None))

    old = sys.argv
    sys.argv = args
    out = sys.stdout
    try:
        sys.stdout = open(os.devnull, "w")
        with shim.patched([(M.BoxDataPM, "preprocess", preprocess), (M, "block_compute_pm", compute), (M, "block_compute", wrong)]):
            with h.no_exception("the script runs"):
                runpy.run_path(script, run_name="__main__")
    finally:
        sys.stdout.close()
        sys.stdout = out
        sys.argv = old
    h.true("one computation after the preparation", [c[0] for c in calls] == ["preprocess", "compute", "saved"])
    if [c[0] for c in calls] != ["preprocess", "compute", "saved"]:
        return
    d, res = calls[1][1], calls[2][1]
    h.true("the prepared object is used", calls[0][1] is d)
    compare(h, "", d, p, FS)
    h.eq("step of beta", d.delta_beta, p["delta_beta"])
    h.true("samples of the result", res.samples == p["number_of_samples"])
    h.true("hashes of the result", res.hash_vib == d.hash_vib and res.hash_rho == d.hash_rho)
    want = os.path.join(F2.path_rho_results, file_name.pimc().format(P=p["number_of_beads"], T=p["temperature"], J=job))
    h.true("result file of the job", os.path.normpath(res.compute_path_to_file()) == os.path.normpath(want))
    h.true("exactly one result", [os.path.join(F2.path_rho_results, f) for f in os.listdir(F2.path_rho_results)] in ([want], [want + ".npz"]))


def harnesses(tier):
    def mk(nm, body, tier="quick", **p):
        return Harness(nm, body, patches, params=p, bounds=p, tier=tier, points=6)
    return [mk("string", body_string), mk("two_objects", body_two), mk("again", body_again), mk("object", body_self), mk("directory", body_structure), mk("script", body_script)]
