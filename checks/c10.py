"""C10: results of the external (Julia) calculations"""
import io
import json
import os
import subprocess
import numpy as np
from symx import core, shim
from symx.core import Sym
from symx.harness import Harness
from pibronic import constants
from pibronic import julia_wrapper as JW
from pibronic.data import postprocessing as PP
from pibronic.data.file_structure import FileStructure

PROPERTY = "C10"
EXPLANATION = ("The real wrappers run with a recorded stand-in for the external process; inverse temperature, printed numbers, the state of the "
               "existing file and the way the process ends are symbolic. z3 decides each branch and whether a stored number or key can be wrong.")
ASSUMPTIONS = ["the external program prints 'name: value' lines", "json stores and returns its arguments"]
OUTSIDE = ["the external Julia program itself", "concurrent writers of one file", "a crash while the file is written"]

KB = 1.38064852e-23 / 1.6021766208e-19
HV, HR = "model hash", "rho hash"
OUT = ["Z", "E", "Cv", "SvN", "S2"]


class Proc:
    """stand-in for subprocess: records the command, answers with prepared output; nothing is executed"""

    def __init__(self, out, err):
        self.out, self.err, self.cmds = out, err, []

    def answer(self, command, kw):
        line = command if isinstance(command, str) else " ".join(map(str, command))
        if "--conf" in line:
            self.cmds.append(line)
            o, e = self.out, self.err
        elif "-v" in line.split():
            o, e = b"julia version 1.0.0", b""
        else:
            o, e = b"/opt/jl/src/V.jl", b""
        if any(kw.get(k) for k in ("text", "universal_newlines", "encoding", "errors")):
            o, e = o.decode(), e.decode()
        if kw.get("stderr") == subprocess.STDOUT:
            o, e = o + e, None
        return o, e

    def Popen(self, command, *a, **kw):
        o, e = self.answer(command, kw)
        return Process(command, o, e)

    def run(self, command, *a, **kw):
        o, e = self.answer(command, kw)
        return subprocess.CompletedProcess(command, 0, o, e)

    def check_output(self, command, *a, **kw):
        return self.answer(command, kw)[0]

    def other(self, *a, **k):
        raise core.Unsupported("another way to start a process")

    def patches(self):
        return [(subprocess, "Popen", self.Popen), (subprocess, "run", self.run), (subprocess, "check_output", self.check_output),
                (subprocess, "call", self.other), (subprocess, "check_call", self.other), (subprocess, "getoutput", self.other),
                (os, "system", self.other), (os, "popen", self.other)]


class Process:
    returncode = 0

    def __init__(self, args, out, err):
        self.args, self.out, self.err = args, out, err
        mk = lambda x: io.BytesIO(x) if isinstance(x, bytes) else None if x is None else io.StringIO(x)  # noqa
        self.stdout, self.stderr = mk(out), mk(err)

    def communicate(self, *a, **k):
        return self.out, self.err

    def wait(self, *a, **k):
        return 0

    poll = wait

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def patches(h):
    kb = core.TAB.get("var", "kB", name="kB", positive=True)
    kb.evalf = lambda e: KB
    js = shim.JsonShim()
    return [(JW, "json", js), (JW, "float", shim.sh_float), (PP, "json", js), (constants, "boltzman", Sym.atom(kb))]


def structure(h):
    FS = FileStructure(os.path.dirname(h.path("root", "x")), 2, 1)
    FS.hash_vib, FS.hash_rho = HV, HR
    return FS


def kB(h):
    return Sym.atom(core.TAB.by_key[("var", "kB")]) if h.sym else KB


METHODS = {
    # name: (call, destination, source model, suffix of the printed names, rho hash counts, options)
    "sampling": (lambda FS, b: JW.analytic_of_sampling_model(FS, b), lambda FS: FS.path_analytic_rho, lambda FS: FS.path_rho_model,
                 "analytical", True, {}),
    "original": (lambda FS, b: JW.analytic_of_original_coupled_model(FS, b), lambda FS: FS.path_analytic_orig,
                 lambda FS: FS.path_orig_model, "analytical", False, {}),
    "sos": (lambda FS, b: JW.sos_of_coupled_model(FS, 17, b), lambda FS: FS.path_vib_params + "sos_B17.json", lambda FS: FS.path_vib_model,
            "sos", False, {"--basis-size": "17"}),
    "trotter": (lambda FS, b: JW.trotter_of_coupled_model(FS, 23, 17, b), lambda FS: FS.path_vib_params + "trotter_P23_B17.json",
                lambda FS: FS.path_vib_model, "trotter", False, {"--basis-size": "17", "--num-links": "23"}),
}


def option(cmd, name):
    w = cmd.split()
    return w[w.index(name) + 1] if name in w and w.index(name) + 1 < len(w) else None


def text(x):
    return core.token_of(x, "") if isinstance(x, Sym) else repr(x)


def body(h):
    call, dst, src, suffix, uses_rho, opts = METHODS[h.p["method"]]
    new = {"analytical": "rho"}.get(suffix, suffix)
    FS = structure(h)
    path = dst(FS)
    beta = h.real("beta", 20.0, 60.0, pos=True) if not h.p.get("same") else 1 / (KB * 300.0)
    if h.p.get("same") and h.sym:
        beta = 1 / (kB(h) * Sym.const(300))
    vals = {k: h.real("new_" + k, -3.0, 3.0) for k in OUT}
    old = {k: h.real("old_" + k, -3.0, 3.0) for k in OUT}
    state = int(h.int("existing file", 0, 5))       # absent, empty, valid, stale vib, stale rho, no hashes
    end = int(h.int("process ends", 0, 2))          # fine, killed, prints nothing
    before = None
    oldd = {"%s_%s" % (k, new): v for k, v in old.items()}
    if state == 1:
        before = ""
    elif state > 1:
        d = {"hash_vib": HV if state != 3 else "older", "hash_rho": HR if state != 4 else "older"}
        if state == 5:
            d = {}
        elif not uses_rho and state != 4:
            d.pop("hash_rho")
        d["300.00"] = {k: h.jsonable(v) for k, v in oldd.items()}
        before = json.dumps(d, ensure_ascii=False)
    if before is not None:
        with open(path, "w") as f:
            f.write(before)
    lines = "".join("%s_%s: %s\n" % (k, suffix, text(v)) for k, v in vals.items()) + "\n"
    proc = Proc(lines.encode() if end != 2 else b"", b"" if end != 1 else (b"Killed", b"/bin/sh: line 1:  4711 Killed                  julia sos.jl --conf x\n")[int(h.int("message", 0, 1))])
    failed = None
    with shim.patched(proc.patches() + [(JW, "print", lambda *a, **k: None)]):
        try:
            call(FS, beta)
        except core.Unsupported:
            raise
        except Exception as e:  # noqa
            from symx.harness import _engine_error, harness_error
            if (h.sym and _engine_error(e)) or harness_error(e):
                raise
            failed = e
    after = None
    if os.path.exists(path):
        with open(path) as f:
            after = f.read()
    h.true("one process", len(proc.cmds) == 1)
    if len(proc.cmds) == 1:
        cmd = proc.cmds[0]
        h.true("model file of the calculation", option(cmd, "--conf") == src(FS))
        b = option(cmd, "--beta")
        if b is None:
            h.fail("beta of the calculation", cmd)
        elif h.sym:
            t = core.from_token(b)
            h.eq("beta of the calculation", t[0] if t else float(b), beta)
        else:
            h.eq("beta of the calculation", float(b), beta)
        for o, v in opts.items():
            h.true(o, option(cmd, o) == v)
    if end:
        h.true("a failed calculation is reported", failed is not None)
        h.true("a failed calculation leaves the file alone", after == before)
        return
    if failed is not None:
        h.fail("a finished calculation is stored", repr(failed))
        return
    with open(path) as f:
        d = (shim.JsonShim if h.sym else json).loads(f.read())
    h.true("model hash stored", d.pop("hash_vib", None) == HV)
    if uses_rho:
        h.true("rho hash stored", d.pop("hash_rho", None) == HR)
    else:
        d.pop("hash_rho", None)
    keep = state == 2 or state == 4 and not uses_rho
    T = 1 / (kB(h) * beta)
    if h.p.get("same"):
        key = "300.00"
        keep = False
        if h.sym:
            ks = [k for k in d if core.from_token(k)]
            if ks:      # the key is a formatted 300
                t = core.from_token(ks[0])
                h.eq("temperature key", t[0], 300)
                d["300.00"] = d.pop(ks[0])
    elif h.sym:
        ks = [k for k in d if core.from_token(k)]
        h.true("one new temperature", len(ks) == 1)
        if len(ks) != 1:
            return
        key = ks[0]
        t = core.from_token(key)
        h.true("temperature with two digits", t[1] == ".2f")
        h.eq("temperature key", t[0], T)
    else:
        key = "%.2f" % T
    want = {key} | ({"300.00"} if keep else set())
    h.true("temperatures kept", set(d) == want)
    if set(d) != want:
        h.notes["temperatures kept"] = "%r expected %r" % (sorted(d), sorted(want))
        return
    h.true("quantities", sorted(d[key]) == sorted("%s_%s" % (k, new) for k in OUT))
    for k in OUT:
        if "%s_%s" % (k, new) in d[key]:
            h.eq("new " + k, d[key]["%s_%s" % (k, new)], vals[k])
    if keep:
        for k, v in oldd.items():
            h.eq("kept " + k, d["300.00"].get(k), v)


def body_reader(h):
    """the analytic results written by the external-tool wrapper can be used by the analysis"""
    FS = structure(h)
    T = 300.0
    old = {}
    JW.validate_old_rho_data(old, FS)
    JW.convert_keys(old, {"Z_analytical": "1.5", "E_analytical": "0.2", "Cv_analytical": "0.1", "beta": "1.0"}, 1 / (KB * T))
    with open(FS.path_analytic_rho, "w") as f:
        json.dump(old, f)
    a = {}
    with shim.patched([(PP, "print", lambda *a, **k: None)]), h.no_exception("analytic results of the wrapper are readable"):
        PP.load_analytic_data(FS, T, a)
    h.true("energy", a["E"] == 0.2)


def harnesses(tier):
    st = ["subprocess: recorded stand-in", "json: token-preserving"]
    return [Harness("external_" + m, body, patches, params={"method": m}, bounds={"file states": 6, "process endings": 3, "quantities": 5},
                    points=12, stubs=st) for m in METHODS] + \
           [Harness("external_same_temperature", body, patches, params={"method": "sampling", "same": True}, points=8, stubs=st,
                    bounds={"file states": 6, "process endings": 3}),
            Harness("wrapper_output", body_reader, points=1, stubs=st)]
