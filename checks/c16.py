"""C16: one directory per model and sampling model, whatever the history of the FileStructure"""
import os
import shutil
import types
from symx import core, shim, strings
from symx.core import Unsupported
from symx.shim import comb
from symx.harness import Harness
from pibronic.data import file_structure as FSM
from pibronic.data.file_structure import FileStructure

PROPERTY = "C16"
EXPLANATION = ("FileStructure objects with symbolic ids go through histories of the real operations whose steps are symbolic; z3 decides the "
               "branches and whether two paths of symbolic digits can coincide; every attribute is compared with a fresh object.")
ASSUMPTIONS = ["the file system creates and finds directories as asked"]
OUTSIDE = ["longer histories", "concurrent changes of the directories", "ids of more digits than stated"]

PATHS = ("path_root path_data path_rho path_es path_vib_params path_vib_results path_vib_output path_vib_plots path_rho_params path_rho_results "
         "path_rho_output path_rho_plots path_vib_model path_har_model path_iter_model path_iter_mat path_rho_model path_analytic_rho "
         "path_analytic_vib path_analytic_orig path_orig_model path_ortho_mat").split()
DIRS = PATHS[:12]
TEMPLATES = "template_pimc template_jackknife template_sos_rho template_sos_vib template_trotter_vib".split()
RHO = ("path_rho path_rho_params path_rho_results path_rho_output path_rho_plots path_rho_model path_analytic_rho "
       "template_pimc template_jackknife template_sos_rho").split()


def patches(h):
    return []


def root(h):
    p = h.path("root", "x")
    return os.path.dirname(p)


def write(path, text):
    with open(path, "w") as f:
        f.write(text)


def compare(h, label, FS, want, names=PATHS + TEMPLATES):
    h.true(label + "id of the model", FS.id_data == want.id_data)
    h.true(label + "id of the sampling model", FS.id_rho == want.id_rho)
    for n in names:
        a, b = getattr(FS, n), getattr(want, n)
        h.true(label + n, type(a) is str and os.path.normpath(a) == os.path.normpath(b))


def body_history(h):
    r = root(h)
    D = h.int("D", 0, 99)
    ids = [h.int("R0", 0, 99), h.int("R1", 0, 99)]
    h.assume(ids[0] != ids[1])
    FS = FileStructure(r, D, ids[0])
    for i in (0, 1):        # every sampling model has a file of its own
        F = FileStructure(r, D, ids[i])
        write(F.path_vib_model, "the model")
        write(F.path_rho_model, "sampling model %d" % i)
    now = 0
    fresh_hash = False
    for n in range(h.p["steps"]):
        op = int(h.int("step %d" % n, 0, 3))
        with h.no_exception("step %d" % n):
            if op < 2:
                FS.change_rho(ids[op])
                now = op
            elif op == 2:
                FS.generate_model_hashes()
            else:
                FS.generate_model_hashes(True)
        h.true("step %d: a stored hash is that of the current sampling model" % n,
               not hasattr(FS, "hash_rho") or FS.hash_rho == FSM.vIO._hash("sampling model %d" % now))
    want = FileStructure(r, D, ids[now], no_makedir=True)
    compare(h, "", FS, want)
    with h.no_exception("hashes"):
        FS.generate_model_hashes()
    good = {"hash_vib": FSM.vIO._hash("the model"), "hash_rho": FSM.vIO._hash("sampling model %d" % now)}
    h.true("hash of the model", FS.hash_vib == good["hash_vib"])
    h.true("hash of the sampling model", FS.hash_rho == good["hash_rho"])
    v, w = h.bool("other model"), h.bool("other sampling model")
    stored = dict(good)
    if v:
        stored["hash_vib"] = "x"
    if w:
        stored["hash_rho"] = "x"
    h.true("results of the model are recognised", FS.valid_vib_hash(stored) == (stored["hash_vib"] != "x"))
    h.true("results of the sampling model are recognised", FS.valid_rho_hash(stored) == (stored["hash_rho"] != "x"))
    h.true("results of both are recognised", bool(FS.valid_vib_and_rho_hashes(stored)) == (stored == good))
    gone = ("hash_vib", "hash_rho")[int(h.int("not recorded", 0, 1))]
    del stored[gone]
    for n, f in (("hash_vib", FS.valid_vib_hash), ("hash_rho", FS.valid_rho_hash), (gone, FS.valid_vib_and_rho_hashes)):
        if n == gone:
            try:
                r = bool(f(stored))
            except (KeyError, AssertionError):
                r = False
            h.true("results without " + gone + " are never recognised", not r)


def body_directories(h):
    r = root(h)
    D, R, S = h.int("D", 0, 99), h.int("R0", 0, 99), h.int("R1", 0, 99)
    h.assume(R != S)
    flag = bool(h.bool("only names"))
    FS = FileStructure(r, D, R, no_makedir=flag)
    if flag:
        h.true("nothing is created", os.listdir(r) == [])
        h.true("missing directories are noticed", FS.directories_exist() is False)
        FS.make_directories()
    for d in DIRS:
        h.true("created: " + d, os.path.isdir(getattr(FS, d)))
    h.true("existing directories are found", FS.directories_exist() is True)
    if bool(h.bool("change")):
        FS.change_rho(S)
        other = FileStructure(r, D, S, no_makedir=True)
        for d in DIRS:
            h.true("created for the other sampling model: " + d, os.path.isdir(getattr(other, d)))
        h.true("directories exist after the change", FS.directories_exist() is True)
    k = int(h.int("removed", 1, len(DIRS) - 1))
    p = os.path.realpath(getattr(FS, DIRS[k]))
    inside = p.startswith(os.path.realpath(r) + os.sep)     # only ever remove below the scratch root
    h.true("below the root: " + DIRS[k], inside)
    if not inside:
        return
    shutil.rmtree(p)
    h.true("a missing directory is noticed", FS.directories_exist() is False)
    if bool(h.bool("by another object")):
        E = h.int("id of the other object", 0, 99)
        FileStructure(r, E, R, no_makedir=True).verify_directories_exists(D, path_root=r)
        for d in DIRS:
            if d not in RHO:
                h.true("made by another object: " + d, os.path.isdir(getattr(FS, d)))
    FS.make_directories()
    h.true("and made again", FS.directories_exist() is True and all(os.path.isdir(getattr(FS, d)) for d in DIRS))


def body_relative(h):
    """paths do not depend on the working directory"""
    r = root(h)
    other = os.path.dirname(h.path("elsewhere", "x"))
    D, R = h.int("D", 0, 99), h.int("R0", 0, 99)
    S = h.int("R1", 0, 99)
    h.assume(R != S)
    want = FileStructure(r, D, R)
    how = int(h.int("root as", 0, 2))
    os.chdir(r)
    FS = FileStructure((".", "../root", r + "/")[how], D, R)
    os.chdir(other)
    compare(h, "", FS, want)
    for n in PATHS:
        h.true(n + " is absolute", os.path.isabs(getattr(FS, n)))
    if bool(h.bool("change")):
        with h.no_exception("change"):
            FS.change_rho(S)
        compare(h, "after the change: ", FS, FileStructure(r, D, S))
    h.true("nothing is created elsewhere", os.listdir(other) == [])


def body_distinct(h):
    """two objects share a path of the sampling model only if both ids agree"""
    r = root(h)
    D1, R1, D2, R2 = [h.int(n, 0, 10 ** h.p["digits"] - 1) for n in ("D1", "R1", "D2", "R2")]
    a, b = FileStructure(r, D1, R1, no_makedir=True), FileStructure(r, D2, R2, no_makedir=True)
    k = int(h.int("path", 0, len(PATHS) + len(TEMPLATES) - 2))
    n = (PATHS + TEMPLATES)[1:][k]
    x, y = getattr(a, n), getattr(b, n)
    if h.sym:
        x, y = strings.from_text(x), strings.from_text(y)
        eq = D1 == D2 if n not in RHO else comb("and", [D1 == D2, R1 == R2])
    else:
        eq = D1 == D2 if n not in RHO else (D1, R1) == (D2, R2)
    h.true(n + ": shared exactly for the same ids", bool(x == y) == bool(eq))


def body_kinds(h):
    """no two kinds of files of one object coincide"""
    r = root(h)
    D, R = h.int("D", 0, 99), h.int("R0", 0, 99)
    FS = FileStructure(r, D, R, no_makedir=True)
    p = [os.path.normpath(getattr(FS, n)) for n in PATHS + TEMPLATES]
    h.true("all paths differ", len(set(p)) == len(p))
    FB = FileStructure.from_boxdata(r, types.SimpleNamespace(id_data=D, id_rho=R))
    compare(h, "from simulation data: ", FB, FS)
    for i, n in enumerate(PATHS[1:12]):
        h.true("below the root: " + n, os.path.normpath(getattr(FS, n)).startswith(FS.path_root + os.sep))


def body_refused(h):
    r = root(h)
    D, R = h.int("D", 0, 99), h.int("R0", 0, 99)
    write(os.path.join(r, "file"), "x")
    for p in ("missing", "file"):
        err = False
        try:
            FileStructure(os.path.join(r, p), D, R)
        except AssertionError:
            err = True
        h.true("a root that is no directory is refused: " + p, err)
    h.true("nothing is created", os.listdir(r) == ["file"])


def harnesses(tier):
    def mk(nm, body, tier="quick", **p):
        return Harness(nm, body, patches, params=p, bounds=p, tier=tier, points=6)
    return [mk("history", body_history, steps=3), mk("directories", body_directories), mk("relative_root", body_relative),
            mk("distinct", body_distinct, digits=1), mk("kinds", body_kinds), mk("refused", body_refused),
            mk("history_long", body_history, tier="thorough", steps=5), mk("distinct_long", body_distinct, tier="thorough", digits=2)]
