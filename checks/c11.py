"""C11: model files keep every parameter"""
import hashlib
import numpy as np
from symx import core, shim
from symx.core import Sym, Unsupported
from symx.harness import Harness, _engine_error, harness_error
from checks import model_common as mc
from checks.model_common import VIO, VMK, SHORT
from pibronic.pimc import pimc as M

PROPERTY = "C11"
EXPLANATION = ("Models of symbolic numbers, of which any parameter may vanish, are saved and loaded by the real functions; z3 decides "
               "each branch on the values and whether a loaded number can differ from the saved one.")
ASSUMPTIONS = ["json stores and returns numbers exactly"]
OUTSIDE = ["models larger than stated", "interrupted writes", "files not written by this program"]


def patches(h):
    return mc.patches(h) + [(M, "np", shim.NPShim(store=h.store)), (M, "F64", object), (M, "print", lambda *a, **k: None)]


def functions(diag):
    if diag:
        return VIO.save_diagonal_model_to_JSON, VIO.load_diagonal_model_from_JSON, VIO.extract_dimensions_of_diagonal_model, VIO.create_diagonal_model_hash
    return VIO.save_model_to_JSON, VIO.load_model_from_JSON, VIO.extract_dimensions_of_model, VIO.create_model_hash


def body_roundtrip(h):
    A, N, diag, keys = h.p["A"], h.p["N"], h.p["diag"], h.p["keys"]
    save, load, dims, hashf = functions(diag)
    d = mc.model(h, A, N, keys, diag, zeros=h.p["zeros"])
    keep = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in d.items()}
    path = h.path("m", "model.json")
    with h.no_exception("saving succeeds"):
        save(path, d)
    h.true("the saved dictionary keeps its keys", list(d.keys()) == list(keep.keys()))
    for k in keys:
        if k in d:
            h.eq("the saved dictionary keeps its values: " + SHORT[k], d[k], keep[k])
    mc.eq_model(h, "file", mc.stored(h, path, A, N, diag), keep, A, N, diag)
    h.true("dimensions", tuple(dims(path=path)) == (A, N))
    with open(path, encoding="UTF8") as f:
        text = f.read()
    h.true("hash of the contents", hashf(path=path) == hashlib.sha512(text.encode("UTF8")).hexdigest())
    with h.no_exception("loading succeeds"):
        new = load(path)
    h.true("energies are always present", VMK.E in new)
    mc.eq_model(h, "loaded", new, keep, A, N, diag)
    # in place
    buf = {VMK.N: N, VMK.A: A}
    for k in h.p["inplace"]:
        buf[k] = h.array("old_" + SHORT[k], mc.shape(k, A, N, diag), 0.5, 1.0, pos=True)
    ids = {k: id(v) for k, v in buf.items() if isinstance(v, np.ndarray)}
    with h.no_exception("loading into arrays succeeds"):
        load(path, buf)
    for k in h.p["inplace"]:
        h.true("the caller's array is filled: " + SHORT[k], id(buf[k]) == ids[k])
    mc.eq_model(h, "in place", buf, keep, A, N, diag, h.p["inplace"])


def body_dims(h):
    """a model of other dimensions must not be spread over the caller's arrays"""
    A, N, diag = h.p["A"], h.p["N"], h.p["diag"]
    A2, N2 = int(h.int("A2", 1, 3)), int(h.int("N2", 1, 3))
    save, load, dims, _ = functions(diag)
    keys = [VMK.E, VMK.w, VMK.G1]
    d = mc.model(h, A2, N2, keys, diag)
    path = h.path("m", "model.json")
    save(path, d)
    buf = {VMK.N: N, VMK.A: A}
    for k in keys:
        buf[k] = h.array("old_" + SHORT[k], mc.shape(k, A, N, diag))
    err = None
    try:
        load(path, buf)
    except Unsupported:
        raise
    except Exception as e:  # noqa
        if (h.sym and _engine_error(e)) or harness_error(e):
            raise
        err = e
    h.true("other dimensions are refused", (err is None) == ((A2, N2) == (A, N)))


def body_class(h):
    """the simulation's own model class"""
    A, N, keys = h.p["A"], h.p["N"], h.p["keys"]
    d = mc.model(h, A, N, keys, zeros=h.p["zeros"])
    path = h.path("m", "model.json")
    mc.write(h, path, {k: v for k, v in d.items() if not (isinstance(v, np.ndarray) and not h.sym and not v.any())
                       and not (h.sym and isinstance(v, np.ndarray) and all(isinstance(x, Sym) and x.is_zero() for x in v.flat))})
    with h.no_exception("loading succeeds"):
        if h.p.get("ctor"):
            m = M.ModelClass.from_json_file(path)
        else:
            m = M.ModelClass(A, N)
            m.load_model(path)
    for turn in range(2):
        s = "" if turn == 0 else "again: "
        h.true(s + "states and modes", m.states == A and m.modes == N)
        h.eq(s + "energy", m.energy, mc.full(h, d, VMK.E, A, N, False))
        h.eq(s + "omega", m.omega, mc.full(h, d, VMK.w, A, N, False))
        h.eq(s + "linear", m.linear, mc.full(h, d, VMK.G1, A, N, False))
        h.eq(s + "quadratic", m.quadratic, mc.full(h, d, VMK.G2, A, N, False))
        with h.no_exception("loading again succeeds"):
            m.load_model(path)


def body_same(h):
    """two models that agree, differ in one number, or differ in size"""
    A, N, diag, keys = h.p["A"], h.p["N"], h.p["diag"], h.p["keys"]
    same = VIO._same_diagonal_model if diag else VIO._same_model
    d1 = mc.model(h, A, N, keys, diag, zeros=h.p["zeros"])
    d2 = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in d1.items()}
    # leaving out an array of zeros changes nothing
    for k in h.p["zeros"]:
        if all(isinstance(x, Sym) and x.is_zero() or not isinstance(x, Sym) and x == 0 for x in d2[k].flat):
            where = int(h.int("leave out " + SHORT[k], 0, 2))
            if where:
                del (None, d2, d1)[where][k]
    which = int(h.int("difference", 0, len(keys) + 1))
    scale = h.p.get("scale", 1.0)
    if which > len(keys):       # less than the tolerance
        k = keys[0]
        for i in range(d2[k].size):
            x = h.real("noise%d" % i, -4e-9, 4e-9)
            h.assume(shim.comb("and", [x <= 4e-9, x >= -4e-9]) if h.sym else abs(x) <= 4e-9)
            d2[k].flat[i] = d2[k].flat[i] + x
        which = 0
    elif which:
        k = keys[which - 1]
        if k not in d2:
            d2[k] = h.zeros(mc.shape(k, A, N, diag))
        delta = h.array("delta", (d2[k].size,), -2.0 * scale, 2.0 * scale)
        least = 6e-5 * scale + 2e-8
        h.assume(shim.comb("or", [x >= least for x in delta]) if h.sym else max(delta) >= least)
        for i in range(d2[k].size):
            d2[k].flat[i] = d2[k].flat[i] + delta[i]
    for v in list(d1.values()) + list(d2.values()):     # the tolerance is relative: 1e-8 + 1e-5 of the value
        if isinstance(v, np.ndarray):
            for x in v.flat:
                h.assume(shim.comb("and", [x <= 5 * scale, x >= -5 * scale]) if h.sym else abs(x) <= 5 * scale)
    h.true("equal if and only if no parameter differs", bool(same(d1, d2)) == (which == 0))
    h.true("symmetric", bool(same(d2, d1)) == (which == 0))


def body_same_dims(h):
    diag = h.p["diag"]
    same = VIO._same_diagonal_model if diag else VIO._same_model
    ds = []
    for t in "ab":
        A, N = int(h.int("A" + t, 1, 2)), int(h.int("N" + t, 1, 2))
        ds.append(mc.model(h, A, N, [VMK.E, VMK.w], diag, tag=t))
    a, b = ds
    if (a[VMK.A], a[VMK.N]) == (b[VMK.A], b[VMK.N]):
        return
    with h.no_exception("models of other size can be compared"):
        r = same(a, b)
    h.true("models of other size are different", bool(r) is False)


def body_hash(h):
    """another number gives another hash"""
    A, N, diag = h.p["A"], h.p["N"], h.p["diag"]
    save, load, dims, hashf = functions(diag)
    keys = [VMK.E, VMK.w, VMK.G1]
    d = mc.model(h, A, N, keys, diag)
    p, q = h.path("m", "a.json"), h.path("m", "b.json")
    save(p, d)
    save(q, d)
    h.true("same model, same hash", hashf(path=p) == hashf(path=q))
    k = keys[int(h.int("key", 0, len(keys) - 1))]
    i = int(h.int("entry", 0, d[k].size - 1))
    d[k].flat[i] = d[k].flat[i] + h.real("delta", 0.01, 2.0, pos=True)
    save(q, d)
    h.true("other model, other hash", hashf(path=p) != hashf(path=q))


def harnesses(tier):
    E, w, l, q, c, r = mc.ORDER

    def mk(name, body, tier="quick", patches=patches, **p):
        return Harness(name, body, patches, params=p, bounds={k: (v if not isinstance(v, list) else [SHORT[x] for x in v]) for k, v in p.items()},
                       tier=tier, points=4)
    out = []
    for diag in (False, True):
        s = "_diagonal" if diag else ""
        out += [mk("roundtrip" + s, body_roundtrip, A=2, N=2, diag=diag, keys=[E, w, l, q], zeros=[E, l, q], inplace=[E, w, l, q]),
                mk("roundtrip_high_orders" + s, body_roundtrip, A=2, N=1, diag=diag, keys=[E, w, l, q, c, r], zeros=[E, c, r], inplace=[E, w, l, q, c, r]),
                mk("roundtrip_absent" + s, body_roundtrip, A=2, N=2, diag=diag, keys=[w, c], zeros=[], inplace=[E, w, l, q]),
                mk("roundtrip_no_frequency" + s, body_roundtrip, A=2, N=2, diag=diag, keys=[E, w, l], zeros=[w], inplace=[E, w]),
                mk("roundtrip_one_surface" + s, body_roundtrip, A=1, N=3, diag=diag, keys=[E, w, l], zeros=[E, l], inplace=[E, w, l, q]),
                mk("other_dimensions" + s, body_dims, A=2, N=2, diag=diag),
                mk("comparison" + s, body_same, patches=lambda h: mc.patches(h, True), A=2, N=1, diag=diag, keys=[E, w, l, q], zeros=[l, q]),
                mk("comparison_small" + s, body_same, patches=lambda h: mc.patches(h, True), A=2, N=1, diag=diag, keys=[E, l], zeros=[l], scale=1e-4),
                mk("comparison_high_orders" + s, body_same, patches=lambda h: mc.patches(h, True), A=2, N=1, diag=diag, keys=[E, w, c, r], zeros=[c, r]),
                mk("comparison_sizes" + s, body_same_dims, patches=lambda h: mc.patches(h, True), diag=diag),
                mk("hash" + s, body_hash, A=2, N=1, diag=diag),
                mk("roundtrip_three" + s, body_roundtrip, tier="thorough", A=3, N=2, diag=diag, keys=[E, w, l, q, c], zeros=[E, l, q, c], inplace=[E, w, l, q, c])]
    for ctor in (False, True):
        out += [mk("simulation_model" + ("_ctor" if ctor else ""), body_class, A=2, N=2, keys=[E, w, l, q], zeros=[E, l, q], ctor=ctor)]
    return out
