"""Shared by the checks of model files"""
import os
import numpy as np
from symx import core, shim
from symx.core import Sym
from symx.shim import comb
from pibronic.vibronic import vibronic_model_io as VIO
from pibronic.vibronic import VMK
from pibronic.data.file_structure import FileStructure

ORDER = [VMK.E, VMK.w, VMK.G1, VMK.G2, VMK.G3, VMK.G4]
SHORT = {VMK.E: "E", VMK.w: "w", VMK.G1: "l", VMK.G2: "q", VMK.G3: "c", VMK.G4: "r"}


def shape(key, A, N, diag):
    a = (A,) if diag else (A, A)
    return {VMK.E: a, VMK.w: (N,), VMK.G1: (N,) + a, VMK.G2: (N, N) + a, VMK.G3: (N,) * 3 + a, VMK.G4: (N,) * 4 + a}[key]


def patches(h, close_tol=False):
    npz = shim.NPShim(store=h.store, close_tol=close_tol)
    return [(VIO, "np", npz), (VIO, "F64", object), (VIO, "json", shim.JsonShim())]


def symmetric(h, name, key, A, N, diag=False, modes=True):
    """array symmetric in surfaces and (fully) in modes"""
    s = shape(key, A, N, diag)
    a = np.empty(s, dtype=object if h.sym else float)
    nm = len(s) - (1 if diag else 2)
    for i in np.ndindex(*s):
        m, sf = tuple(sorted(i[:nm])) if modes else i[:nm], tuple(sorted(i[nm:]))
        a[i] = h.real("%s_%s" % (name, "_".join(map(str, m + sf))))
    return a


def model(h, A, N, keys, diag=False, tag="", zeros=(), sym=False, modes=True):
    """a model dictionary; for the keys listed in zeros a symbolic flag decides whether all entries vanish"""
    d = {VMK.N: N, VMK.A: A}
    for k in ORDER:
        if k not in keys:
            continue
        n = tag + SHORT[k]
        s = shape(k, A, N, diag)
        pos = k is VMK.w
        if k in zeros and h.bool(n + " is zero"):
            d[k] = h.zeros(s)
            continue
        if sym and not pos:
            d[k] = symmetric(h, n, k, A, N, diag, modes)
        else:
            d[k] = h.array(n, s, 0.1 if pos else -2.0, 2.0, pos=pos)
        if h.sym and not pos:
            h.assume(comb("or", [x != 0 for x in d[k].flat]))
    return d


def full(h, d, key, A, N, diag):
    """value of a parameter, zero when the key is missing"""
    return d[key] if key in d else h.zeros(shape(key, A, N, diag))


def write(h, path, d):
    """the model file, written by the harness itself"""
    import json
    out = {}
    for k, v in d.items():
        out[k.value] = h.jsonable(v)
    with open(path, "w", encoding="UTF8") as f:
        f.write(json.dumps(out, ensure_ascii=False))


def read(h, path):
    """the stored model as {key: nested list}"""
    import json
    with open(path, encoding="UTF8") as f:
        t = f.read()
    d = (shim.JsonShim if h.sym else json).loads(t)
    return {VMK(k): v for k, v in d.items()}


def stored(h, path, A, N, diag):
    """the stored model with arrays for every order"""
    d = read(h, path)
    out = {VMK.N: d.get(VMK.N), VMK.A: d.get(VMK.A)}
    for k in ORDER:
        if k in d:
            v = np.array(d[k], dtype=object) if not h.sym else shim.obj(d[k])
            out[k] = v
        else:
            out[k] = h.zeros(shape(k, A, N, diag))
    return out


def eq_model(h, label, got, want, A, N, diag, keys=ORDER):
    h.true(label + ": number of surfaces and modes", got[VMK.A] == A and got[VMK.N] == N)
    for k in keys:
        h.eq("%s: %s" % (label, SHORT[k]), full(h, got, k, A, N, diag), full(h, want, k, A, N, diag))
