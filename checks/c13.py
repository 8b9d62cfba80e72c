"""C13: artificial coupling by an orthonormal transformation"""
import os
import numpy as np
from symx import core, shim
from symx.core import Sym, Unsupported
from symx.shim import comb
from symx.harness import Harness, _engine_error, harness_error
from checks import model_common as mc
from checks.model_common import VIO, VMK, SHORT
from pibronic.data.file_structure import FileStructure

PROPERTY = "C13"
EXPLANATION = ("The real transformation runs on models and matrices of symbolic numbers, through every way of obtaining the matrix; z3 decides "
               "each branch and whether a stored number can differ from U M U^T, or the backup from the model before the call.")
ASSUMPTIONS = ["json and numpy.save store and return numbers exactly", "floating point is modelled as real arithmetic",
               "closeness tests are read as equality"]
OUTSIDE = ["models larger than stated", "interrupted writes"]


def structure(h):
    return FileStructure(os.path.dirname(h.path("root", "x")), 2, 1)


def text(p):
    with open(p, encoding="UTF8") as f:
        return f.read()


def rotation(h, A, tag=""):
    """orthonormal: product of Givens rotations and a reflection"""
    U = np.empty((A, A), dtype=object if h.sym else float)
    one, zero = (Sym.const(1), Sym.const(0)) if h.sym else (1.0, 0.0)
    U[...] = zero
    for i in range(A):
        U[i, i] = one
    for k, (i, j) in enumerate([(0, 1)] if A == 2 else [(0, 1), (1, 2)]):
        t = h.real("%st%d" % (tag, k), -2.0, 2.0)
        den = t * t + 1
        c, s = (one - t * t) / den, t * 2 / den
        G = np.empty((A, A), dtype=U.dtype)
        G[...] = zero
        for m in range(A):
            G[m, m] = one
        G[i, i], G[j, j], G[i, j], G[j, i] = c, c, s, -s
        U = U.dot(G)
    if h.bool(tag + "reflection"):
        U[0, :] = -U[0, :]
    return U


def store_matrix(h, path, U):
    if h.sym:
        h.store.save(path, U.copy())
    else:
        np.save(path, U)


def load_matrix(h, path):
    return h.store.load(path) if h.sym else np.load(path)


def transformed(U, old, A):
    """U M U^T for every matrix M of the array"""
    new = np.empty(old.shape, dtype=object)
    for i in np.ndindex(*old.shape):
        m, b, c = i[:-2], i[-2], i[-1]
        new[i] = sum(U[b, j] * old[m + (j, k)] * U[c, k] for j in range(A) for k in range(A))
    return new


def one_call(h, FS, how, A, N, tag, s=""):
    """one use of the transformation; returns the model before it"""
    before = mc.stored(h, FS.path_vib_model, A, N, False)
    t = text(FS.path_vib_model)
    tp = 0.25
    with h.no_exception(s + "transformation succeeds"):
        if how == "given":
            U = rotation(h, A, tag)
            keep = U.copy()
            VIO.create_fake_coupled_model(FS, transformation_matrix=U)
            h.eq(s + "the caller's matrix is untouched", U, keep)
        elif how == "re-use":
            U = h.array(tag + "U", (A, A))
            store_matrix(h, FS.path_ortho_mat, U)
            VIO.create_fake_coupled_model(FS, tp, "re-use")
        else:
            U = h.array(tag + "U", (A, A))
            asked = []

            def stub(order, tuning):
                asked.append((order, tuning))
                return U.copy()
            with shim.patched([(VIO.orthonormal.create, "create_orthonormal_matrix_lambda_close_to_identity", stub)]):
                VIO.create_fake_coupled_model(FS, tp)
            if not asked:
                raise Unsupported("the matrix is made in another way")
            h.true(s + "a matrix of the right order and strength is asked for", asked == [(A, tp)])
    h.true(s + "backup is the model before the call", text(FS.path_orig_model) == t)
    with h.no_exception(s + "the matrix is stored"):
        got = load_matrix(h, FS.path_ortho_mat)
    h.eq(s + "stored matrix", got, U)
    new = mc.stored(h, FS.path_vib_model, A, N, False)
    h.true(s + "sizes", new[VMK.A] == A and new[VMK.N] == N)
    h.eq(s + "frequencies", new[VMK.w], before[VMK.w])
    for k in mc.ORDER:
        if k is not VMK.w:
            h.eq(s + "transformed " + SHORT[k], new[k], transformed(U, before[k], A))


def body(h):
    A, N, keys = h.p["A"], h.p["N"], h.p["keys"]
    FS = structure(h)
    d = mc.model(h, A, N, keys, sym=True, zeros=h.p.get("zeros", ()), modes=h.p.get("modes", True))
    mc.write(h, FS.path_vib_model, {k: v for k, v in d.items()})
    for n, how in enumerate(h.p["calls"]):
        one_call(h, FS, how, A, N, "%s%d" % (how[0], n), "" if len(h.p["calls"]) == 1 else "call %d: " % (n + 1))


def body_refused(h):
    """a matrix that is not orthonormal, or a model that is not symmetric, is refused and nothing is overwritten"""
    A, N = 2, 1
    FS = structure(h)
    d = mc.model(h, A, N, [VMK.E, VMK.w, VMK.G1], sym=True)
    U = rotation(h, A)
    if h.p["what"] == "matrix":
        how = int(h.int("kind of matrix", 0, 3))
        d_ = h.real("error", 0.1, 2.0, pos=True)
        if how == 0:        # one number is wrong
            i, j = int(h.int("row", 0, 1)), int(h.int("column", 0, 1))
            U[i, j] = U[i, j] + d_
            a = sum(U[i, k] * U[i, k] for k in range(A)) - 1
        elif how == 1:      # orthogonal, wrong length
            a = (1 + d_) * (1 + d_) - 1
            U = U * (1 + d_)
        else:               # rows or columns of length one, not orthogonal
            t = h.real("angle", 0.2, 2.0, pos=True)
            one, zero = (Sym.const(1), Sym.const(0)) if h.sym else (1.0, 0.0)
            c, a = (one - t * t) / (t * t + 1), t * 2 / (t * t + 1)
            U[0, 0], U[0, 1], U[1, 0], U[1, 1] = one, zero, a, c
            if how == 3:
                U = U.T.copy()
        h.assume(comb("or", [a >= 0.01, a <= -0.01]) if h.sym else abs(a) > 0.01)
    elif h.p["what"] == "source":
        U = ["reuse", "new", 0.5][int(h.int("kind of source", 0, 2))]
    else:
        k = (VMK.E, VMK.G1)[int(h.int("parameter", 0, 1))]
        d[k][..., 0, 1] = d[k][..., 0, 1] + h.real("error", 0.1, 2.0, pos=True)
    mc.write(h, FS.path_vib_model, d)
    t = text(FS.path_vib_model)
    earlier = bool(h.bool("coupled before"))
    if earlier:
        W = h.array("W", (A, A))
        store_matrix(h, FS.path_ortho_mat, W)
        with open(FS.path_orig_model, "w", encoding="UTF8") as f:
            f.write("the original model")
    err = None
    try:
        VIO.create_fake_coupled_model(FS, transformation_matrix=U)
    except Unsupported:
        raise
    except Exception as e:  # noqa
        if (h.sym and _engine_error(e)) or harness_error(e):
            raise
        err = e
    h.true("refused", err is not None)
    h.true("model left alone", text(FS.path_vib_model) == t)
    if earlier:
        h.true("backup left alone", os.path.exists(FS.path_orig_model) and text(FS.path_orig_model) == "the original model")
        h.eq("stored matrix left alone", load_matrix(h, FS.path_ortho_mat), W)
    else:
        h.true("no backup", not os.path.exists(FS.path_orig_model))
        h.true("no stored matrix", not os.path.exists(FS.path_ortho_mat))


def harnesses(tier):
    E, w, l, q, c, r = mc.ORDER

    def mk(name, body, tier="quick", **p):
        return Harness(name, body, lambda h: mc.patches(h), params=p,
                       bounds={k: ([SHORT.get(x, x) for x in v] if isinstance(v, list) else v) for k, v in p.items()}, tier=tier, points=4)
    return [mk("reused_matrix", body, A=2, N=2, keys=[E, w, l, q], calls=["re-use"]),
            mk("reused_matrix_zeros", body, A=2, N=1, keys=[E, w, l], zeros=[E, l], calls=["re-use"]),
            mk("reused_matrix_high_orders", body, A=2, N=1, keys=[w, c, r], calls=["re-use"]),
            mk("new_matrix", body, A=2, N=1, keys=[E, w, l, q], calls=["new"]),
            mk("new_matrix_three_surfaces", body, A=3, N=1, keys=[E, w, l], calls=["new"]),
            mk("given_matrix", body, A=2, N=1, keys=[E, w, l, q], calls=["given"]),
            mk("two_calls", body, A=2, N=1, keys=[E, w], calls=["given", "re-use"]),
            mk("refused_matrix", body_refused, what="matrix"),
            mk("refused_model", body_refused, what="model"),
            mk("refused_source", body_refused, what="source"),
            mk("cubic_two_modes", body, A=2, N=2, keys=[w, c], calls=["re-use"], modes=False),
            mk("given_three", body, A=3, N=1, keys=[E, w], calls=["given"]),
            mk("reused_three", body, tier="thorough", A=3, N=2, keys=[E, w, l, q], calls=["re-use"])]
