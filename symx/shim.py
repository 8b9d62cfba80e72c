"""Stand-ins that let the real module code run on symbolic scalars.

`NP` forwards everything to numpy except: constructors (object dtype, so symbolic scalars can be stored), elementwise
functions, closeness tests (exact equality of reals), eigen-decompositions (contract stub keyed by the matrix), random
draws (inputs of the harness), and npz files (an in-memory store with the same interface).
"""
from .core import *  # noqa
from . import core
import builtins
import contextlib
import json as _json
import os
import numpy as np
import scipy.linalg
import z3


class SymComb:
    """and / or of conditions"""

    def __init__(self, kind, parts):
        self.kind, self.parts = kind, parts

    def polys(self):
        return [q for p in self.parts for q in p.polys()]

    def lower(self, lw):
        f = z3.And if self.kind == "and" else z3.Or
        return [f(*[z3.And(*p.lower(lw)) for p in self.parts])]

    def neg(self):
        return SymComb("or" if self.kind == "and" else "and", [p.neg() for p in self.parts])

    def __bool__(self):
        return CTX.decide(self)

    def __invert__(self):
        return self.neg()


def comb(kind, parts):
    """simplify constants"""
    out = []
    for p in parts:
        if p is True or p is np.True_:
            if kind == "or":
                return True
            continue
        if p is False or p is np.False_:
            if kind == "and":
                return False
            continue
        out.append(p)
    if not out:
        return kind == "and"
    if len(out) == 1:
        return out[0]
    return SymComb(kind, out)


def is_symbolic(x):
    if isinstance(x, (Sym, ZInt, ZReal)):
        return True
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(isinstance(e, (Sym, ZInt, ZReal)) for e in x.flat)
    if isinstance(x, (list, tuple)):
        return any(is_symbolic(e) for e in x)
    return False


def untoken(x):
    if isinstance(x, str):
        t = core.from_token(x)
        if t is not None:
            return t[0]
        return Sym.const(float(x))
    return x


def lift_el(x):
    if isinstance(x, (Sym, ZInt, ZReal)):
        return x
    if isinstance(x, str):
        return untoken(x)
    if isinstance(x, (float, np.floating)):
        if x != x or x in (float("inf"), float("-inf")):
            return float(x)
        return Sym.const(x)
    if isinstance(x, (int, np.integer)) and not isinstance(x, (bool, np.bool_)):
        return Sym.const(x)
    if x is None:
        return x
    return x


def obj(x, force=False):
    """object array of Sym from anything array like"""
    a = np.array(x, dtype=object)
    r = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        r[i] = lift_el(a[i])
    return r


_FLOATY = (None, float, object, np.float64, "float", "float64", np.float32, np.dtype("float64"))


def _floaty(dtype):
    try:
        return dtype is None or dtype is object or np.dtype(dtype).kind in "fO"
    except TypeError:
        return False


def _has_token(x):
    if isinstance(x, str):
        return core.from_token(x) is not None
    if isinstance(x, (list, tuple)):
        return any(_has_token(e) for e in x)
    return False


def _elementwise(method, pyf):
    def one(x):
        if isinstance(x, Sym):
            return getattr(x, method)()
        if isinstance(x, (ZInt, ZReal)):
            raise Unsupported(method + " of an integer term")
        if isinstance(x, (float, np.floating)) and (x != x):
            return float("nan")
        return getattr(Sym.const(x), method)()

    def f(x, out=None, **kw):
        if kw:
            raise Unsupported("keywords for " + method)
        if isinstance(x, np.ndarray) and x.dtype != object:
            r = pyf(x)
            if out is not None:
                out[...] = r
                return out
            return r
        if not isinstance(x, np.ndarray):
            if isinstance(x, (Sym, ZInt, ZReal)):
                return one(x)
            if isinstance(x, (list, tuple)) and is_symbolic(x):
                x = obj(x)
            elif method == "sqrt" and np.ndim(x) == 0 and is_num(x) and x > 0 and float(x) == int(x) and x < 10**6:
                return Sym.const(int(x)).sqrt()
            else:
                return pyf(x)
        r = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            r[i] = one(x[i])
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            o[...] = r
            return o
        return r if r.shape != () else r[()]
    return f


# ------------------------------------------------------------------------------------------------------------------
# eigen-decomposition
# ------------------------------------------------------------------------------------------------------------------
def _exact_circulant(W):
    """exact eigenpairs (ascending) of the ring adjacency matrix with 3, 4, 6 or 8 sites, else None"""
    P = W.shape[0]
    ring = np.zeros((P, P), dtype=int)
    for i in range(P):
        ring[i, (i + 1) % P] += 1
        ring[i, (i - 1) % P] += 1
    if P < 3 or not np.array_equal(np.array(W, dtype=float), ring):
        return None
    h = Fr(1, 2)
    if P == 4:
        lam = [-2, 0, 0, 2]
        vec = [[h, -h, h, -h], [h, h, -h, -h], [h, -h, -h, h], [h, h, h, h]]
        vec = [[Sym.const(x) for x in v] for v in vec]
    elif P == 3:
        r2, r3 = const_root(2), const_root(3)
        lam = [-1, -1, 2]
        vec = [[1 / r2, -1 / r2, 0 * r2], [1 / (r2 * r3), 1 / (r2 * r3), -2 / (r2 * r3)], [1 / r3] * 3]
    elif P == 6:
        r2, r3 = const_root(2), const_root(3)
        s6 = 1 / (r2 * r3)
        s12 = 1 / (2 * r3)
        z = 0 * r2
        lam = [-2, -1, -1, 1, 1, 2]
        vec = [[s6, -s6, s6, -s6, s6, -s6],
               [2 * s12, -s12, -s12, 2 * s12, -s12, -s12],
               [z, h * 1 * (1 + z), -h * (1 + z), z, h * (1 + z), -h * (1 + z)],
               [2 * s12, s12, -s12, -2 * s12, -s12, s12],
               [z, h * (1 + z), h * (1 + z), z, -h * (1 + z), -h * (1 + z)],
               [s6] * 6]
    elif P == 8:
        r2 = const_root(2)
        q = h * h * r2          # 1/sqrt(8)
        z = 0 * r2
        hh, s = h * (1 + z), h * r2 * h
        lam = [-2, -r2, -r2, z, z, r2, r2, 2]
        c = [hh, s, z, -s, -hh, -s, z, s]       # cos(pi j / 4) / 2
        at = lambda k, o: [c[(k * j - o) % 8] for j in range(8)]     # noqa
        vec = [[q, -q] * 4, at(3, 0), at(3, 2), at(2, 0), at(2, 2), at(1, 0), at(1, 2), [q] * 8]
    else:
        return None
    L = np.empty(P, dtype=object)
    U = np.empty((P, P), dtype=object)
    for k in range(P):
        L[k] = Sym.lift(lam[k])
        for i in range(P):
            U[i, k] = vec[k][i]
    # check the stub's own contract: W U = U diag(L), U^T U = 1
    Wo = obj(W)
    assert all((x if isinstance(x, Sym) else Sym.const(x)).is_zero() for x in (Wo.dot(U) - U * L).flat)
    assert all(Sym.lift(x).is_zero() for x in (U.T.dot(U) - obj(np.eye(P, dtype=int))).flat)
    return L, U


def const_root(n):
    return core.const_root(n)


def _eig_atoms(W):
    """eigenvalue / eigenvector atoms of a symbolic symmetric matrix, keyed by its (lower triangle) entries"""
    A = W.shape[0]
    ent = [[W[max(i, j), min(i, j)] for j in range(A)] for i in range(A)]
    ent = [[Sym.lift(x) for x in r] for r in ent]
    if all(ent[i][j].is_zero() for i in range(A) for j in range(A) if i != j):
        L = np.array([ent[i][i] for i in range(A)], dtype=object)
        return L, obj(np.eye(A, dtype=int))
    # scale out a common monomial so that eigh(c*W) and c*eigh(W) share atoms
    nz = [x for r in ent for x in r if not x.is_zero()]
    scale = Sym.const(1)
    if all(not x.den for x in nz):
        tot = {}
        for x in nz:
            for m in x.num:
                tot[m] = Fr(1)
        _, mono = core.p_content(tot)
        mono = tuple((a, e) for a, e in mono if core.TAB.atoms[a].positive)
        c = abs(sorted(nz[0].num.items())[0][1])
        scale = Sym({mono: c})
        ent = [[x / scale for x in r] for r in ent]
    key = tuple(tuple(x.key() for x in r) for r in ent)
    L = np.empty(A, dtype=object)
    U = np.empty((A, A), dtype=object)

    def num(e):
        ck = ("eig", key)
        if ck not in e:
            M = np.array([[x.evalf(e) for x in r] for r in ent], dtype=float)
            e[ck] = np.linalg.eigh(M)
        return e[ck]
    for k in range(A):
        L[k] = Sym.atom(core.TAB.get("eigval", (key, k), evalf=lambda e, k=k: num(e)[0][k])) * scale
        for i in range(A):
            U[i, k] = Sym.atom(core.TAB.get("eigvec", (key, i, k), evalf=lambda e, i=i, k=k: num(e)[1][i, k]))
    return L, U


def sym_eigh(W, UPLO="L", **kw):
    W = np.asarray(W)
    if W.dtype != object:
        r = _exact_circulant(W) if W.ndim == 2 else None
        if r is not None:
            return r
        L, U = np.linalg.eigh(W, UPLO=UPLO)
        return obj(L), obj(U)
    if UPLO == "U":
        W = np.swapaxes(W, -1, -2)
    if W.ndim == 2 and not is_symbolic(W):
        return sym_eigh(W.astype(float))
    if W.ndim == 2:
        if all(Sym.lift(x).is_const() for x in W.flat):
            return sym_eigh(W.astype(float))
        return _eig_atoms(W)
    L = np.empty(W.shape[:-1], dtype=object)
    U = np.empty(W.shape, dtype=object)
    for i in np.ndindex(*W.shape[:-2]):
        L[i], U[i] = _eig_atoms(W[i])
    return L, U


def sym_expm(M, c=1):
    """matrix exponential of a symmetric matrix through the same eigen atoms"""
    M = np.asarray(M)
    if M.ndim > 2:
        r = np.empty(M.shape, dtype=object)
        for i in np.ndindex(*M.shape[:-2]):
            r[i] = sym_expm(M[i])
        return r
    for i in range(M.shape[0]):
        for j in range(i):
            d = Sym.lift(M[i, j]) - Sym.lift(M[j, i])
            if not d.is_zero():
                raise Unsupported("expm of a non symmetric matrix")
    L, U = _eig_atoms(obj(M))
    E = np.array([(Sym.lift(x) * c).exp() for x in L], dtype=object)
    return np.einsum('ij,j,kj->ik', U, E, U)


class _Linalg:
    LinAlgError = np.linalg.LinAlgError

    def __getattr__(self, n):
        return getattr(np.linalg, n)

    @staticmethod
    def eigh(W, UPLO="L"):
        return sym_eigh(W, UPLO)

    @staticmethod
    def eigvalsh(W, UPLO="L"):
        """in ascending order"""
        L = sym_eigh(W, UPLO)[0]
        if L.ndim != 1 or not is_symbolic(L):
            return np.sort(L, axis=-1) if not is_symbolic(L) else L
        W = np.asarray(W)
        n = len(L)
        if all(Sym.lift(W[i, j]).is_zero() for i in range(n) for j in range(i)):
            out = []
            for x in L:
                k = len(out)
                while k > 0 and x < out[k - 1]:
                    k -= 1
                out.insert(k, x)
            return np.array(out, dtype=object)
        for a, b in zip(L, L[1:]):
            c = a <= b
            if c is not True:
                CTX.assume(c)
        return L

    @staticmethod
    def multi_dot(ms, out=None):
        r = ms[0]
        for m in ms[1:]:
            r = np.dot(r, m)
        if out is not None:
            out[...] = r
        return r

    @staticmethod
    def matrix_power(m, n):
        r = obj(np.eye(m.shape[0], dtype=int))
        for _ in range(n):
            r = r.dot(m)
        return r


# ------------------------------------------------------------------------------------------------------------------
# npz store
# ------------------------------------------------------------------------------------------------------------------
class NpzStore:
    def __init__(self):
        self.files = {}

    @staticmethod
    def norm(path, ext=".npz"):
        p = os.fspath(path)
        if not p.endswith(ext):
            p += ext
        return os.path.realpath(p)

    def savez(self, path, *args, **kw):
        p = self.norm(path)
        d = {}
        for i, v in enumerate(args):
            d["arr_%d" % i] = v
        d.update(kw)
        self.files[p] = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in d.items()}
        with open(p, "wb") as f:
            f.write(b"symbolic npz")

    def save(self, path, arr):
        p = self.norm(path, ".npy")
        self.files[p] = arr.copy() if isinstance(arr, np.ndarray) else arr
        with open(p, "wb") as f:
            f.write(b"symbolic npy")

    def load(self, path, mmap_mode=None, **kw):
        p = os.path.realpath(os.fspath(path))
        if p not in self.files:
            if not os.path.exists(p):
                raise FileNotFoundError(2, "No such file or directory", p)
            return np.load(path, mmap_mode=mmap_mode, **kw)
        d = self.files[p]
        if not isinstance(d, dict):
            return d.copy()
        return NpzFile(d)


class NpzFile:
    def __init__(self, d):
        self.d = d
        self.files = list(d)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def keys(self):
        return list(self.d)

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def __contains__(self, k):
        return k in self.d

    def get(self, k, default=None):
        return self[k] if k in self.d else default

    def items(self):
        return [(k, self[k]) for k in self.d]

    def values(self):
        return [self[k] for k in self.d]

    def __getitem__(self, k):
        v = self.d[k]
        if isinstance(v, np.ndarray):
            return v.copy()
        if isinstance(v, (int, float, str, np.generic)) and not isinstance(v, bool):
            return np.array(v)
        return v


class _Count:
    """number of non zero entries; only comparisons with zero are meaningful"""

    def __init__(self, cond):
        self.c = cond

    def __gt__(self, n):
        if n == 0:
            return self.c
        raise Unsupported("count comparison")

    __ne__ = __gt__

    def __ge__(self, n):
        if n == 1:
            return self.c
        raise Unsupported("count comparison")

    def __eq__(self, n):
        if n == 0:
            return self.c.neg() if hasattr(self.c, "neg") else not self.c
        raise Unsupported("count comparison")

    def __lt__(self, n):
        if n == 1:
            return self == 0
        raise Unsupported("count comparison")

    def __le__(self, n):
        if n == 0:
            return self == 0
        raise Unsupported("count comparison")

    def __bool__(self):
        return bool(self.c)

    __hash__ = None


class NPShim:
    """stand-in for the name `np` inside a module under test"""

    def __init__(self, random=None, store=None, close_tol=False):
        """close_tol: allclose/isclose with their tolerances; otherwise they mean equality"""
        self.close_tol = close_tol
        self.random = random if random is not None else np.random
        self.linalg = _Linalg()
        self.store = store or NpzStore()
        self.float64 = object
        self.ndarray = np.ndarray
        for n, f in (("exp", np.exp), ("sqrt", np.sqrt), ("tanh", np.tanh), ("sinh", np.sinh),
                     ("cosh", np.cosh), ("log", np.log)):
            setattr(self, n, _elementwise(n, f))

    def __getattr__(self, n):
        return getattr(np, n)

    # constructors -------------------------------------------------------------------------------------------------
    def zeros(self, shape, dtype=None, **kw):
        if not _floaty(dtype):
            return np.zeros(shape, dtype=dtype)
        a = np.empty(shape, dtype=object)
        a.fill(Sym.const(0))
        return a

    def ones(self, shape, dtype=None, **kw):
        if not _floaty(dtype):
            return np.ones(shape, dtype=dtype)
        a = np.empty(shape, dtype=object)
        a.fill(Sym.const(1))
        return a

    def empty(self, shape, dtype=None, **kw):
        if not _floaty(dtype):
            return np.empty(shape, dtype=dtype)
        a = np.empty(shape, dtype=object)
        a.fill(float("nan"))
        return a

    def full(self, shape, fill_value, dtype=None, **kw):
        if dtype is not None and not _floaty(dtype):
            return np.full(shape, fill_value, dtype=dtype)
        a = np.empty(shape, dtype=object)
        v = lift_el(fill_value)
        if isinstance(v, np.ndarray):
            a[...] = v
        else:
            a.fill(v)
        return a

    def zeros_like(self, x, dtype=None, **kw):
        return self.zeros(np.shape(x), dtype=dtype)

    def ones_like(self, x, dtype=None, **kw):
        return self.ones(np.shape(x), dtype=dtype)

    def empty_like(self, x, dtype=None, **kw):
        return self.empty(np.shape(x), dtype=dtype)

    def full_like(self, x, v, dtype=None, **kw):
        return self.full(np.shape(x), v, dtype=dtype)

    def identity(self, n, dtype=None):
        return obj(np.eye(n, dtype=int))

    def eye(self, n, M=None, k=0, dtype=None):
        return obj(np.eye(n, M, k, dtype=int))

    def array(self, x, dtype=None, copy=True, **kw):
        if isinstance(x, np.ndarray):
            if dtype is None:
                return x.copy()
            if _floaty(dtype):
                return obj(x)
            return x.astype(dtype)
        if is_symbolic(x) or _has_token(x):
            return obj(x)
        if isinstance(x, (list, tuple)) and any(isinstance(e, np.ndarray) and e.dtype == object for e in x):
            return obj(x)
        a = np.array(x, dtype=None if dtype in (object,) else dtype, **kw)
        if a.dtype.kind == "f":
            return obj(a)
        if dtype is object and a.dtype.kind in "iu":
            return obj(a)
        return a

    def asarray(self, x, dtype=None, **kw):
        if isinstance(x, np.ndarray) and (dtype is None or _floaty(dtype) and x.dtype == object):
            return x
        return self.array(x, dtype=dtype)

    ascontiguousarray = asarray
    asfarray = asarray

    def loadtxt(self, *a, **k):
        return np.loadtxt(*a, **k)

    # predicates -----------------------------------------------------------------------------------------------------
    def isnan(self, x):
        if isinstance(x, np.ndarray) and x.dtype == object:
            r = np.empty(x.shape, dtype=bool)
            for i in np.ndindex(*x.shape):
                r[i] = isinstance(x[i], float) and x[i] != x[i]
            return r
        if isinstance(x, (Sym, ZInt, ZReal)):
            return False
        return np.isnan(x)

    def isfinite(self, x):
        return np.logical_not(self.isnan(x))

    def _close(self, a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
        if not self.close_tol:
            return a == b
        a, b = Sym.lift(a), Sym.lift(b)
        if a.key() == b.key():
            return True
        d, r, t = a - b, Sym.lift(rtol), Sym.lift(atol)
        up, dn = t + r * b, t - r * b
        return comb("or", [comb("and", [d <= up, -d <= up]), comb("and", [d <= dn, -d <= dn])])

    def isclose(self, a, b, *args, **kw):
        if not is_symbolic(a) and not is_symbolic(b):
            return np.isclose(np.asarray(a, dtype=float), np.asarray(b, dtype=float), *args, **kw)
        a, b = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
        r = np.empty(a.shape, dtype=bool)
        for i in np.ndindex(*a.shape):
            r[i] = bool(self._close(a[i], b[i], *args, **kw))
        return r if r.shape else bool(r)

    def allclose(self, a, b, *args, **kw):
        if not is_symbolic(a) and not is_symbolic(b):
            return np.allclose(np.asarray(a, dtype=float), np.asarray(b, dtype=float), *args, **kw)
        a, b = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
        c = comb("and", [self._close(x, y, *args, **kw) for x, y in zip(a.flat, b.flat)])
        return bool(c)

    def array_equal(self, a, b, *args, **kw):
        if np.shape(a) != np.shape(b):
            return False
        return self.allclose(a, b)

    def count_nonzero(self, a, *args, **kw):
        if isinstance(a, np.ndarray) and a.dtype == object:
            if args or kw:
                raise Unsupported("count_nonzero with axis")
            return _Count(comb("or", [Sym.lift(x) != 0 if not isinstance(x, float) or x == x else True
                                      for x in a.flat]))
        return np.count_nonzero(a, *args, **kw)

    def any(self, a, *args, **kw):
        if isinstance(a, np.ndarray) and a.dtype == object and not args and not kw and is_symbolic(a):
            return bool(comb("or", [x != 0 if isinstance(x, (Sym, ZInt)) else bool(x) for x in a.flat]))
        return np.any(a, *args, **kw)

    # extrema ----------------------------------------------------------------------------------------------------------
    def _extremum(self, a, axis, sign):
        if not is_symbolic(a):
            f = np.amax if sign > 0 else np.amin
            return f(np.asarray(a, dtype=float), axis=axis)
        a = np.asarray(a, dtype=object)
        if axis is None:
            axis = tuple(range(a.ndim))
        if isinstance(axis, int):
            axis = (axis,)
        axis = tuple(x % a.ndim for x in axis)
        keep = [i for i in range(a.ndim) if i not in axis]
        b = a.transpose(keep + list(axis)).reshape([a.shape[i] for i in keep] + [-1])
        r = np.empty(b.shape[:-1], dtype=object)
        for i in np.ndindex(*b.shape[:-1]):
            r[i] = sym_extremum(list(b[i]), sign)
        return r if r.shape else r[()]

    def amax(self, a, axis=None, **kw):
        return self._extremum(a, axis, 1)

    max = amax

    def amin(self, a, axis=None, **kw):
        return self._extremum(a, axis, -1)

    min = amin

    def maximum(self, a, b, **kw):
        return self._pairwise(a, b, 1, **kw)

    def minimum(self, a, b, **kw):
        return self._pairwise(a, b, -1, **kw)

    def _pairwise(self, a, b, sign, out=None):
        if not is_symbolic(a) and not is_symbolic(b):
            return (np.maximum if sign > 0 else np.minimum)(a, b)
        a, b = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
        r = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            r[i] = sym_extremum([a[i], b[i]], sign)
        if out is not None:
            out[...] = r
            return out
        return r if r.shape else r[()]

    def set_printoptions(self, *a, **k):
        return None

    def ceil(self, x, **kw):
        return self._whole(x, "__ceil__", lambda y: y.__ceil__(), np.ceil)

    def floor(self, x, **kw):
        return self._whole(x, "__floor__", lambda y: y.__floor__(), np.floor)

    def rint(self, x, **kw):
        return self._whole(x, "__round__", round, np.rint)

    def around(self, x, decimals=0, **kw):
        return self._whole(x, "__round__", lambda y: round(y, decimals), lambda y: np.around(y, decimals))

    round = round_ = around

    @staticmethod
    def _whole(x, name, f, plain):
        if not is_symbolic(x):
            return plain(x)
        if not isinstance(x, np.ndarray) and not isinstance(x, (list, tuple)):
            return f(x)
        x = np.asarray(x, dtype=object)
        r = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            r[i] = f(x[i]) if isinstance(x[i], (Sym, ZInt, ZReal)) else plain(float(x[i]))
        return r

    # files --------------------------------------------------------------------------------------------------------------
    def savez(self, path, *a, **k):
        self.store.savez(path, *a, **k)

    savez_compressed = savez

    def save(self, path, a):
        self.store.save(path, a)

    def load(self, path, **k):
        return self.store.load(path, **k)


def sym_extremum(xs, sign):
    """max / min as an atom keyed by the set of its arguments (contract: positive when one argument is)"""
    consts = [x for x in xs if isinstance(x, (int, float, np.number)) or (isinstance(x, Sym) and x.is_const())]
    rest = {}
    best = None
    for x in xs:
        s = Sym.lift(x)
        if s.is_const():
            v = s.const_value()
            if best is None or sign * (v - best) > 0:
                best = v
        else:
            rest[s.key()] = s
    if not rest:
        return Sym.const(best)

    def positive(s):
        return len(s.num) == 1 and not s.den and all(v > 0 for v in s.num.values()) and \
            all(core.TAB.atoms[a].positive for m in s.num for a, _ in m)
    allpos = all(positive(s) for s in rest.values())
    if sign > 0 and best is not None and best <= 0 and any(positive(s) for s in rest.values()):
        best = None
    if best is None and len(rest) == 1:
        return next(iter(rest.values()))
    key = (sign, best, tuple(sorted(rest, key=repr)))
    ss = list(rest.values())
    f = max if sign > 0 else min

    def ev(e):
        vals = [s.evalf(e) for s in ss]
        if best is not None:
            vals.append(float(best))
        return f(vals)
    pos = (sign > 0 and any(positive(s) for s in ss)) or (allpos and (best is None or best > 0))
    # max(max(a,b),c): flatten nested extrema of the same kind
    a = core.TAB.get("ext", key, positive=pos, evalf=ev)
    return Sym.atom(a)


class ScipyLinalgShim:
    def __getattr__(self, n):
        return getattr(scipy.linalg, n)

    @staticmethod
    def expm(M):
        if is_symbolic(M):
            return sym_expm(M)
        return scipy.linalg.expm(M)

    @staticmethod
    def eigh(M, **kw):
        return sym_eigh(M)


class ScipyShim:
    linalg = ScipyLinalgShim()

    def __getattr__(self, n):
        import scipy
        return getattr(scipy, n)


# ------------------------------------------------------------------------------------------------------------------
# json with tokens
# ------------------------------------------------------------------------------------------------------------------
class JsonShim:
    JSONDecodeError = _json.JSONDecodeError

    def __getattr__(self, n):
        return getattr(_json, n)

    @staticmethod
    def _default(o):
        if isinstance(o, (Sym, ZInt, ZReal)):
            if isinstance(o, Sym) and o.is_const():
                return float(o.const_value())
            return core.token_of(o, "json")
        raise TypeError("Object of type %s is not JSON serializable" % type(o).__name__)

    @classmethod
    def dumps(cls, o, **kw):
        kw.setdefault("default", cls._default)
        kw.setdefault("ensure_ascii", False)
        return _json.dumps(o, **kw)

    @classmethod
    def dump(cls, o, fp, **kw):
        fp.write(cls.dumps(o, **kw))

    @staticmethod
    def _walk(o):
        if isinstance(o, str):
            t = core.from_token(o)
            return t[0] if t is not None else o
        if isinstance(o, list):
            return [JsonShim._walk(e) for e in o]
        if isinstance(o, dict):
            return {JsonShim._walk_key(k): JsonShim._walk(v) for k, v in o.items()}
        return o

    @staticmethod
    def _walk_key(k):
        return k

    @classmethod
    def loads(cls, s, **kw):
        return cls._walk(_json.loads(s, **kw))

    @classmethod
    def load(cls, fp, **kw):
        return cls.loads(fp.read(), **kw)


# ------------------------------------------------------------------------------------------------------------------
# builtins that must know the symbolic types
# ------------------------------------------------------------------------------------------------------------------
def sh_isinstance(x, t):
    if isinstance(x, (Sym, ZReal)):
        ts = t if isinstance(t, tuple) else (t,)
        return any(y in (float, type(x)) or (isinstance(y, type) and y is object) for y in ts)
    if isinstance(x, ZInt):
        ts = t if isinstance(t, tuple) else (t,)
        return any(y in (int, sh_int, ZInt, object) for y in ts)
    ts = t if isinstance(t, tuple) else (t,)
    ts = tuple({sh_int: int, sh_float: float}.get(y, y) if not isinstance(y, tuple) else y for y in ts)
    return builtins.isinstance(x, ts)


def sh_int(x=0, *a):
    if isinstance(x, ZInt):
        return x
    if isinstance(x, ZReal):
        return x.__trunc__()
    if isinstance(x, str):
        t = core.from_token(x.strip())
        if t is not None:
            if isinstance(t[0], ZInt):
                return t[0]
            raise Unsupported("int() of a formatted real")
        if "\ue000" in x:
            raise ValueError("invalid literal for int(): %r" % x)
    if isinstance(x, Sym):
        return int(x)
    return builtins.int(x, *a)


def sh_float(x=0.0):
    if isinstance(x, (Sym, ZReal)):
        return x
    if isinstance(x, ZInt):
        return wrap_z(z3.ToReal(x.z))
    if isinstance(x, str):
        t = core.from_token(x.strip())
        if t is not None:
            return t[0]
        if "\ue000" in x:
            raise ValueError("could not convert string to float: %r" % x)
    return builtins.float(x)


@contextlib.contextmanager
def patched(changes):
    """changes: list of (object, attribute, value)"""
    missing = object()
    old = []
    try:
        for o, n, v in changes:
            old.append((o, n, o.__dict__.get(n, missing) if hasattr(o, "__dict__") else getattr(o, n, missing)))
            setattr(o, n, v)
        yield
    finally:
        for o, n, v in reversed(old):
            if v is missing:
                delattr(o, n)
            else:
                setattr(o, n, v)
