"""Harness context (one body, two modes) and the driver that turns harnesses into a verdict."""
from .core import *  # noqa
from . import core, shim
from .shim import patched, SymComb, comb, is_symbolic
import builtins
import contextlib
import hashlib
import io
import json
import math
import os
import random
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import types

import numpy as np
import z3

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable


class Assumption(Exception):
    """concrete input outside the harness's assumptions"""


class H:
    """what a harness body sees"""

    def __init__(self, harness, mode, inputs=None, seed=1, scratch=None):
        self.h = harness
        self.sym = mode == "sym"
        self.inputs = dict(inputs or {})
        self.used = {}
        self.rng = random.Random(seed)
        self.scratch = scratch
        self.obl = []           # (label, obs, exp) or (label, cond)
        self.specs = {}
        self.notes = {}
        self.ratios = {}
        self.p = harness.params
        self.store = shim.NpzStore()

    # -- inputs -----------------------------------------------------------------------------------------------------
    def real(self, name, lo=-2.0, hi=2.0, pos=False):
        if pos and lo <= 0:
            lo = 0.1
        self.specs[name] = ("real", lo, hi)
        if self.sym:
            a = core.TAB.get("var", name, name=name, positive=pos, lo=lo, hi=hi)
            return Sym.atom(a)
        if name not in self.inputs:
            self.inputs[name] = self.rng.uniform(lo, hi)
        self.used[name] = self.inputs[name]
        return float(self.inputs[name])

    def int(self, name, lo, hi):
        self.specs[name] = ("int", lo, hi)
        if self.sym:
            v = ZInt(z3.Int(name))
            CTX.assume(v >= lo)
            CTX.assume(v <= hi)
            return v
        if name not in self.inputs:
            self.inputs[name] = self.rng.randint(lo, min(hi, lo + 10**6))
        self.used[name] = self.inputs[name]
        return int(self.inputs[name])

    def zreal(self, name, lo=None, hi=None):
        self.specs[name] = ("zreal", lo, hi)
        if self.sym:
            v = core.ZReal(z3.Real(name))
            if lo is not None:
                CTX.assume(v >= lo)
            if hi is not None:
                CTX.assume(v <= hi)
            return v
        if name not in self.inputs:
            self.inputs[name] = self.rng.uniform(lo or 0.0, hi if hi is not None else 10.0)
        self.used[name] = self.inputs[name]
        return float(self.inputs[name])

    def bool(self, name):
        self.specs[name] = ("bool", 0, 1)
        if self.sym:
            return SymBool(z=z3.Bool(name))
        if name not in self.inputs:
            self.inputs[name] = self.rng.random() < 0.5
        self.used[name] = self.inputs[name]
        return bool(self.inputs[name])

    def char(self, name, alphabet):
        """one symbolic character of a finite alphabet (see symx.strings)"""
        self.specs[name] = ("char", 0, alphabet)
        if self.sym:
            from . import strings
            c = strings.char_var(name, alphabet)
            return c
        if name not in self.inputs:
            self.inputs[name] = self.rng.randrange(len(alphabet))
        self.used[name] = self.inputs[name]
        return alphabet[int(self.inputs[name])]

    def array(self, name, shape, lo=-2.0, hi=2.0, pos=False):
        a = np.empty(shape, dtype=object if self.sym else float)
        for i in np.ndindex(*a.shape):
            a[i] = self.real(name + "_" + "_".join(map(str, i)), lo, hi, pos)
        return a

    def assume(self, cond):
        if self.sym:
            if isinstance(cond, (bool, np.bool_)):
                if not cond:
                    raise Infeasible()
                return
            CTX.assume(cond)
        elif not cond:
            raise Assumption()

    # -- assertions --------------------------------------------------------------------------------------------------
    def eq(self, label, obs, exp, tol=None, scale=0.0):
        """obs == exp elementwise; scale: size of the terms the value is made of, for the rounding of concrete runs"""
        if scale:
            tol = (self.h.tol if tol is None else tol, float(scale))
        so, se = np.shape(obs), np.shape(exp)
        if so != se:
            self.obl.append((label + " (shape)", False))
            self.notes[label] = "shape %s, expected %s" % (so, se)
            return
        if so == ():
            self.obl.append((label, _scalar(obs), _scalar(exp), tol))
        else:
            o, e = np.asarray(obs, dtype=object), np.asarray(exp, dtype=object)
            for i in np.ndindex(*so):
                self.obl.append(("%s%s" % (label, list(i)), _scalar(o[i]), _scalar(e[i]), tol))

    def eq_ratio(self, label, n1, d1, n2, d2, tol=None):
        """n1/d1 == n2/d2"""
        if self.sym:
            self.obl.append((label, n1 * d2, n2 * d1, tol))
            self.ratios[label] = (n1, d1)
        else:
            self.eq(label, n1 / d1, n2 / d2, tol)

    def eq_root(self, label, obs, square, tol=None, scale=0.0):
        """obs == sqrt(square), obs being a product of square roots"""
        if self.sym:
            self.obl.append((label, core.square(obs), Sym.lift(square), tol))
            self.obl.append((label + " sign", Sym.lift(obs) >= 0))
            self.ratios[label] = None
        else:
            self.eq(label, obs, math.sqrt(max(float(square), 0.0)), tol, scale)

    def true(self, label, cond):
        self.obl.append((label, cond))

    def fail(self, label, note=""):
        self.obl.append((label, False))
        self.notes[label] = note

    @contextlib.contextmanager
    def no_exception(self, label):
        """an exception of the code under test here breaks the property"""
        try:
            yield
        except (Unsupported, Assumption):
            raise
        except (Exception, SystemExit) as e:    # noqa
            if (self.sym and _engine_error(e)) or harness_error(e):
                raise
            self.fail(label, "%s: %s" % (type(e).__name__, e))
            raise Stop() from e

    # -- maths usable in both modes -------------------------------------------------------------------------------------
    def exp(self, x):
        return x.exp() if isinstance(x, Sym) else math.exp(x)

    def log(self, x):
        return x.log() if isinstance(x, Sym) else math.log(x)

    def sqrt(self, x):
        return Sym.lift(x).sqrt() if self.sym else math.sqrt(x)

    def coth(self, x):
        return x._hyper()[0] if isinstance(x, Sym) else 1.0 / math.tanh(x)

    def csch(self, x):
        return x._hyper()[1] if isinstance(x, Sym) else 1.0 / math.sinh(x)

    def expm(self, M, c=1):
        """exp(c*M) of a symmetric matrix"""
        if self.sym:
            return shim.sym_expm(shim.obj(M), c)
        import scipy.linalg
        return scipy.linalg.expm(c * np.array(M, dtype=float))

    def zeros(self, shape):
        if self.sym:
            a = np.empty(shape, dtype=object)
            a.fill(Sym.const(0))
            return a
        return np.zeros(shape)

    def path(self, *names):
        p = os.path.join(self.scratch, *names)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def jsonable(self, x):
        """nested lists of an array, symbolic entries as tokens"""
        if isinstance(x, np.ndarray):
            return [self.jsonable(e) for e in x] if x.ndim else self.jsonable(x.item())
        if isinstance(x, (list, tuple)):
            return [self.jsonable(e) for e in x]
        if isinstance(x, Sym):
            return float(x.const_value()) if x.is_const() else core.token_of(x, "json")
        if isinstance(x, (np.floating,)):
            return float(x)
        if isinstance(x, (np.integer,)):
            return int(x)
        return x


class Stop(Exception):
    """body ends early, obligations so far count"""


def _engine_error(e):
    """errors that come from symbolic values meeting C code rather than from the program"""
    s = str(e)
    return isinstance(e, Unsupported) or harness_error(e) or CTX.expired or "Sym" in s or "ZInt" in s or "ZReal" in s or "SymBool" in s \
        or "symbolic" in s or "\ue000" in s or "_Count" in s or "loop of ufunc does not support" in s \
        or "'object'" in s or "dtype('O')" in s


def harness_error(e):
    """the harness itself asked for a name or a signature the module no longer has"""
    if not isinstance(e, (AttributeError, TypeError)):
        return False
    tb = e.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    if tb is None or not os.path.abspath(tb.tb_frame.f_code.co_filename).startswith((os.path.join(VERIF, "checks"), os.path.join(VERIF, "symx"))):
        return False
    if isinstance(e, AttributeError):
        o = getattr(e, "obj", None)
        return isinstance(o, types.ModuleType) or (isinstance(o, type) and o.__module__.startswith("pibronic"))
    return re.search(r"\(\) (takes |missing |got an unexpected keyword|got multiple values)", str(e)) is not None


def _scalar(x):
    if isinstance(x, np.ndarray) and x.shape == ():
        return x.item()
    return x


class Harness:
    def __init__(self, name, body, patches=None, params=None, bounds=None, tier="quick", tol=1e-7, points=3,
                 stubs=(), max_paths=None, seconds=240):
        self.name = name
        self.body = body
        self.patches = patches or (lambda h: [])
        self.params = params or {}
        self.bounds = bounds or {}
        self.tier = tier
        self.tol = tol
        self.points = points
        self.stubs = list(stubs)
        self.max_paths = max_paths
        self.seconds = seconds


# ----------------------------------------------------------------------------------------------------------------------
# concrete mode
# ----------------------------------------------------------------------------------------------------------------------
def run_concrete(harness, inputs, seed):
    """returns dict(ok, failures, observed)"""
    scratch = tempfile.mkdtemp(prefix="symx_")
    h = H(harness, "conc", inputs, seed, scratch)
    cwd = os.getcwd()
    fails = []
    out = io.StringIO()
    skipped = False
    try:
        with contextlib.redirect_stdout(out):
            harness.body(h)
    except Stop:
        pass
    except Assumption:
        skipped = True
    except Unsupported as e:
        skipped = True
    except (Exception, SystemExit) as e:  # noqa
        skipped = harness_error(e)
        fails.append({"label": "no exception", "note": "%s: %s" % (type(e).__name__, e),
                      "trace": traceback.format_exc()[-1500:]})
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    observed = {}
    if not skipped:
        for o in h.obl:
            if len(o) == 2:
                try:
                    ok = builtins.bool(o[1])
                except Exception as e:  # noqa
                    ok = False
                observed[o[0]] = ok
                if not ok:
                    fails.append({"label": o[0], "note": h.notes.get(o[0], h.notes.get(o[0].replace(" (shape)", ""), ""))})
            else:
                label, obs, exp, tol = o
                ok, obs_r, exp_r = close(obs, exp, tol if tol is not None else harness.tol)
                observed[label] = obs_r
                if not ok:
                    fails.append({"label": label, "observed": repr(obs_r), "expected": repr(exp_r)})
    return {"ok": not fails, "skipped": skipped, "failures": fails[:8], "observed": observed, "inputs": h.used,
            "n": len(h.obl)}


def close(obs, exp, tol):
    tol, scale = tol if isinstance(tol, tuple) else (tol, 0.0)
    try:
        if isinstance(exp, (str, bytes, bool, type(None), tuple)) or isinstance(obs, (str, bytes, type(None))):
            return obs == exp, obs, exp
        o, e = float(obs), float(exp)
    except (TypeError, ValueError):
        return obs == exp, repr(obs), repr(exp)
    if math.isnan(o) or math.isnan(e):
        return math.isnan(o) and math.isnan(e), o, e
    if o == e:
        return True, o, e
    return abs(o - e) <= tol * max(abs(o), abs(e), scale, 1e-290) + 1e-12 * min(1.0, 1.0 if max(abs(o), abs(e)) > 1e-6 else 0.0), o, e


# ----------------------------------------------------------------------------------------------------------------------
# symbolic mode
# ----------------------------------------------------------------------------------------------------------------------
class Alarm(Exception):
    pass


@contextlib.contextmanager
def time_limit(sec):
    CTX.expired = False

    def onalarm(*a):
        CTX.expired = True
        raise Unsupported("time limit of %d s" % sec)
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, sec)
    try:
        yield
    finally:
        CTX.expired = False
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def abstract_exp(s):
    """name every distinct product of exponentials by one positive variable (products are already in normal form)"""
    num = {}
    for m, c in s.num.items():
        ex = tuple((a, e) for a, e in m if core.TAB.atoms[a].kind == "exp")
        if ex:
            x = core.TAB.get("expprod", ex, positive=True)
            m = core.m_mul(tuple((a, e) for a, e in m if core.TAB.atoms[a].kind != "exp"), ((x.id, 1),))
        num[m] = num.get(m, 0) + c
    return Sym(num)


class EqCond:
    """obs != exp, kept as two separate terms so that the solver does the comparison"""

    def __init__(self, a, b):
        if not a.den and not b.den:
            a, b = abstract_exp(a), abstract_exp(b)
        self.a, self.b = a, b

    def polys(self):
        r = []
        for s in (self.a, self.b):
            r += [s.num] + [dict(k) for k, _ in s.den]
        return r

    def lower(self, lw):
        n1, d1 = lw.frac(self.a)
        n2, d2 = lw.frac(self.b)
        out = [n1 * d2 != n2 * d1]
        for s, d in ((self.a, d1), (self.b, d2)):
            if s.den:
                out.append(d != 0)
        return out


def neg_obligation(o):
    """None when trivially true, a condition whose satisfiability refutes the obligation, or True (always violated)"""
    if len(o) == 2:
        c = o[1]
        if isinstance(c, (builtins.bool, np.bool_)):
            return None if c else True
        if hasattr(c, "neg"):
            return c.neg()
        if isinstance(c, z3.BoolRef):
            return SymBool(z=z3.Not(c))
        raise Unsupported("assertion of type %s" % type(c))
    _, a, b, _ = o
    if isinstance(a, Sym) or isinstance(b, Sym):
        if isinstance(a, float) and a != a or isinstance(b, float) and b != b:
            return True
        if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
            return True
        return EqCond(Sym.lift(a), Sym.lift(b))
    r = (a != b)
    if isinstance(r, (builtins.bool, np.bool_)):
        if r and isinstance(a, float) and isinstance(b, float) and a != a and b != b:
            return None
        return True if r else None
    return r


class Result:
    def __init__(self, harness):
        self.h = harness
        self.paths = 0
        self.obligations = 0
        self.discharged = 0
        self.trivial = 0
        self.reached = 0
        self.candidates = []      # inputs dicts
        self.inconclusive = []
        self.truncated = False
        self.functions = set()
        self.sample = None
        self.specs = {}
        self.validated = 0
        self.evals = None


def _model_inputs(h, lw, model):
    """concrete inputs from a z3 model"""
    out = {}
    names = {core.TAB.atoms[a].key: a for a in lw.seen if core.TAB.atoms[a].kind == "var"}
    for n, spec in h.specs.items():
        kind = spec[0]
        if kind == "real":
            if n in names:
                a = names[n]
                v = model.eval(lw.var[a], model_completion=True)
                x = _num(v) ** lw.scale.get(a, 1)
                out[n] = x
        elif kind == "int" or kind == "char":
            v = model.eval(z3.Int(n), model_completion=True)
            out[n] = v.as_long()
        elif kind == "zreal":
            out[n] = _num(model.eval(z3.Real(n), model_completion=True))
        elif kind == "bool":
            out[n] = z3.is_true(model.eval(z3.Bool(n), model_completion=True))
    return out


def _num(v):
    if z3.is_algebraic_value(v):
        v = v.approx(20)
    if z3.is_rational_value(v) or z3.is_int_value(v):
        return float(v.as_fraction()) if z3.is_rational_value(v) else float(v.as_long())
    return 1.0


def _box(h):
    out = []
    for n, spec in h.specs.items():
        if spec[0] == "real":
            a = core.TAB.by_key.get(("var", n))
            if a is None:
                continue
            x = Sym.atom(a)
            for c in (x >= spec[1], x <= spec[2]):
                if not isinstance(c, builtins.bool):
                    out.append(c)
    return out


def run_symbolic(harness, seed, log):
    res = Result(harness)
    core.TAB.reset()
    core.TOKENS.clear()
    core._TOKEN_OF.clear()
    scratch_root = tempfile.mkdtemp(prefix="symx_")
    repo = core.env.REPO if hasattr(core, "env") else "/repo"
    holder = {}

    def prof(frame, event, arg):
        if event == "call":
            co = frame.f_code
            if co.co_filename.startswith(repo + os.sep):
                res.functions.add(os.path.relpath(co.co_filename, repo) + ":" + co.co_qualname)

    n_path = [0]
    cwd = os.getcwd()

    def body():
        n_path[0] += 1
        sc = os.path.join(scratch_root, "p%d" % n_path[0])
        os.makedirs(sc)
        h = H(harness, "sym", None, seed, sc)
        holder["h"] = h
        out = io.StringIO()
        try:
            with patched(harness.patches(h)), contextlib.redirect_stdout(out):
                sys.setprofile(prof)
                try:
                    harness.body(h)
                finally:
                    sys.setprofile(None)
        except Stop:
            pass
        finally:
            os.chdir(cwd)
            shutil.rmtree(sc, ignore_errors=True)
        return h

    def on_path(ctx, r, exc):
        h = holder["h"]
        res.paths += 1
        res.specs.update(h.specs)
        conds = ctx.conds()
        if exc is not None:
            if isinstance(exc, z3.Z3Exception) or _engine_error(exc):
                res.inconclusive.append("%s: path not followed (%s: %s)" % (harness.name, type(exc).__name__, exc))
                if os.environ.get("SYMX_DEBUG"):
                    traceback.print_exception(exc)
                st, m = ctx.check(conds + _box(h), want_model=True)
                if st == "sat":
                    res.candidates.append(_model_inputs(h, *m))
                return False
            # an exception of the code itself: a candidate violation
            st, m = ctx.check(conds + _box(h), want_model=True)
            if os.environ.get("SYMX_DEBUG"):
                traceback.print_exception(exc)
            if st == "unsat":
                st, m = ctx.check(conds, want_model=True)
            if st == "sat":
                res.candidates.append(_model_inputs(h, *m))
                res.inconclusive.append("%s: exception %s: %s" % (harness.name, type(exc).__name__, exc))
            elif st == "unknown":
                res.inconclusive.append("%s: exception on a path of unknown feasibility" % harness.name)
            return False
        # reachability twin
        st, m = ctx.check(conds + _box(h), want_model=True)
        if st != "sat":
            st, m = ctx.check(conds, want_model=True)
        if st == "unsat":
            return False
        if st == "sat":
            res.reached += 1
            if res.sample is None:
                res.sample = _model_inputs(h, *m)
        if res.evals is None and not ctx.path:
            res.evals = [(o[0], h.ratios.get(o[0], o[1])) for o in h.obl if len(o) == 4]
        for o in h.obl:
            res.obligations += 1
            try:
                c = neg_obligation(o)
            except Unsupported as e:
                res.inconclusive.append("%s: %s: %s" % (harness.name, o[0], e))
                continue
            if c is None:
                res.discharged += 1
                res.trivial += 1
                continue
            extra = [] if c is True else [c]
            st, m = ctx.check(conds + extra) if c is not True else ("sat", None)
            if st == "unsat":
                res.discharged += 1
                continue
            if st == "unknown":
                res.inconclusive.append("%s: %s: solver answered unknown" % (harness.name, o[0]))
            if len(res.candidates) < 6:
                st2, m2 = ctx.check(conds + extra + _box(h), want_model=True)
                if st2 != "sat" and st == "sat":
                    st2, m2 = ctx.check(conds + extra, want_model=True)
                if st2 == "sat":
                    res.candidates.append(_model_inputs(h, *m2))
            if st == "sat":
                res.inconclusive.append("%s: %s: counterexample to replay%s" % (
                    harness.name, o[0], (" (" + h.notes[o[0]] + ")") if o[0] in h.notes else ""))
        return len(res.candidates) >= 12

    try:
        with time_limit(harness.seconds):
            res.paths_n, res.truncated = explore(body, on_path, harness.max_paths)
    except Unsupported as e:
        res.inconclusive.append("%s: %s" % (harness.name, e))
    finally:
        CTX.active = False
        sys.setprofile(None)
        os.chdir(cwd)
        shutil.rmtree(scratch_root, ignore_errors=True)
    if res.truncated:
        res.inconclusive.append("%s: path limit reached" % harness.name)
    return res


# ----------------------------------------------------------------------------------------------------------------------
# driver
# ----------------------------------------------------------------------------------------------------------------------
def load_check(modname):
    sys.path.insert(0, VERIF)
    return __import__("checks." + modname, fromlist=["HARNESSES"])


def replay_batch(modname, cases, seed, timeout=300):
    """cases: list of (harness name, inputs).  Runs the unpatched code in a fresh interpreter."""
    d = tempfile.mkdtemp(prefix="symx_rb_")
    try:
        f = os.path.join(d, "cases.json")
        o = os.path.join(d, "out.json")
        with open(f, "w") as fp:
            json.dump({"module": modname, "seed": seed, "cases": cases}, fp)
        e = dict(os.environ)
        e["TMPDIR"] = d
        try:
            p = subprocess.run([PY, "-m", "symx.replay", "--batch", f, o], cwd=VERIF, env=e, timeout=timeout,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        except subprocess.TimeoutExpired:
            return None, "replay timed out"
        if not os.path.exists(o):
            return None, p.stderr[-2000:]
        with open(o) as fp:
            return json.load(fp), ""
    finally:
        shutil.rmtree(d, ignore_errors=True)


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def matches_known(known, pid, harness, failure):
    for k in known:
        if k.get("property") == pid and k.get("harness") == harness and failure["label"].startswith(k.get("label", "\0")):
            if k.get("note") is None or k["note"] in (failure.get("note") or ""):
                return k
    return None


def run_one(modname, pid, h, seed, known):
    """everything about one harness: symbolic exploration, replays on the real code, cross checks.  A plain dictionary."""
    th = time.time()
    res = run_symbolic(h, seed, None)
    r = {"name": h.name, "replays": 0, "cross": 0, "mismatches": [], "violations": [], "known": []}
    cases = []
    for i, c in enumerate(res.candidates[:12]):
        cases.append((h.name, c, seed + i, "solver"))
    for k in range(h.points + (4 if res.inconclusive else 0)):
        cases.append((h.name, {}, seed * 1000 + k, "sampled"))
    if res.sample:
        cases.append((h.name, res.sample, seed, "witness"))
    outs, err = replay_batch(modname, cases, seed)
    if outs is None:
        res.inconclusive.append("%s: replay failed: %s" % (h.name, err))
        outs = []
    for case, out in zip(cases, outs):
        r["replays"] += 1
        if out["skipped"]:
            continue
        if out["ok"]:
            # translator cross-check: the symbolic result evaluated at this point equals the real one
            if res.evals is not None and case[3] in ("sampled", "witness"):
                ok, why = cross_check(res, out)
                r["cross"] += ok
                if why:
                    r["mismatches"].append("%s: %s" % (h.name, why))
            continue
        new = []
        for f in out["failures"]:
            k = matches_known(known, pid, h.name, f)
            if k is None:
                new.append(f)
            elif k["id"] not in r["known"]:
                r["known"].append(k["id"])
        if new:
            path = os.path.join(VERIF, "evidence", "replay_%s_%s.json" % (pid, h.name))
            with open(path, "w") as fp:
                json.dump({"module": modname, "harness": h.name, "seed": case[2], "inputs": out["inputs"],
                           "failures": new, "source": case[3]}, fp, indent=1)
            r["violations"].append((path, h.name, new, case[3]))
            break
    r.update(paths=res.paths, obligations=res.obligations, discharged=res.discharged, reached=res.reached,
             inconclusive=res.inconclusive, functions=sorted(res.functions), sample=res.sample, stats=dict(CTX.stats),
             wall=time.time() - th, cases=len(cases))
    return r


def child(modname, pid, h, seed, known, out, memory):
    """body of a forked process; never returns"""
    code = 0
    try:
        os.setpgid(0, 0)
        resource.setrlimit(resource.RLIMIT_AS, (memory, memory))
        r = run_one(modname, pid, h, seed, known)
        with open(out + ".tmp", "w") as f:
            json.dump(r, f, default=str)
        os.rename(out + ".tmp", out)
    except BaseException:   # noqa
        code = 3
        try:
            with open(out + ".err", "w") as f:
                f.write(traceback.format_exc()[-3000:])
        except BaseException:   # noqa
            pass
    finally:
        sys.stdout.flush()
        os._exit(code)


def lost(h, why):
    return {"name": h.name, "replays": 0, "cross": 0, "mismatches": [], "violations": [], "known": [], "paths": 0, "obligations": 0,
            "discharged": 0, "reached": 0, "inconclusive": ["%s: %s" % (h.name, why)], "functions": [], "sample": None,
            "stats": {}, "wall": 0.0, "cases": 0}


def run_all(modname, pid, hs, seed, known, tier):
    """one forked process per harness, a few at a time, within an overall time budget"""
    cpus = len(os.sched_getaffinity(0))
    jobs = int(os.environ.get("SYMX_JOBS", str(min(8, cpus))))
    budget = 480.0 if tier == "quick" else 6 * 3600.0       # for the exploration
    hard = budget + (220.0 if tier == "quick" else 1800.0)  # replays of the last ones included
    memory = (6 if tier == "quick" else 16) << 30
    t0 = time.time()
    d = tempfile.mkdtemp(prefix="symx_run_")
    results, running, todo = {}, {}, list(range(len(hs)))
    try:
        while todo or running:
            while todo and len(running) < jobs:
                i = todo.pop(0)
                h = hs[i]
                rest = budget - (time.time() - t0)
                waves = 1 + len(todo) // jobs
                h.seconds = max(10, min(h.seconds, rest / (1 if waves == 1 else 2)))
                out = os.path.join(d, "%d.json" % i)
                sys.stdout.flush()
                sys.stderr.flush()
                pid_ = os.fork()
                if pid_ == 0:
                    child(modname, pid, h, seed, known, out, memory)
                running[pid_] = (i, out)
            done, status = os.waitpid(-1, os.WNOHANG)
            if done in running:
                i, out = running.pop(done)
                try:
                    with open(out) as f:
                        results[i] = json.load(f)
                except (OSError, ValueError):
                    why = "the process ended with status %d" % status
                    if os.path.exists(out + ".err"):
                        with open(out + ".err") as f:
                            why += ": " + f.read()[-300:]
                    results[i] = lost(hs[i], why)
                show(results[i])
                continue
            if time.time() - t0 > hard:
                for p in running:
                    for kill in (os.killpg, os.kill):
                        try:
                            kill(p, signal.SIGKILL)
                        except OSError:
                            pass
                for p, (i, out) in list(running.items()):
                    os.waitpid(p, 0)
                    results[i] = lost(hs[i], "overall time limit")
                    show(results[i])
                running.clear()
                for i in todo:
                    results[i] = lost(hs[i], "overall time limit")
                todo = []
                break
            time.sleep(0.05)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return [results[i] for i in range(len(hs))]


def show(r):
    print("%-44s paths %3d  obligations %4d  discharged %4d  inconclusive %2d  replays %2d  %.1fs" % (
        r["name"], r["paths"], r["obligations"], r["discharged"], len(r["inconclusive"]), r["cases"], r["wall"]), flush=True)
    for s in r["inconclusive"][:5]:
        print("   note:", s)


def main(modname, argv=None):
    t0 = time.time()
    mod = load_check(modname)
    pid = mod.PROPERTY
    tier = os.environ.get("VERIF_TIER", "quick")
    if argv and "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    only = argv[argv.index("--only") + 1] if argv and "--only" in argv else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if tier == "thorough":
        CTX.timeout_ms = 120000
    hs = [h for h in mod.harnesses(tier) if tier == "thorough" or h.tier == "quick"]
    if tier == "thorough":
        for h in hs:
            h.seconds = max(h.seconds, 3600)
    if only:
        hs = [h for h in hs if only in h.name]
    known = load_known()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    results = run_all(modname, pid, hs, seed, known, tier)
    violations = [tuple(v) for r in results for v in r["violations"]]
    mism = [m for r in results for m in r["mismatches"]]
    known_hit = {k["id"]: k for k in known for r in results if k["id"] in r["known"]}
    wall = time.time() - t0
    for m in mism[:5]:
        print("   encoding mismatch:", m)
    write_evidence(pid, mod, tier, seed, hs, results, violations, mism, wall, known_hit)
    for k in known_hit.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if violations:
        for path, hn, new, src in violations:
            print("  harness %s (%s): %s" % (hn, src, "; ".join(_fmt(f) for f in new[:3])))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0


def _fmt(f):
    if "observed" in f:
        return "%s: observed %s, expected %s" % (f["label"], f["observed"], f["expected"])
    return "%s: %s" % (f["label"], f.get("note", ""))


def cross_check(res, out):
    e = {"cancel": True}
    for n, v in out["inputs"].items():
        a = core.TAB.by_key.get(("var", n))
        if a is not None:
            e[a.id] = v
    n = 0
    try:
        for label, obs in res.evals:
            if label not in out["observed"]:
                continue
            if obs is None:
                continue
            if isinstance(obs, tuple):
                v = Sym.lift(obs[0]).evalf(e) / Sym.lift(obs[1]).evalf(e)
            elif isinstance(obs, Sym):
                v = obs.evalf(e)
            else:
                continue
            w = out["observed"][label]
            if not isinstance(w, float):
                continue
            if abs(v - w) > 1e-5 * max(abs(v), abs(w), 1e-8):
                return 0, "%s: symbolic %r, real %r" % (label, v, w)
            n += 1
    except (KeyError, OverflowError, ZeroDivisionError, ValueError):
        return 0, None
    return (1 if n else 0), None


def write_evidence(pid, mod, tier, seed, hs, results, violations, mism, wall, known_hit):
    fn = sorted(set().union(*[r["functions"] for r in results]) if results else [])
    st = {k: sum(r["stats"].get(k, 0) for r in results) for k in ("queries", "unsat", "sat", "unknown", "time")}
    cov = {
        "explanation": mod.EXPLANATION,
        "functions_encoded": fn,
        "harnesses": [{"name": h.name, "bounds": h.bounds, "stubs": h.stubs, "paths": r["paths"],
                       "paths_reached_with_witness": r["reached"], "obligations": r["obligations"],
                       "discharged": r["discharged"], "inconclusive": r["inconclusive"][:10], "wall_s": round(r["wall"], 1),
                       "witness_input": {k: v for k, v in list((r["sample"] or {}).items())[:8]}} for h, r in zip(hs, results)],
        "obligations": sum(r["obligations"] for r in results),
        "discharged": sum(r["discharged"] for r in results),
        "solver_queries": st["queries"], "unsat": st["unsat"], "sat": st["sat"], "unknown": st["unknown"],
        "solver_time_s": round(st["time"], 3), "solver": "z3 " + z3.get_version_string(),
        "replays_on_real_code": sum(r["replays"] for r in results),
        "encoding_cross_checks_agreeing": sum(r["cross"] for r in results),
        "encoding_mismatches": mism[:5],
        "known_findings_seen": sorted(known_hit),
        "outside_the_claim": mod.OUTSIDE,
    }
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "other",
          "coverage": cov, "assumptions": mod.ASSUMPTIONS, "wall_s": round(wall, 2), "violations": len(violations)}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
