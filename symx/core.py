"""Symbolic reals as rational functions over atoms; symbolic ints/bools as z3 terms; path explorer.

Sym    : numerator (Laurent polynomial with rational exponents over atoms) over a product of polynomial factors.
Atoms  : input variables and the transcendental functions met during execution (exp of a monomial, coth, csch,
         sqrt, eigenvalues / eigenvectors of a symbolic matrix ...).  Atoms are hash-consed by their argument, which
         is sound: equal keys denote equal values.  Different keys are treated as unrelated (only over-approximates:
         a query may come back `sat` and is then replayed on the real code before anything is reported).
"""
from . import env  # noqa: F401
import math
import itertools
from fractions import Fraction as Fr

import numpy as np
import z3


class Unsupported(Exception):
    """the engine cannot follow the code here; never an alarm by itself"""


class Infeasible(BaseException):
    """steering: this path cannot be taken"""


# --------------------------------------------------------------------------------------------------------------
# numbers
# --------------------------------------------------------------------------------------------------------------
_frac_cache = {}


def to_fr(x):
    """exact rational of a literal; floats that are the nearest double of a short rational become that rational"""
    if isinstance(x, Fr):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fr(int(x))
    if isinstance(x, (int, np.integer)):
        return Fr(int(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        f = _frac_cache.get(x)
        if f is None:
            if math.isnan(x) or math.isinf(x):
                raise Unsupported("non finite constant %r" % x)
            exact = Fr(x)
            short = exact.limit_denominator(10**6)
            f = short if float(short) == x else exact
            if f is exact and x != 0.0:
                # decimal literal such as 8.6173303e-05
                dec = Fr(repr(x))
                if float(dec) == x:
                    f = dec
            _frac_cache[x] = f
        return f
    raise Unsupported("cannot convert %r to a rational" % type(x))


def is_num(x):
    return isinstance(x, (int, float, Fr, np.integer, np.floating, bool, np.bool_)) and not isinstance(x, ZInt)


# --------------------------------------------------------------------------------------------------------------
# atoms
# --------------------------------------------------------------------------------------------------------------
class Atom:
    __slots__ = ("id", "name", "kind", "positive", "key", "evalf", "axiom", "lo", "hi", "arg")


class AtomTable:
    def __init__(self):
        self.reset()

    def reset(self):
        self.atoms = []
        self.by_key = {}
        self.croot = {}     # atom id -> square, for square roots of constants

    def get(self, kind, key, name=None, positive=False, evalf=None, axiom=None, lo=None, hi=None, arg=None):
        k = (kind, key)
        a = self.by_key.get(k)
        if a is None:
            a = Atom()
            a.id = len(self.atoms)
            a.kind, a.key, a.positive = kind, key, positive
            a.name = name or "%s_%d" % (kind, a.id)
            a.evalf, a.axiom, a.lo, a.hi, a.arg = evalf, axiom, lo, hi, arg
            self.atoms.append(a)
            self.by_key[k] = a
        return a


TAB = AtomTable()


# --------------------------------------------------------------------------------------------------------------
# Laurent polynomials:  dict  monomial -> Fraction,  monomial = sorted tuple of (atom id, exponent)
# --------------------------------------------------------------------------------------------------------------
def m_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        s = d.get(a, 0) + e
        if s == 0:
            d.pop(a, None)
        else:
            d[a] = s
    return tuple(sorted(d.items()))


def m_pow(m, n):
    return tuple((a, e * n) for a, e in m)


def p_add(p, q, c=1):
    r = dict(p)
    for m, v in q.items():
        s = r.get(m, 0) + c * v
        if s == 0:
            r.pop(m, None)
        else:
            r[m] = s
    return r


def p_mul(p, q):
    if len(p) > len(q):
        p, q = q, p
    r = {}
    for m1, v1 in p.items():
        for m2, v2 in q.items():
            m = m_mul(m1, m2)
            v = v1 * v2
            if TAB.croot:
                m, v = croot_reduce(m, v)
            s = r.get(m, 0) + v
            if s == 0:
                r.pop(m, None)
            else:
                r[m] = s
    if len(r) > 200000:
        raise Unsupported("polynomial blow-up (%d terms)" % len(r))
    return r


def croot_reduce(m, v):
    for a, e in m:
        if a in TAB.croot and (e >= 2 or e < 0) and Fr(e).denominator == 1:
            k = e // 2
            v = v * TAB.croot[a] ** int(k)
            d = dict(m)
            d[a] = e - 2 * k
            if d[a] == 0:
                del d[a]
            m = tuple(sorted(d.items()))
    return m, v


def const_root(n):
    n = to_fr(n)
    a = TAB.get("sqrt", Sym.const(n).key(), name="sqrt_%s" % str(n).replace("/", "_over_"), positive=True,
                evalf=lambda e: math.sqrt(n))
    a.axiom = ("sqrt", a.id, Sym.const(n))
    TAB.croot[a.id] = n
    return Sym.atom(a)


def p_key(p):
    return tuple(sorted(p.items()))


ONE = {(): Fr(1)}


def p_content(p):
    """(coefficient, monomial) content: makes denominators / keys canonical"""
    items = sorted(p.items())
    c = items[0][1]
    common = None
    for m, _ in items:
        d = dict(m)
        if common is None:
            common = d
        else:
            new = {}
            for a in set(common) | set(d):
                e = min(common.get(a, 0), d.get(a, 0))
                if e != 0:
                    new[a] = e
            common = new
    mono = tuple(sorted(common.items()))
    return c, mono


class Sym:
    """symbolic real number"""
    __slots__ = ("num", "den")

    def __init__(self, num, den=()):
        self.num = num
        self.den = den      # tuple of (poly_key, power), sorted, every factor has content 1

    # -- construction ------------------------------------------------------------------------------------------
    @staticmethod
    def const(c):
        c = to_fr(c)
        return Sym({(): c} if c != 0 else {})

    @staticmethod
    def atom(a):
        return Sym({((a.id, 1),): Fr(1)})

    @staticmethod
    def lift(x):
        if isinstance(x, Sym):
            return x
        if isinstance(x, (ZInt, ZReal)):
            raise Unsupported("mixing z3 terms and polynomial terms")
        if isinstance(x, np.ndarray) and x.shape == ():
            return Sym.lift(x.item())
        if is_num(x):
            return Sym.const(x)
        return None

    # -- predicates --------------------------------------------------------------------------------------------
    def is_const(self):
        return not self.den and (not self.num or (len(self.num) == 1 and () in self.num))

    def const_value(self):
        return self.num.get((), Fr(0))

    def is_zero(self):
        return not self.num

    def key(self):
        return (p_key(self.num), self.den)

    def __hash__(self):
        return hash(self.key())

    # -- arithmetic --------------------------------------------------------------------------------------------
    @staticmethod
    def _den_poly(den):
        r = ONE
        for k, n in den:
            for _ in range(n):
                r = p_mul(r, dict(k))
        return r

    @staticmethod
    def _lcm(d1, d2):
        d = dict(d1)
        for k, n in d2:
            d[k] = max(d.get(k, 0), n)
        return tuple(sorted(d.items(), key=lambda kv: (len(kv[0]), kv)))

    @staticmethod
    def _cofactor(lcm, den):
        d = dict(den)
        r = ONE
        for k, n in lcm:
            for _ in range(n - d.get(k, 0)):
                r = p_mul(r, dict(k))
        return r

    def __add__(self, other):
        if isinstance(other, np.ndarray) and other.shape != ():
            return NotImplemented
        o = Sym.lift(other)
        if o is None:
            return NotImplemented
        if self.den == o.den:
            return Sym(p_add(self.num, o.num), self.den)._red()
        lcm = Sym._lcm(self.den, o.den)
        n = p_add(p_mul(self.num, Sym._cofactor(lcm, self.den)), p_mul(o.num, Sym._cofactor(lcm, o.den)))
        return Sym(n, lcm)._red()

    __radd__ = __add__

    def _red(self):
        """drop the denominator of 0, and cancel factors equal (up to content) to the numerator"""
        if not self.num:
            return Sym({}, ())
        if self.den and len(self.num) > 1:
            c, mono = p_content(self.num)
            inv = m_pow(mono, -1)
            base = {m_mul(m, inv): v / c for m, v in self.num.items()}
            k = p_key(base)
            d = dict(self.den)
            if k in d:
                d[k] -= 1
                if d[k] == 0:
                    del d[k]
                return Sym({mono: c}, tuple(sorted(d.items(), key=lambda kv: (len(kv[0]), kv))))
        return self

    def __neg__(self):
        return Sym({m: -v for m, v in self.num.items()}, self.den)

    def __pos__(self):
        return self

    def __sub__(self, other):
        if isinstance(other, np.ndarray) and other.shape != ():
            return NotImplemented
        o = Sym.lift(other)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, other):
        if isinstance(other, np.ndarray) and other.shape != ():
            return NotImplemented
        o = Sym.lift(other)
        if o is None:
            return NotImplemented
        return o + (-self)

    def __mul__(self, other):
        if isinstance(other, np.ndarray) and other.shape != ():
            return NotImplemented
        o = Sym.lift(other)
        if o is None:
            return NotImplemented
        if not self.num or not o.num:
            return Sym({})
        n = p_mul(self.num, o.num)
        if not self.den and not o.den:
            return Sym(n)
        if self.num and o.num and (self.den or o.den):
            d = dict(self.den)
            for k, m in o.den:
                d[k] = d.get(k, 0) + m
            # cancel whole numerators against denominator factors
            for poly in (self.num, o.num):
                if len(poly) > 1:
                    c, mono = p_content(poly)
                    inv = m_pow(mono, -1)
                    k = p_key({m_mul(m, inv): v / c for m, v in poly.items()})
                    if d.get(k, 0) > 0:
                        other_poly = o.num if poly is self.num else self.num
                        d[k] -= 1
                        if d[k] == 0:
                            del d[k]
                        n = p_mul({mono: c}, other_poly)
                        break
            return Sym(n, tuple(sorted(d.items(), key=lambda kv: (len(kv[0]), kv))))._red()
        return Sym(n)

    __rmul__ = __mul__

    def inv(self):
        if not self.num:
            raise ZeroDivisionError("symbolic division by zero")
        c, mono = p_content(self.num)
        inv = m_pow(mono, -1)
        inv2, ci = croot_reduce(inv, 1 / c) if TAB.croot else (inv, 1 / c)
        n = {inv2: ci}
        for k, p in self.den:
            for _ in range(p):
                n = p_mul(n, dict(k))
        if len(self.num) == 1:
            return Sym(n)
        base = {m_mul(m, inv): v / c for m, v in self.num.items()}
        return Sym(n, ((p_key(base), 1),))

    def __truediv__(self, other):
        if isinstance(other, np.ndarray) and other.shape != ():
            return NotImplemented
        o = Sym.lift(other)
        if o is None:
            return NotImplemented
        return self * o.inv()

    def __rtruediv__(self, other):
        if isinstance(other, np.ndarray) and other.shape != ():
            return NotImplemented
        o = Sym.lift(other)
        if o is None:
            return NotImplemented
        return o * self.inv()

    def __pow__(self, n):
        if isinstance(n, Sym):
            if not n.is_const():
                raise Unsupported("symbolic exponent")
            n = n.const_value()
        n = to_fr(n)
        if n.denominator == 1:
            k = int(n)
            if k < 0:
                return self.inv() ** (-k)
            r = Sym.const(1)
            for _ in range(k):
                r = r * self
            return r
        if n.denominator == 2:
            s = self.sqrt()
            return s ** n.numerator
        raise Unsupported("power %s" % n)

    def __rpow__(self, base):
        raise Unsupported("symbolic exponent")

    # -- functions (numpy calls these on object arrays) ----------------------------------------------------------
    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return Sym.const(0)

    def sqrt(self):
        if self.is_const():
            v = self.const_value()
            if v < 0:
                raise Unsupported("sqrt of a negative constant")
            r = Fr(math.isqrt(v.numerator), math.isqrt(v.denominator)) if v else Fr(0)
            if r * r == v:
                return Sym.const(r)
            return const_root(v)
        if len(self.num) == 1 and not self.den:
            (m, c), = self.num.items()
            if c > 0 and all(TAB.atoms[a].positive for a, _ in m):
                return Sym.const(c).sqrt() * Sym({tuple((a, Fr(e) / 2) for a, e in m): Fr(1)})
        return root_atom(self)

    def exp(self):
        if self.is_zero():
            return Sym.const(1)
        if self.den:
            # exp(num/den): one atom for every numerator term, same denominator
            r = Sym.const(1)
            for m, c in self.num.items():
                arg = Sym({m: Fr(1)}, self.den)
                a = TAB.get("exp", arg.key(), positive=True, evalf=lambda e, s=arg: math.exp(s.evalf(e)), arg=arg)
                r = r * Sym({((a.id, c),): Fr(1)})
            return r
        mono = {}
        for m, c in self.num.items():
            arg = Sym({m: Fr(1)})
            a = TAB.get("exp", arg.key(), positive=True, evalf=lambda e, s=arg: math.exp(s.evalf(e)), arg=arg)
            mono[a.id] = mono.get(a.id, 0) + c
        return Sym({tuple(sorted((a, e) for a, e in mono.items() if e != 0)): Fr(1)})

    def _hyper(self):
        """(coth, csch) atoms of a (positive) argument"""
        if self.is_zero():
            raise Unsupported("hyperbolic function at zero")
        k = self.key()

        def ax(aid, bid):
            return ("hyper", aid, bid)
        c = TAB.get("coth", k, positive=True, evalf=lambda e, s=self: 1.0 / math.tanh(s.evalf(e)))
        s = TAB.get("csch", k, positive=True, evalf=lambda e, s=self: 1.0 / math.sinh(s.evalf(e)))
        c.axiom = s.axiom = ("hyper", c.id, s.id)
        return Sym.atom(c), Sym.atom(s)

    def tanh(self):
        return self._hyper()[0].inv()

    def sinh(self):
        return self._hyper()[1].inv()

    def cosh(self):
        c, s = self._hyper()
        return c / s

    def log(self):
        if len(self.num) == 1 and not self.den:
            (m, c), = self.num.items()
            if c > 0 and all(TAB.atoms[a].positive for a, _ in m):
                r = Sym.const(0)
                if c != 1:
                    r = r + Sym.atom(TAB.get("log", Sym.const(c).key(), evalf=lambda e, c=c: math.log(c)))
                for a, e in m:
                    if TAB.atoms[a].kind == "exp":
                        nk, dk = TAB.atoms[a].key
                        r = r + Sym(dict(nk), dk) * e
                    else:
                        x = Sym.atom(TAB.atoms[a])
                        r = r + Sym.atom(TAB.get("log", x.key(), evalf=lambda e, s=x: math.log(s.evalf(e)))) * e
                return r
        a = TAB.get("log", self.key(), evalf=lambda e, s=self: math.log(s.evalf(e)))
        return Sym.atom(a)

    def _whole(self, kind, f):
        if self.is_const():
            return Sym.const(f(self.const_value()))
        a = TAB.get(kind, self.key(), evalf=lambda e, s=self: float(f(s.evalf(e))))
        a.axiom = (kind, a.id, self)
        return Sym.atom(a)

    def floor(self):
        return self._whole("floor", math.floor)

    def ceil(self):
        return -((-self).floor())

    def rint(self):
        return self._whole("round", round)

    __floor__, __ceil__ = floor, ceil

    def __round__(self, n=0):
        f = Fr(10) ** (n or 0)
        return (self * f).rint() / f

    def __abs__(self):
        if self.is_const():
            return Sym.const(abs(self.const_value()))
        if bool(self >= 0):
            return self
        return -self

    # -- comparisons --------------------------------------------------------------------------------------------
    def _cmp(self, other, op):
        if isinstance(other, np.ndarray) and other.shape != ():
            return NotImplemented
        if isinstance(other, float) and math.isnan(other):
            return op == "ne"
        if isinstance(other, (float, np.floating)) and math.isinf(other):
            return {"eq": False, "ne": True, "lt": other > 0, "le": other > 0,
                    "gt": other < 0, "ge": other < 0}[op]
        o = Sym.lift(other)
        if o is None:
            return NotImplemented
        d = self - o
        if d.is_const():
            v = d.const_value()
            return {"eq": v == 0, "ne": v != 0, "lt": v < 0, "le": v <= 0, "gt": v > 0, "ge": v >= 0}[op]
        # a single positive monomial has a known sign
        if len(d.num) == 1 and not d.den:
            (m, c), = d.num.items()
            if all(TAB.atoms[a].positive for a, _ in m):
                return {"eq": False, "ne": True, "lt": c < 0, "le": c < 0, "gt": c > 0, "ge": c > 0}[op]
        return SymBool(d, op)

    def __eq__(self, o):
        r = self._cmp(o, "eq")
        return False if r is NotImplemented and not isinstance(o, np.ndarray) else r

    def __ne__(self, o):
        r = self._cmp(o, "ne")
        return True if r is NotImplemented and not isinstance(o, np.ndarray) else r

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        if self.is_const():
            return float(self.const_value())
        raise Unsupported("float() of a symbolic real")

    def __int__(self):
        if self.is_const():
            return int(self.const_value())
        raise Unsupported("int() of a symbolic real")

    def __index__(self):
        raise Unsupported("symbolic real used as an index")

    def __format__(self, spec):
        if self.is_const():
            return format(float(self.const_value()), spec)
        return token_of(self, spec)

    def __str__(self):
        return self.__format__("")

    def __repr__(self):
        def mono(m):
            return "*".join(TAB.atoms[a].name + ("" if e == 1 else "^%s" % e) for a, e in m) or "1"
        s = " + ".join("%s*%s" % (v, mono(m)) for m, v in list(self.num.items())[:6])
        if len(self.num) > 6:
            s += " + ... (%d terms)" % len(self.num)
        return "Sym(%s%s)" % (s or "0", " / ..." if self.den else "")

    # -- numeric evaluation ------------------------------------------------------------------------------------
    def evalf(self, e):
        """e: dict atom id -> float (filled on demand)"""
        def poly(p):
            t = size = 0.0
            for m, v in (p.items() if isinstance(p, dict) else p):
                x, lg = float(v), 0.0
                for a, n in m:
                    arg = TAB.atoms[a].arg
                    if arg is None:
                        x *= atom_value(a, e) ** float(n)
                    else:       # the factors of a product of exponentials may leave the range of doubles
                        lg += arg.evalf(e) * float(n)
                x *= math.exp(lg)
                t += x
                size += abs(x)
            if "cancel" in e and size > 1e8 * abs(t):
                raise ValueError("doubles are not precise enough")
            return t
        r = poly(self.num)
        for k, n in self.den:
            r /= poly(k) ** n
        return r

    def atoms(self):
        s = set()
        for m in self.num:
            for a, _ in m:
                s.add(a)
        for k, _ in self.den:
            for m, _ in k:
                for a, _ in m:
                    s.add(a)
        return s


def atom_value(a, e):
    v = e.get(a)
    if v is None:
        at = TAB.atoms[a]
        if at.evalf is None:
            raise KeyError(at.name)
        v = at.evalf(e)
        e[a] = v
    return v


def root_atom(s):
    if s.is_const():
        return const_root(s.const_value())
    # pull the positive monomial content out so that sqrt(a*b) and sqrt(a)*sqrt(b) agree
    a = TAB.get("sqrt", s.key(), positive=True, evalf=lambda e, s=s: math.sqrt(s.evalf(e)))
    a.axiom = ("sqrt", a.id, s)
    return Sym.atom(a)


def square(s):
    """s*s with squares of square roots replaced by their argument"""
    s = Sym.lift(s)
    return reduce_roots(s * s)


def reduce_roots(s):
    out = Sym.const(0)
    rest = {}
    for m, c in s.num.items():
        hit = [(a, e) for a, e in m if TAB.atoms[a].kind == "sqrt" and a not in TAB.croot and Fr(e).denominator == 1 and e >= 2]
        if not hit:
            rest[m] = c
            continue
        d = dict(m)
        f = Sym.const(1)
        for a, e in hit:
            k = int(e) // 2
            d[a] -= 2 * k
            if d[a] == 0:
                del d[a]
            f = f * TAB.atoms[a].axiom[2] ** k
        out = out + Sym({tuple(sorted(d.items())): c}) * f
    r = Sym(rest) + out
    for k, n in s.den:
        for _ in range(n):
            r = r / Sym(dict(k))
    return r


# --------------------------------------------------------------------------------------------------------------
# tokens: symbolic values that pass through text
# --------------------------------------------------------------------------------------------------------------
TOKENS = {}


_TOKEN_OF = {}


def token_of(obj, spec):
    """equal values in the same format print alike"""
    k = (obj.key() if isinstance(obj, Sym) else obj.z.sexpr() if hasattr(obj, "z") else id(obj), spec)
    if k in _TOKEN_OF:
        return _TOKEN_OF[k]
    t = "\ue000%d\ue001" % len(TOKENS)
    TOKENS[t] = (obj, spec)
    _TOKEN_OF[k] = t
    return t


def from_token(t):
    return TOKENS.get(t)


# --------------------------------------------------------------------------------------------------------------
# lowering to z3
# --------------------------------------------------------------------------------------------------------------
class Lower:
    """one lowering = one query; atoms with fractional exponents get a root variable"""

    def __init__(self, polys, extra_atoms=()):
        self.scale = {}
        self.polys = polys
        seen = set(extra_atoms)
        work = []
        for p in polys:
            work += list(p.keys())
        for m in work:
            for a, e in m:
                seen.add(a)
        # close under axioms
        stack = list(seen)
        self.axioms = []
        done = set()
        while stack:
            a = stack.pop()
            ax = TAB.atoms[a].axiom
            if ax is None or ax in done:
                continue
            done.add(ax)
            self.axioms.append(ax)
            if ax[0] == "hyper":
                new = [ax[1], ax[2]]
            elif ax[0] in ("sqrt", "floor", "round"):
                new = list(ax[2].atoms())
                work += list(ax[2].num.keys())
                for k, _ in ax[2].den:
                    work += [m for m, _ in k]
            else:
                new = []
            for b in new:
                if b not in seen:
                    seen.add(b)
                    stack.append(b)
        for m in work:
            for a, e in m:
                q = Fr(e).denominator
                s = self.scale.get(a, 1)
                self.scale[a] = s * q // math.gcd(s, q)
        self.seen = seen
        self.var = {a: z3.Real("%s%s" % (TAB.atoms[a].name, "" if self.scale.get(a, 1) == 1
                                         else "__root%d" % self.scale[a])) for a in seen}

    def side(self):
        """positivity and function axioms"""
        out = []
        for a in sorted(self.seen):
            at = TAB.atoms[a]
            if at.positive:
                out.append(self.var[a] > 0)
        for ax in self.axioms:
            if ax[0] == "hyper":
                c, s = (self.pw(ax[1], 1), self.pw(ax[2], 1))
                out.append(c * c == 1 + s * s)
            elif ax[0] == "sqrt":
                r = self.pw(ax[1], 1)
                n, d = self.frac(ax[2])
                out.append(r * r * d == n)
            elif ax[0] in ("floor", "round"):
                r = self.pw(ax[1], 1)
                n, d = self.frac(ax[2])
                d = z3.simplify(d)
                x, one = (n / d - r, 1) if z3.is_rational_value(d) else ((n - r * d) * d, d * d)
                out.append(z3.IsInt(r))
                if ax[0] == "floor":
                    out += [x >= 0, x < one]
                else:
                    out += [2 * x >= -one, 2 * x <= one, z3.Implies(z3.Or(2 * x == one, 2 * x == -one), z3.IsInt(r / 2))]
        return out

    def pw(self, a, e):
        k = Fr(e) * self.scale.get(a, 1)
        assert k.denominator == 1 and k >= 0
        k = int(k)
        v = self.var[a]
        if k == 0:
            return z3.RealVal(1)
        if k == 1:
            return v
        return z3.Product(*([v] * k)) if k <= 4 else v ** k

    def poly(self, p, shift):
        """z3 term of p * prod(atom^shift)"""
        terms = []
        for m, c in p.items():
            d = dict(m)
            for a, e in shift.items():
                d[a] = d.get(a, 0) + e
            fs = [z3.RealVal("%d/%d" % (c.numerator, c.denominator))]
            for a, e in sorted(d.items()):
                if e != 0:
                    fs.append(self.pw(a, e))
            terms.append(fs[0] if len(fs) == 1 else z3.Product(*fs))
        if not terms:
            return z3.RealVal(0)
        return terms[0] if len(terms) == 1 else z3.Sum(*terms)

    @staticmethod
    def neg_shift(polys):
        sh = {}
        for p in polys:
            for m in p:
                for a, e in m:
                    if e < 0:
                        sh[a] = max(sh.get(a, 0), -e)
        return sh

    def frac(self, s):
        """(numerator, denominator) z3 terms"""
        dens = [(dict(k), n) for k, n in s.den]
        sh = self.neg_shift([s.num])
        num = self.poly(s.num, sh)
        den = self.poly({(): Fr(1)}, sh)
        for p, n in dens:
            shp = self.neg_shift([p])
            t = self.poly(p, shp)
            one = self.poly({(): Fr(1)}, shp)
            for _ in range(n):
                den = den * t
                num = num * one
        return num, den


_OPS = {"eq": lambda a: a == 0, "ne": lambda a: a != 0, "lt": lambda a: a < 0,
        "le": lambda a: a <= 0, "gt": lambda a: a > 0, "ge": lambda a: a >= 0}
_NEG = {"eq": "ne", "ne": "eq", "lt": "ge", "ge": "lt", "le": "gt", "gt": "le"}


class SymBool:
    """comparison of a symbolic real with zero, or a plain z3 Bool"""
    __slots__ = ("d", "op", "z")

    def __init__(self, d=None, op=None, z=None):
        self.d, self.op, self.z = d, op, z

    def __bool__(self):
        return CTX.decide(self)

    def neg(self):
        if self.z is not None:
            return SymBool(z=z3.Not(self.z))
        return SymBool(self.d, _NEG[self.op])

    def __and__(self, o):
        return bool(self) and bool(o)

    __rand__ = __and__

    def __or__(self, o):
        return bool(self) or bool(o)

    __ror__ = __or__

    def __invert__(self):
        return self.neg()

    def logical_not(self):
        return self.neg()

    def polys(self):
        if self.z is not None:
            return []
        return [self.d.num] + [dict(k) for k, _ in self.d.den]

    def lower(self, lw):
        if self.z is not None:
            return [self.z]
        n, d = lw.frac(self.d)
        if self.op in ("eq", "ne"):
            return [_OPS[self.op](n), d != 0] if self.d.den else [_OPS[self.op](n)]
        # sign of n/d = sign of n*d
        if not self.d.den:
            neg = [a for a, e in lw.neg_shift([self.d.num]).items() if not TAB.atoms[a].positive]
            if not neg:
                return [_OPS[self.op](n)]
        return [_OPS[self.op](n * d), d != 0]

    def holds(self, env_):
        if self.z is not None:
            raise Unsupported("numeric evaluation of a z3 condition")
        v = self.d.evalf(env_)
        return _OPS[self.op](v) if self.op != "eq" else v == 0


# --------------------------------------------------------------------------------------------------------------
# integers
# --------------------------------------------------------------------------------------------------------------
def _z(x):
    if isinstance(x, ZInt):
        return x.z
    if isinstance(x, ZReal):
        return x.z
    if isinstance(x, (bool, np.bool_)):
        return z3.IntVal(int(x))
    if isinstance(x, (int, np.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, (float, np.floating, Fr)):
        f = to_fr(x)
        return z3.RealVal("%d/%d" % (f.numerator, f.denominator))
    return None


def _real(z):
    return z3.ToReal(z) if z.sort() == z3.IntSort() else z


class _ZNum:
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z3.simplify(z) if not isinstance(z, int) else z3.IntVal(z)

    def _bin(self, o, f, swap=False):
        b = _z(o)
        if b is None:
            return NotImplemented
        a = self.z
        if a.sort() != b.sort():
            a, b = _real(a), _real(b)
        r = f(b, a) if swap else f(a, b)
        return wrap_z(r)

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, True)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __neg__(self): return wrap_z(-self.z)
    def __pos__(self): return self

    def __truediv__(self, o):
        b = _z(o)
        if b is None:
            return NotImplemented
        _nonzero(b)
        return wrap_z(_real(self.z) / _real(b))

    def __rtruediv__(self, o):
        b = _z(o)
        _nonzero(self.z)
        return wrap_z(_real(b) / _real(self.z))

    def __floordiv__(self, o):
        return _floordiv(self.z, _z(o))

    def __rfloordiv__(self, o):
        return _floordiv(_z(o), self.z)

    def __mod__(self, o):
        return _mod(self.z, _z(o))

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return _mod(_z(o), self.z)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, n):
        if isinstance(n, int) and n >= 0:
            r = wrap_z(z3.IntVal(1))
            for _ in range(n):
                r = r * self
            return r
        raise Unsupported("power of a symbolic integer")

    def __abs__(self):
        return wrap_z(z3.If(self.z >= 0, self.z, -self.z))

    def _cmp(self, o, f):
        b = _z(o)
        if b is None:
            return NotImplemented
        a = self.z
        if a.sort() != b.sort():
            a, b = _real(a), _real(b)
        r = z3.simplify(f(a, b))
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return SymBool(z=r)

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __hash__(self):
        return 0        # sets and dictionaries then decide by comparison

    def __bool__(self):
        return bool(self != 0)

    def __format__(self, spec):
        return token_of(self, spec)

    def __str__(self):
        return token_of(self, "")

    def __repr__(self):
        return "%s(%s)" % (type(self).__name__, self.z)


class ZInt(_ZNum):
    __slots__ = ()

    def __index__(self):
        v = z3.simplify(self.z)
        if z3.is_int_value(v):
            return v.as_long()
        # concretise by forking over the feasible values (bounded by the harness's assumptions)
        return CTX.enumerate_int(self)

    def __int__(self):
        return self.__index__()

    def __round__(self, n=None):
        return self

    def __float__(self):
        raise Unsupported("float() of a symbolic integer")

    def __ceil__(self): return self
    def __floor__(self): return self
    def __trunc__(self): return self


class ZReal(_ZNum):
    __slots__ = ()

    def __ceil__(self):
        return wrap_z(-z3.ToInt(-self.z))

    def __floor__(self):
        return wrap_z(z3.ToInt(self.z))

    def __trunc__(self):
        return wrap_z(z3.If(self.z >= 0, z3.ToInt(self.z), -z3.ToInt(-self.z)))

    def __round__(self, n=None):
        if n is not None:
            raise Unsupported("round to digits")
        raise Unsupported("round")

    def __float__(self):
        raise Unsupported("float() of a symbolic real")

    def ceil(self): return self.__ceil__()
    def floor(self): return self.__floor__()


def wrap_z(z):
    z = z3.simplify(z)
    return ZInt(z) if z.sort() == z3.IntSort() else ZReal(z)


def _nonzero(b):
    if z3.is_true(z3.simplify(b == 0)):
        raise ZeroDivisionError("division by zero")
    if not z3.is_false(z3.simplify(b == 0)):
        if bool(SymBool(z=(b == 0))):
            raise ZeroDivisionError("division by zero")


def _floordiv(a, b):
    _nonzero(b)
    if a.sort() == z3.IntSort() and b.sort() == z3.IntSort():
        q = a / b       # z3: Euclidean, equals floor for b > 0
        if z3.is_int_value(b) and b.as_long() > 0:
            return wrap_z(q)
        return wrap_z(z3.If(b > 0, q, (-a) / (-b)))
    return wrap_z(z3.ToInt(_real(a) / _real(b)))


def _mod(a, b):
    q = _floordiv(a, b)
    if a.sort() == z3.IntSort() and b.sort() == z3.IntSort():
        return wrap_z(a - b * q.z)
    return wrap_z(_real(a) - _real(b) * z3.ToReal(q.z))


# --------------------------------------------------------------------------------------------------------------
# path exploration by re-execution
# --------------------------------------------------------------------------------------------------------------
class Ctx:
    """one symbolic execution; decisions are replayed from a prefix"""

    def __init__(self):
        self.active = False
        self.stats = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "time": 0.0}
        self.timeout_ms = 20000
        self.max_paths = 4000
        self.expired = False
        self.memo = {}
        self.low = {}
        self.chosen = {}
        self.assumed = []

    def start(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.path = []          # list of SymBool taken
        self.assumed = []       # list of SymBool
        self.alternatives = []
        self.memo = {}
        self.low = {}
        self.active = True

    def assume(self, cond):
        if cond is True or cond is np.True_:
            return
        if cond is False:
            raise Infeasible()
        self.assumed.append(cond)

    # -- queries ----------------------------------------------------------------------------------------------
    def conds(self):
        return self.assumed + self.path

    def lowered(self, c, lw, plain):
        """the z3 terms of a condition, kept for the next query as long as no roots of atoms are involved"""
        if not plain:
            return c.lower(lw)
        k = self.low.get(id(c))
        if k is None or k[0] is not c:
            k = self.low[id(c)] = (c, c.lower(lw))
        return k[1]

    def check(self, conds, timeout_ms=None, want_model=False):
        import time
        polys = []
        for c in conds:
            polys += c.polys()
        lw = Lower(polys)
        s = z3.Solver()
        s.set("timeout", timeout_ms or self.timeout_ms)
        for x in lw.side():
            s.add(x)
        plain = all(v == 1 for v in lw.scale.values())
        for c in conds:
            for x in self.lowered(c, lw, plain):
                s.add(x)
        t = time.time()
        r = s.check()
        self.stats["time"] += time.time() - t
        self.stats["queries"] += 1
        self.stats[str(r)] += 1
        m = None
        if r == z3.sat and want_model:
            m = (lw, s.model())
        return str(r), m

    def decide(self, cond):
        if not self.active:
            raise Unsupported("branch on a symbolic condition outside an execution")
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.path.append(cond if v else cond.neg())
            return v
        neg = cond.neg()
        r1, _ = self.check(self.conds() + [cond], 5000)
        r2, _ = self.check(self.conds() + [neg], 5000)
        self.pos += 1
        if r1 == "unsat" and r2 == "unsat":
            raise Infeasible()
        if r1 == "unsat":
            v = False
        elif r2 == "unsat":
            v = True
        else:
            v = True
            self.alternatives.append(self.prefix[:self.pos - 1] + [False])
        self.prefix = self.prefix[:self.pos - 1] + [v]
        self.path.append(cond if v else neg)
        return v

    def enumerate_int(self, zi):
        """fork over the feasible values of a symbolic integer"""
        for _ in range(64):
            # executions with the same decisions so far are the same: the value found then is kept
            key = tuple(self.prefix[:self.pos])
            v = self.chosen.get(key)
            if v is None:
                r, m = self.check(self.conds(), want_model=True)
                if r != "sat":
                    if r == "unsat":
                        raise Infeasible()
                    raise Unsupported("cannot concretise")
                # the smallest feasible value
                v = m[1].eval(zi.z, model_completion=True).as_long()
                while True:
                    r, m2 = self.check(self.conds() + [SymBool(z=zi.z < v)], want_model=True)
                    if r != "sat":
                        break
                    v2 = m2[1].eval(zi.z, model_completion=True).as_long()
                    if v2 >= v:
                        break
                    v = v2
                self.chosen[key] = v
            if bool(SymBool(z=(zi.z == v))):
                return v
        raise Unsupported("too many values for a symbolic integer")


CTX = Ctx()


def explore(body, on_path, max_paths=None):
    """run body() over every feasible path; on_path(ctx, result, exception)"""
    stack = [[]]
    CTX.chosen = {}
    n = 0
    limit = max_paths or CTX.max_paths
    truncated = False
    while stack:
        if n >= limit:
            truncated = True
            break
        prefix = stack.pop()
        CTX.start(prefix)
        exc = None
        res = None
        try:
            res = body()
        except Infeasible:
            stack += CTX.alternatives
            CTX.active = False
            continue
        except Exception as e:      # noqa
            exc = e
        stack += CTX.alternatives
        n += 1
        if CTX.expired:
            raise Unsupported("time limit")
        stop = on_path(CTX, res, exc)
        CTX.active = False
        if stop:
            break
    return n, truncated
