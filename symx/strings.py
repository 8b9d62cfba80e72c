"""Strings some of whose characters are symbolic.  A string is a list of cells: a plain character, or a Ch (one character of a
finite alphabet, chosen by a z3 integer).  Operations decide the comparisons they need by forking, so positions are concrete."""
from . import core
from .core import CTX, SymBool, Unsupported, ZInt, ZReal, wrap_z
import builtins
import re as _re
import z3


class Ch:
    __slots__ = ("i", "alphabet")

    def __init__(self, i, alphabet):
        self.i, self.alphabet = i, alphabet

    def eq(self, o):
        """z3 condition or bool"""
        k = CTX.memo.get(self.i)
        if k is not None:
            return k == o if isinstance(o, str) else o.eq(k)
        if isinstance(o, Ch):
            if o.i is self.i or o.i.eq(self.i):
                return True
            parts = []
            for n, a in enumerate(self.alphabet):
                for m, b in enumerate(o.alphabet):
                    if a == b:
                        parts.append(z3.And(self.i == n, o.i == m))
            return z3.Or(parts) if parts else False
        parts = [self.i == n for n, a in enumerate(self.alphabet) if a == o]
        if not parts:
            return False
        if len(parts) == len(self.alphabet):
            return True
        return z3.Or(parts)

    def concrete(self):
        for c in sorted(set(self.alphabet)):
            e = self.eq(c)
            if e is True or e is not False and bool(SymBool(z=e)):
                CTX.memo[self.i] = c
                return c
        raise core.Infeasible()

    def value(self):
        """z3 value of a digit"""
        if self.alphabet == "0123456789":
            return self.i
        r = z3.IntVal(0)
        for n, a in enumerate(self.alphabet):
            r = z3.If(self.i == n, z3.IntVal(ord(a) - 48), r)
        return r


def char_var(name, alphabet):
    i = z3.Int(name)
    CTX.assume(SymBool(z=z3.And(i >= 0, i < len(alphabet))))
    return SymStr([Ch(i, alphabet)])


def _cells(x):
    if isinstance(x, SymStr):
        return x.cells
    if isinstance(x, str):
        return list(x) if "\ue000" not in x else from_text(x, raw=True)
    raise Unsupported("SymStr with %s" % type(x))


def mk(cells):
    return "".join(cells) if all(isinstance(c, str) for c in cells) else SymStr(cells)


def _eq(a, b):
    """cells equal: bool or SymBool"""
    if len(a) != len(b):
        return False
    parts = []
    for x, y in zip(a, b):
        if isinstance(x, str) and isinstance(y, str):
            if x != y:
                return False
            continue
        e = x.eq(y) if isinstance(x, Ch) else y.eq(x)
        if e is False:
            return False
        if e is not True:
            parts.append(e)
    if not parts:
        return True
    return SymBool(z=z3.And(parts))


class SymStr:
    def __init__(self, cells):
        self.cells = list(cells)

    def __len__(self): return len(self.cells)
    def __iter__(self): return iter([mk([c]) for c in self.cells])
    def __hash__(self): return 0
    def __bool__(self): return bool(self.cells)
    def __eq__(self, o): return _eq(self.cells, _cells(o)) if isinstance(o, (str, SymStr)) else False

    def __ne__(self, o):
        r = self.__eq__(o)
        return r.neg() if isinstance(r, SymBool) else not r

    def __getitem__(self, k):
        return mk(self.cells[k]) if isinstance(k, slice) else mk([self.cells[k]])

    def __add__(self, o): return mk(self.cells + _cells(o))
    def __radd__(self, o): return mk(_cells(o) + self.cells)
    def __mul__(self, n): return mk(self.cells * n)
    def __contains__(self, o): return self.find(o) >= 0
    def __str__(self): return core.token_of(self, "")
    def __format__(self, spec): return core.token_of(self, spec)
    def __repr__(self): return "SymStr(%s)" % "".join(c if isinstance(c, str) else "?" for c in self.cells)
    def __fspath__(self): raise Unsupported("SymStr as a path")

    def _at(self, i, s):
        return bool(_eq(self.cells[i:i + len(s)], s))

    def find(self, sub, start=0, end=None):
        s = _cells(sub)
        end = len(self.cells) if end is None else end
        start, end, _ = slice(start, end).indices(len(self.cells))
        for i in range(start, end - len(s) + 1):
            if self._at(i, s):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        s = _cells(sub)
        end = len(self.cells) if end is None else end
        start, end, _ = slice(start, end).indices(len(self.cells))
        for i in range(end - len(s), start - 1, -1):
            if self._at(i, s):
                return i
        return -1

    def index(self, *a):
        r = self.find(*a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, *a):
        r = self.rfind(*a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported("SymStr split at white space")
        out, pos, n = [], 0, len(sep)
        while maxsplit < 0 or len(out) < maxsplit:
            i = self.find(sep, pos)
            if i < 0:
                break
            out.append(mk(self.cells[pos:i]))
            pos = i + n
        return out + [mk(self.cells[pos:])]

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported("SymStr split at white space")
        out, end = [], len(self.cells)
        while maxsplit < 0 or len(out) < maxsplit:
            i = self.rfind(sep, 0, end)
            if i < 0:
                break
            out.insert(0, mk(self.cells[i + len(sep):end]))
            end = i
        return [mk(self.cells[:end])] + out

    def partition(self, sep):
        i = self.find(sep)
        return (self, "", "") if i < 0 else (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        return ("", "", self) if i < 0 else (self[:i], sep, self[i + len(sep):])

    def startswith(self, p, *a):
        if a:
            raise Unsupported("SymStr startswith with bounds")
        return any(self.startswith(x) for x in p) if isinstance(p, tuple) else self._at(0, _cells(p))

    def endswith(self, p, *a):
        if a:
            raise Unsupported("SymStr endswith with bounds")
        if isinstance(p, tuple):
            return any(self.endswith(x) for x in p)
        s = _cells(p)
        return len(s) <= len(self) and (not s or self._at(len(self) - len(s), s))

    def removeprefix(self, p): return self[len(p):] if self.startswith(p) else self
    def removesuffix(self, p): return self[:len(self) - len(p)] if p and self.endswith(p) else self

    def lstrip(self, chars=" \t\n\r"):
        i = 0
        while i < len(self) and any(self._at(i, [c]) for c in chars):
            i += 1
        return self[i:]

    def rstrip(self, chars=" \t\n\r"):
        i = len(self)
        while i and any(self._at(i - 1, [c]) for c in chars):
            i -= 1
        return self[:i]

    def strip(self, chars=" \t\n\r"):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def replace(self, a, b, n=-1):
        parts = self.split(a, n)
        out = _cells(parts[0])
        for p in parts[1:]:
            out = out + _cells(b) + _cells(p)
        return mk(out)

    def count(self, sub):
        return len(self.split(sub)) - 1

    def isdigit(self):
        return bool(self.cells) and all(c.isdigit() if isinstance(c, str) else _isdigit(c) for c in self.cells)

    isdecimal = isnumeric = isdigit


def _isdigit(c):
    n = sum(a.isdigit() for a in c.alphabet)
    if n == len(c.alphabet):
        return True
    if not n:
        return False
    return bool(SymBool(z=z3.Or([c.i == k for k, a in enumerate(c.alphabet) if a.isdigit()])))


def _settle(cells):
    """every cell a plain character or a digit; pattern with digits shown as 0"""
    out, pat = [], ""
    for c in cells:
        if isinstance(c, Ch):
            if _isdigit(c):
                out.append(c)
                pat += "0"
                continue
            c = c.concrete()
        out.append(c)
        pat += c
    return out, pat


def _val(cells):
    v = z3.IntVal(0)
    for c in cells:
        if c != "_":
            v = v * 10 + (c.value() if isinstance(c, Ch) else int(c))
    return v


def to_int(s, base=10):
    c, pat = _settle(s.cells)
    builtins.int(pat)         # ValueError when it is not a number
    lead = len(pat) - len(pat.lstrip())
    c = c[lead:len(pat.rstrip())]
    sign = 1
    if c[0] in ("+", "-"):
        sign = -1 if c[0] == "-" else 1
        c = c[1:]
    return wrap_z(sign * _val(c))


def to_float(s):
    c, pat = _settle(s.cells)
    builtins.float(pat)
    m = _re.fullmatch(r"\s*([+-]?)([\d_]*)(?:\.([\d_]*))?\s*", pat)
    if not m:
        raise Unsupported("SymStr as the number %s" % pat)
    whole = c[m.start(2):m.end(2)]
    frac = [x for x in (c[m.start(3):m.end(3)] if m.group(3) else []) if x != "_"]
    v = z3.ToReal(_val(whole + frac)) / (10 ** len(frac))
    return wrap_z(-v if m.group(1) == "-" else v)


# ----------------------------------------------------------------------------------------------------------------------
# numbers in text
# ----------------------------------------------------------------------------------------------------------------------
_TOK = _re.compile("\ue000\\d+\ue001")


def digits(obj, spec, tok):
    """cells of a formatted symbolic number"""
    name = "digits_" + tok.strip("\ue000\ue001") + "_"
    m = _re.fullmatch(r"(0?)(\d*)(d|\.(\d+)f|)", spec)
    if not m or (isinstance(obj, ZReal) and m.group(4) is None):
        raise Unsupported("symbolic number in format %r" % spec)
    nd = int(m.group(4)) if m.group(4) is not None else 0
    x = obj
    if isinstance(x, ZInt) and nd:
        x = wrap_z(z3.ToReal(x.z))
    sign = []
    if bool(x < 0):
        sign, x = ["-"], -x
    k = 1
    while k < 9:
        lim = 10 ** k if isinstance(obj, ZInt) else 10 ** k - core.Fr(1, 2 * 10 ** nd)
        if bool(x < lim):
            break
        k += 1
    ds = [z3.Int(name + "%d" % i) for i in range(k + nd)]
    for d in ds:
        CTX.assume(SymBool(z=z3.And(d >= 0, d <= 9)))
    if k > 1:
        CTX.assume(SymBool(z=ds[0] >= 1))
    v = z3.IntVal(0)
    for d in ds:
        v = v * 10 + d
    if isinstance(obj, ZInt):
        CTX.assume(SymBool(z=v == (x.z if not nd else z3.ToInt(x.z)) * 10 ** nd))
    else:
        diff = z3.ToReal(v) - x.z * 10 ** nd
        CTX.assume(SymBool(z=z3.And(2 * diff <= 1, 2 * diff >= -1)))
    c = [Ch(d, "0123456789") for d in ds]
    if nd:
        c = c[:k] + ["."] + c[k:]
    w = int(m.group(2) or 0) - len(c) - len(sign)
    if m.group(1):
        return sign + ["0"] * max(w, 0) + c
    return [" "] * max(w, 0) + sign + c


def from_text(text, raw=False):
    """text with number tokens -> string with symbolic digits"""
    out, pos = [], 0
    for m in _TOK.finditer(text):
        out += list(text[pos:m.start()])
        obj, spec = core.TOKENS[m.group(0)]
        if isinstance(obj, SymStr):
            if spec not in ("", "s"):
                raise Unsupported("SymStr in format %r" % spec)
            out += obj.cells
        elif isinstance(obj, (ZInt, ZReal)):
            out += digits(obj, spec, m.group(0))
        else:
            raise Unsupported("SymStr of %s" % type(obj))
        pos = m.end()
    out += list(text[pos:])
    return out if raw else mk(out)


# ----------------------------------------------------------------------------------------------------------------------
# stand-ins for modules
# ----------------------------------------------------------------------------------------------------------------------
def is_sym(x):
    return isinstance(x, SymStr) or isinstance(x, str) and "\ue000" in x


def norm(x):
    return from_text(x) if isinstance(x, str) and "\ue000" in x else x


def sh_int(x=0, *a):
    from . import shim
    x = norm(x)
    return to_int(x, *a) if isinstance(x, SymStr) else shim.sh_int(x, *a)


def sh_float(x=0.0):
    from . import shim
    x = norm(x)
    return to_float(x) if isinstance(x, SymStr) else shim.sh_float(x)


class PathShim:
    """os.path on symbolic strings"""

    def __init__(self, real):
        self._r = real

    def __getattr__(self, n):
        return getattr(self._r, n)

    def split(self, p):
        p = norm(p)
        if not isinstance(p, SymStr):
            return self._r.split(p)
        i = p.rfind("/") + 1
        head, tail = p[:i], p[i:]
        if isinstance(head, SymStr):
            t = head.rstrip("/")
            head = t if t else head
        else:
            head = self._r.split(head + "x")[0]
        return head, tail

    def basename(self, p):
        return self.split(p)[1]

    def dirname(self, p):
        return self.split(p)[0]

    def join(self, *ps):
        if not any(is_sym(p) for p in ps):
            return self._r.join(*ps)
        r = norm(ps[0])
        for p in ps[1:]:
            p = norm(p)
            if (p.startswith("/")) or len(r) == 0:
                r = p
            elif r.endswith("/"):
                r = r + p
            else:
                r = r + "/" + p
        return r

    def splitext(self, p):
        p = norm(p)
        if not isinstance(p, SymStr):
            return self._r.splitext(p)
        b = p.rfind("/") + 1
        i = p.rfind(".")
        if i < b or all(p._at(j, ["."]) for j in range(b, i)):
            return p, ""
        return p[:i], p[i:]

    def normpath(self, p):
        if is_sym(p):
            raise Unsupported("SymStr normpath")
        return self._r.normpath(p)


class OsShim:
    def __init__(self, real):
        self._r = real
        self.path = PathShim(real.path)

    def __getattr__(self, n):
        return getattr(self._r, n)


# ----------------------------------------------------------------------------------------------------------------------
# glob over a given list of names
# ----------------------------------------------------------------------------------------------------------------------
def fnmatch(cells, pat):
    """shell pattern against cells of one path component; pat is a list of cells"""
    if not pat:
        return not cells
    p = pat[0]
    if isinstance(p, Ch):
        p = p.concrete() if any(x in "*?[" for x in p.alphabet) else p
    if p == "*":
        if len(pat) == 1:
            return True
        for i in range(len(cells) + 1):
            if fnmatch(cells[i:], pat[1:]):
                return True
        return False
    if not cells:
        return False
    if p == "?":
        return fnmatch(cells[1:], pat[1:])
    if p == "[":
        j, cl = 1, []
        neg = j < len(pat) and pat[j] == "!"
        j += neg
        first = True
        while j < len(pat):
            c = pat[j].concrete() if isinstance(pat[j], Ch) else pat[j]
            if c == "]" and not first:
                break
            cl.append(c)
            first = False
            j += 1
        else:
            return bool(_eq([cells[0]], ["["])) and fnmatch(cells[1:], pat[1:])
        if "-" in cl[1:-1]:
            raise Unsupported("SymStr with a range of characters")
        hit = any(bool(_eq([cells[0]], [c])) for c in cl)
        return hit != neg and fnmatch(cells[1:], pat[j + 1:])
    return bool(_eq([cells[0]], [p])) and fnmatch(cells[1:], pat[1:])


def _components(cells):
    out = [[]]
    for c in cells:
        if isinstance(c, Ch) and "/" in c.alphabet:
            e = c.eq("/")
            c = "/" if e is True or e is not False and bool(SymBool(z=e)) else c
        if c == "/":
            out.append([])
        else:
            out[-1].append(c)
    return out


class GlobShim:
    """glob.glob over a list of existing files (symbolic names); everything else is the real module"""

    def __init__(self, files):
        import glob
        self._r = glob
        self.files = files

    def __getattr__(self, n):
        return getattr(self._r, n)

    def escape(self, p):
        p = norm(p)
        if not isinstance(p, SymStr):
            return self._r.escape(p)
        out = []
        for c in p.cells:
            s = c if isinstance(c, str) else (c.concrete() if any(x in "*?[" for x in c.alphabet) else c)
            out += ["[", s, "]"] if isinstance(s, str) and s in "*?[" else [s]
        return mk(out)

    def glob(self, pattern, **kw):
        if any(kw.values()):
            raise Unsupported("SymStr glob options")
        pc = _components(_cells(pattern))
        out = []
        for f in self.files:
            fc = _components(_cells(f))
            fc = [x for i, x in enumerate(fc) if x or i == 0]
            pp = [x for i, x in enumerate(pc) if x or i == 0]
            if len(fc) == len(pp) and all(fnmatch(a, b) for a, b in zip(fc, pp)):
                out.append(f)
        return out

    def iglob(self, pattern, **kw):
        return iter(self.glob(pattern, **kw))
