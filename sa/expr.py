"""Exact scalars: Fractions and polynomials over opaque atoms (filter taps and the like).

Two scalars are equal if their normal forms are; forms that differ are compared by
evaluating both at fixed generic points (polynomial identity testing).
"""

from __future__ import annotations

import cmath
import hashlib
import math
from fractions import Fraction

ATOMS = []
_IDS = {}
LIMIT = 10


def atom(kind, *payload):
    k = (kind,) + payload
    i = _IDS.get(k)
    if i is None:
        i = _IDS[k] = len(ATOMS)
        ATOMS.append(k)
    return Ex(((((i, 1),), Fraction(1)),))


class Ex:
    """Polynomial (powers may be negative): tuple of (monomial, coefficient)."""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __hash__(self):
        return hash(self.t)

    def __eq__(self, o):
        return isinstance(o, Ex) and o.t == self.t

    def __repr__(self):
        return show(self)


def is_scalar(x):
    return isinstance(x, (int, float, Fraction, Ex)) and x == x


def num(x):
    """Normalise a Python number; None if it is not exact."""
    if isinstance(x, Ex):
        return x
    if isinstance(x, bool):
        return x
    if isinstance(x, int):
        return x
    if isinstance(x, float):
        if x != x or math.isinf(x):
            return None
        x = Fraction(x)
    if isinstance(x, Fraction):
        return int(x) if x.denominator == 1 else x
    return None


def _d(x):
    if isinstance(x, Ex):
        return dict(x.t)
    return {(): Fraction(x)} if x else {}


def _mk(d):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return 0
    if len(d) == 1 and () in d:
        return num(d[()])
    if len(d) > LIMIT:
        return atom("def", tuple(sorted(d.items())))
    return Ex(tuple(sorted(d.items())))


def add(a, b):
    if not isinstance(a, Ex) and not isinstance(b, Ex):
        return num(Fraction(a) + Fraction(b))
    d = _d(a)
    for k, v in _d(b).items():
        d[k] = d.get(k, 0) + v
    return _mk(d)


def neg(a):
    return mul(a, -1)


def sub(a, b):
    return add(a, neg(b))


def _mm(a, b):
    d = dict(a)
    for i, p in b:
        d[i] = d.get(i, 0) + p
    return tuple(sorted((i, p) for i, p in d.items() if p))


_J = []


def imag_unit():
    """The imaginary unit (only the analysis of complex wavelets uses it)."""
    if not _J:
        x = atom("imaginary unit")
        _J.append(x)
        _J.append(x.t[0][0][0][0])
    return _J[0]


def _red(q, c):
    """Reduce powers of the imaginary unit."""
    for i, p in q:
        if i == _J[1]:
            p %= 4
            r = tuple((k, w) for k, w in q if k != i)
            return tuple(sorted(r + ((i, 1),))) if p % 2 else r, -c if p >= 2 else c
    return q, c


def mul(a, b):
    if not isinstance(a, Ex) and not isinstance(b, Ex):
        return num(Fraction(a) * Fraction(b))
    d = {}
    for k, v in _d(a).items():
        for m, w in _d(b).items():
            q, c = _mm(k, m), v * w
            if _J:
                q, c = _red(q, c)
            d[q] = d.get(q, 0) + c
    return _mk(d)


def conj(x):
    """Complex conjugate; None if unknown."""
    if not isinstance(x, Ex) or not _J:
        return x
    r = 0
    for m, c in x.t:
        v = num(c)
        for i, p in m:
            k = ATOMS[i]
            a = Ex(((((i, 1),), Fraction(1)),))
            if i == _J[1]:
                a = neg(a)
            elif k[0] == "def":
                a = conj(Ex(k[1]))
            elif k[0] in ("inv", "sqrt"):
                q = conj(k[1])
                a = None if q is None else a if q == k[1] else inv(q) if k[0] == "inv" else None
            elif k[0] == "fn":
                q = [conj(y) if isinstance(y, Ex) else y for y in k[2:]]
                a = None if any(y is None for y in q) else func(k[1], *q) if k[1] in ("exp", "sin", "cos") else a if tuple(q) == k[2:] else None
            if a is None:
                return None
            for _ in range(abs(p)):
                v = mul(v, a if p > 0 else inv(a))
        r = add(r, v)
    return r


def real(x):
    c = conj(x)
    return x if c is x else None if c is None else mul(Fraction(1, 2), add(x, c))


def imag(x):
    c = conj(x)
    return 0 if c is x else None if c is None else mul(mul(Fraction(-1, 2), imag_unit()), sub(x, c))


def inv(a):
    if not isinstance(a, Ex):
        return num(1 / Fraction(a)) if a else None
    if len(a.t) == 1:
        m, c = a.t[0]
        return _mk({tuple((i, -p) for i, p in m): 1 / c})
    return atom("inv", a)


def div(a, b):
    i = inv(b)
    return None if i is None else mul(a, i)


def sqrt(a):
    if not isinstance(a, Ex):
        if a < 0:
            return None
        f = Fraction(a)
        n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if n * n == f.numerator and d * d == f.denominator:
            return num(Fraction(n, d))
        return atom("sqrt", a)
    return atom("sqrt", a)


def func(name, *a):
    return atom("fn", name, *a)


def value(x, point=0, memo=None):
    """Float value at a fixed generic point."""
    if not isinstance(x, Ex):
        return float(x)
    return _plain(_value(x, point, memo))


def _plain(v):
    return v.real if isinstance(v, complex) and v.imag == 0 else v


def _value(x, point, memo):
    memo = {} if memo is None else memo

    def at(i):
        if i in memo:
            return memo[i]
        k = ATOMS[i]
        if k[0] == "def":
            r = poly(k[1])
        elif k[0] == "inv":
            v = ex(k[1])
            r = 1 / v if v else math.nan
        elif k[0] == "sqrt":
            v = _plain(ex(k[1]))
            r = cmath.sqrt(v) if isinstance(v, complex) else math.sqrt(v) if v >= 0 else math.nan
        elif k[0] == "imaginary unit":
            r = 1j
        elif k[0] == "fn" and k[1] == "abs" and len(k) == 3:
            r = abs(ex(k[2]))
        elif k[0] == "fn" and k[1] in ("exp", "sin", "cos") and len(k) == 3:
            v = _plain(ex(k[2]))
            try:
                r = getattr(cmath if isinstance(v, complex) else math, k[1])(v)
            except OverflowError:
                r = math.nan
        elif k[0] in ("qr", "qrR"):
            q, up = _qr(k[1], point, memo)
            r = q[k[3]][k[2]] if k[0] == "qr" and k[3] < len(q) else up.get((k[2], k[3]), math.nan)
        else:
            h = hashlib.sha256(repr((point, k)).encode()).digest()
            r = (0.25 + int.from_bytes(h[:6], "big") / 2 ** 48) * (1 if h[7] & 1 else -1)
        memo[i] = r
        return r

    def ex(e):
        return poly(e.t) if isinstance(e, Ex) else float(e)

    def poly(t):
        s = 0.0
        for m, c in t:
            v = float(c)
            for i, p in m:
                v *= at(i) ** p
            s += v
        return s

    return ex(x)


def _qr(key, point, memo):
    """Columns of Q and entries of R of a matrix of scalars at a generic point."""
    mk = ("qr", key)
    if mk not in memo:
        (m, n), v = key
        cols = [[value(v[i * n + j], point, memo) for i in range(m)] for j in range(n)]
        q, up = [], {}
        for j, c in enumerate(cols[:m]):
            for _ in range(2):
                for i, u in enumerate(q):
                    d = sum(x * y for x, y in zip(u, c))
                    up[(i, j)] = up.get((i, j), 0.0) + d
                    c = [y - d * x for x, y in zip(u, c)]
            s = math.sqrt(sum(x * x for x in c))
            up[(j, j)] = s
            q.append([x / s if s else math.nan for x in c])
        memo[mk] = (q, up)
    return memo[mk]


def equal(a, b):
    if isinstance(a, Ex) is isinstance(b, Ex) and a == b:
        return True
    if not isinstance(a, Ex) and not isinstance(b, Ex):
        return a == b
    for p in (0, 1):
        u, v = value(a, p), value(b, p)
        if not (u == u and v == v):
            return None
        if abs(u - v) > 1e-9 * max(1.0, abs(u), abs(v)):
            return False
    return True


def show(x, depth=2):
    if not isinstance(x, Ex):
        return str(x)
    out = []
    for m, c in x.t[:4]:
        s = "*".join(_name(i, depth) + ("" if p == 1 else "^%d" % p) for i, p in m)
        out.append(s if c == 1 and s else ("-" + s if c == -1 and s else "%s%s%s" % (c, "*" if s else "", s)))
    return " + ".join(out) + (" + ..." if len(x.t) > 4 else "")


def _name(i, depth):
    k = ATOMS[i]
    if k[0] == "tap":
        return "%s[%s]" % (k[1], k[2])
    if k[0] == "in":
        return "%s%s" % (k[1], list(k[2]))
    if k[0] == "sqrt":
        return "sqrt(%s)" % (show(k[1], depth - 1) if depth else "..")
    if k[0] == "inv":
        return "1/(%s)" % (show(k[1], depth - 1) if depth else "..")
    if k[0] == "qr":
        return "Q[%d,%d]" % (k[2], k[3])
    return k[0]
