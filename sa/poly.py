"""Length domain: polynomials over non-negative integer parameters.

An abstract integer is either a python int or a :class:`Poly`, a polynomial with
rational coefficients over *atoms*.  An atom is a parameter of the analysed input
family (``('s', name)``) or an uninterpreted-but-evaluable function of other
abstract integers (``('f', name, args)``), for instance ``mod``, ``min`` or
``maxlev``.  Everything is hash-consed structurally so equality of terms is
syntactic equality of normal forms.
"""

from __future__ import annotations

from fractions import Fraction
import math


class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, terms):
        self.t = terms  # dict monomial(tuple of atoms, sorted) -> Fraction|int
        self._h = None

    def key(self):
        return frozenset(self.t.items())

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, other):
        if isinstance(other, Poly):
            return self.t == other.t
        return False

    def __ne__(self, other):
        return not self.__eq__(other)

    def __repr__(self):
        return show(self)


def atom_key(a):
    return repr(a)


def mk(terms):
    t = {}
    for m, c in terms.items():
        if c == 0:
            continue
        if isinstance(c, Fraction) and c.denominator == 1:
            c = int(c)
        t[m] = c
    if not t:
        return 0
    if len(t) == 1 and () in t:
        return t[()]
    return Poly(t)


def of_atom(a):
    return Poly({(a,): 1})


def terms(p):
    if isinstance(p, Poly):
        return p.t
    if isinstance(p, float):
        p = Fraction(p)
    return {(): p} if p != 0 else {}


def add(a, b):
    t = dict(terms(a))
    for m, c in terms(b).items():
        t[m] = t.get(m, 0) + c
    return mk(t)


def neg(a):
    return mk({m: -c for m, c in terms(a).items()})


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    t = {}
    for m1, c1 in terms(a).items():
        for m2, c2 in terms(b).items():
            m = tuple(sorted(m1 + m2, key=atom_key))
            t[m] = t.get(m, 0) + c1 * c2
    return mk(t)


def scale(a, c):
    return mk({m: v * c for m, v in terms(a).items()})


def is_const(p):
    return not isinstance(p, Poly)


def atoms(p):
    s = set()
    if isinstance(p, Poly):
        for m in p.t:
            s.update(m)
    return s


def all_symbols(p):
    """All parameter names occurring anywhere in p (also below function atoms)."""
    out = set()

    def rec_atom(a):
        if a[0] == "s":
            out.add(a[1])
        else:
            for x in a[2]:
                if isinstance(x, Poly):
                    rec(x)

    def rec(q):
        for a in atoms(q):
            rec_atom(a)

    if isinstance(p, Poly):
        rec(p)
    return out


def denominators(p):
    d = 1
    for c in terms(p).values():
        if isinstance(c, Fraction):
            d = d * c.denominator // math.gcd(d, c.denominator)
    return d


def div_exact(a, b):
    """Return q with q*b == a, or None. b int or single-monomial / divisor poly."""
    if is_const(b):
        if b == 0:
            return None
        r = {}
        for m, c in terms(a).items():
            q = Fraction(c) / Fraction(b)
            if q.denominator != 1:
                return None
            r[m] = int(q)
        return mk(r)
    # multivariate long division w.r.t. an arbitrary but fixed monomial order
    def lead(p):
        return max(terms(p).items(), key=lambda mc: (len(mc[0]), [atom_key(x) for x in mc[0]]))

    rem = a
    quot = 0
    lm, lc = lead(b)
    for _ in range(64):
        if not isinstance(rem, Poly) and rem == 0:
            return quot
        m, c = lead(rem)
        need = list(lm)
        left = list(m)
        ok = True
        for x in need:
            if x in left:
                left.remove(x)
            else:
                ok = False
                break
        if not ok:
            return None
        qc = Fraction(c) / Fraction(lc)
        if qc.denominator != 1:
            return None
        q = mk({tuple(left): int(qc)})
        quot = add(quot, q)
        rem = sub(rem, mul(q, b))
    return None


def evalp(p, env):
    if not isinstance(p, Poly):
        return p
    tot = Fraction(0)
    for m, c in p.t.items():
        v = Fraction(c)
        for a in m:
            v *= eval_atom(a, env)
        tot += v
    return int(tot) if tot.denominator == 1 else tot


class NoEval(Exception):
    pass


def eval_atom(a, env):
    if a[0] == "s":
        if a[1] in env:
            return env[a[1]]
        raise NoEval(a[1])
    name, args = a[1], a[2]
    v = [evalp(x, env) if isinstance(x, (Poly, int, Fraction)) else x for x in args]
    if name == "fdiv":
        return Fraction(v[0]) // Fraction(v[1]) if v[1] else 0
    if name == "mod":
        return Fraction(v[0]) % Fraction(v[1]) if v[1] else 0
    if name == "min":
        return min(v)
    if name == "max":
        return max(v)
    if name == "maxlev":
        n, f = v
        if n < f - 1 or f <= 1:
            return 0
        return int(math.floor(math.log2(float(n) / float(f - 1)) + 1e-12))
    if name == "truediv":
        return Fraction(v[0]) / Fraction(v[1])
    if name == "trunc":
        return int(v[0])
    if name == "floor":
        return math.floor(v[0])
    if name == "ceil":
        return math.ceil(v[0])
    if name == "pow":
        return v[0] ** v[1]
    if name == "swtlev":
        n = int(v[0])
        k = 0
        while n > 0 and n % 2 == 0:
            n //= 2
            k += 1
        return k
    if name == "clog2":
        k = 0
        while 2 ** k < v[0]:
            k += 1
        return k
    if name == "pow2up":
        n = v[0]
        k = 1
        while k < n:
            k *= 2
        return k
    raise NoEval(name)


def show_atom(a):
    if a[0] == "s":
        return a[1]
    return "%s(%s)" % (a[1], ", ".join(show(x) for x in a[2]))


def show(p):
    if not isinstance(p, Poly):
        return str(p)
    out = []
    for m, c in sorted(p.t.items(), key=lambda mc: (-len(mc[0]), [atom_key(x) for x in mc[0]])):
        body = "*".join(show_atom(a) for a in m)
        if not body:
            s = str(c)
        elif c == 1:
            s = body
        elif c == -1:
            s = "-" + body
        else:
            s = "%s*%s" % (c, body)
        if out and not s.startswith("-"):
            s = "+" + s
        out.append(s)
    return "".join(out)
