"""A cell of the partition of the abstract input space, and the decision procedures
of the length domain inside one cell.

The analyser evaluates the source over a *single* abstract state.  When a branch
condition over the input parameters is not decided in the current cell, the cell is
split (``NeedSplit``) and every part is analysed again: classical abstract
interpretation with partition refinement.  No path formula is ever solved; the
entailment test is a bound propagation over the cell's facts.
"""

from __future__ import annotations

import itertools
import math
from fractions import Fraction

from . import poly as P
from .poly import Poly


class NeedSplit(Exception):
    def __init__(self, options):
        super().__init__(options)
        self.options = options


class Excluded(Exception):
    """The cell is outside the analysed domain (bounded unrolling, preconditions)."""

    def __init__(self, reason):
        super().__init__(reason)
        self.reason = reason


class Cell:
    def __init__(self, assumptions=()):
        self.assumptions = tuple(assumptions)
        self.subst = {}
        self._ck = None
        self._cv = None
        self.lower = {}
        self.facts = []
        self.decisions = 0  # symbolic conditions evaluated on this path
        self.eqs = []
        self.atomval = {}
        self.tokens = {}
        self.free = []  # declared primitive symbols
        self.soft = []  # assumptions whose feasibility is unknown
        self.assumed = []  # preconditions added by models (torch requirements)
        raw_ge = []
        for a in self.assumptions:
            k = a[0]
            if k == "sub":
                self.subst[a[1]] = a[2]
                for s, lo in a[3]:
                    self.lower[s] = lo
            elif k == "ge":
                raw_ge.append(a[1])
            elif k == "eq0":
                self.eqs.append(a[1])
            elif k == "atom":
                self.atomval[a[1]] = a[2]
            elif k == "tok":
                self.tokens[a[1]] = a[2]
                if a[3]:
                    self.soft.append(a[1])
        self._raw_ge = raw_ge
        for p in raw_ge:
            self._add_fact(self.norm(p))
        self.eqs = [self.norm(p) for p in self.eqs]
        for a, v in list(self.atomval.items()):
            if a[0] == "f" and P.is_const(v):
                self._atom_at_least(a, v)
                self._atom_at_most(a, v)

    # ----- symbols -------------------------------------------------------
    def sym(self, name, lo=1):
        if name not in self.lower:
            self.lower[name] = lo
        p = self.norm(P.of_atom(("s", name)))
        for s in P.all_symbols(p):
            if s not in self.free:
                self.free.append(s)
        if name in self.subst:
            # the original lower bound is a fact about the substituted value
            f = P.sub(p, lo)
            if isinstance(f, Poly) and self._bound_lo(f) is None or (
                isinstance(f, Poly) and self._bound_lo(f) < 0
            ):
                self._add_fact(f)
            elif not isinstance(f, Poly) and f < 0:
                raise Excluded("infeasible cell")
        return p

    def norm(self, p):
        """Apply substitutions and known atom values until a normal form."""
        if not isinstance(p, Poly):
            return p
        c = self.caches()[0]
        r = c.get(p)
        if r is None:
            r = self._norm(p)
            self.caches()[0][p] = r
        return r

    def _norm(self, p):
        for _ in range(50):
            ats = P.atoms(p)
            if not any(self._atom_changes(a) for a in ats):
                return p
            out = 0
            for m, c in p.t.items():
                term = c
                for a in m:
                    term = P.mul(term, self._atom_norm(a))
                out = P.add(out, term)
            p = out
            if not isinstance(p, Poly):
                return p
        return p

    def _atom_changes(self, a):
        if a in self.atomval:
            return True
        if a[0] == "s":
            return a[1] in self.subst
        return any(
            isinstance(x, Poly) and self.norm(x) != x for x in a[2]
        )

    def _atom_norm(self, a):
        if a in self.atomval:
            return self.atomval[a]
        if a[0] == "s":
            if a[1] in self.subst:
                return self.subst[a[1]]
            return P.of_atom(a)
        args = tuple(self.norm(x) if isinstance(x, Poly) else x for x in a[2])
        return self.fn(a[1], args)

    # ----- function atoms --------------------------------------------------
    def fn(self, name, args):
        """Build (and simplify) a function application."""
        if name == "fdiv":
            return self.floordiv(args[0], args[1])
        if name == "mod":
            return self.mod(args[0], args[1])
        if all(P.is_const(x) for x in args):
            try:
                return P.eval_atom(("f", name, args), {})
            except P.NoEval:
                pass
        if name == "pow" and args[0] == 2 and isinstance(args[1], Poly) and len(args[1].t) == 1:
            (m, c), = args[1].t.items()
            if c == 1 and len(m) == 1 and m[0][0] == "f" and m[0][1] == "clog2":
                r = self._atom("pow2up", m[0][2])
                self._add_fact(P.sub(r, m[0][2][0]))
                return r
        if name == "swtlev":
            x = args[0]
            if isinstance(x, Poly):
                k = 0
                while isinstance(x, Poly) and P.div_exact(x, 2) is not None:
                    x = P.div_exact(x, 2)
                    k += 1
                if not isinstance(x, Poly):
                    return P.add(k, P.eval_atom(("f", "swtlev", (x,)), {}))
                odd = {m for m, c in P.terms(x).items() if int(c) % 2}
                if odd == {()}:
                    return k
                if k:
                    return P.add(k, self._atom("swtlev", (x,)))
                args = (x,)
        if name in ("min", "max"):
            flat = []
            for x in args:
                if isinstance(x, Poly) and len(x.t) == 1:
                    (m, c), = x.t.items()
                    if c == 1 and len(m) == 1 and m[0][0] == "f" and m[0][1] == name:
                        flat.extend(m[0][2])
                        continue
                flat.append(x)
            uniq = []
            for x in flat:
                if x not in uniq:
                    uniq.append(x)
            # drop dominated arguments
            keep = []
            for i, x in enumerate(uniq):
                dom = False
                for j, y in enumerate(uniq):
                    if i == j:
                        continue
                    d = P.sub(x, y) if name == "min" else P.sub(y, x)
                    r = self.ge0(d)
                    if r and (d != 0) and not (self.ge0(P.neg(d)) and j > i):
                        dom = True
                        break
                if not dom:
                    keep.append(x)
            if len(keep) == 1:
                return keep[0]
            args = tuple(sorted(keep, key=P.show))
        a = ("f", name, tuple(args))
        if a in self.atomval:
            return self.atomval[a]
        return P.of_atom(a)

    # ----- bounds ----------------------------------------------------------
    def atom_bounds(self, a):
        c = self.caches()[1]
        r = c.get(a)
        if r is None:
            r = c[a] = self._atom_bounds(a)
        return r

    def _atom_bounds(self, a):
        if a[0] == "s":
            lo = self.lower.get(a[1], 0)
            hi = None
            for f in self.facts:
                r = _linear_single(f)
                if r and r[0] == a:
                    c, k = r[1], r[2]
                    if c < 0:
                        h = Fraction(k) // Fraction(-c)
                        hi = h if hi is None else min(hi, h)
                    else:
                        l2 = -(Fraction(k) // Fraction(c))
                        lo = max(lo, l2)
            return lo, hi
        name, args = a[1], a[2]
        if name == "mod":
            return 0, (args[1] - 1 if P.is_const(args[1]) else None)
        if name in ("maxlev", "swtlev"):
            return 0, None
        if name == "pow2up":
            return 1, None
        if name == "fdiv":
            lo = self._bound_lo(args[0])
            return (0 if lo is not None and lo >= 0 else None), None
        if name == "min":
            ls = [self._bound_lo(x) for x in args]
            return (None if None in ls else min(ls)), None
        if name == "max":
            ls = [x for x in (self._bound_lo(x) for x in args) if x is not None]
            return (max(ls) if ls else None), None
        if name.startswith("len"):
            return 0, None
        return None, None

    def _bound_lo(self, p):
        tot = Fraction(0)
        for m, c in P.terms(p).items():
            lo, hi = Fraction(1), Fraction(1)
            for a in m:
                l2, h2 = self.atom_bounds(a)
                if l2 is None or l2 < 0:
                    # only handle a lone atom with negative lower bound
                    if len(m) == 1:
                        lo, hi = l2, h2
                        break
                    return None
                lo = lo * l2
                hi = None if (hi is None or h2 is None) else hi * h2
            if c > 0:
                if lo is None:
                    return None
                tot += Fraction(c) * lo
            else:
                if hi is None:
                    return None
                tot += Fraction(c) * hi
        return tot

    def _nonneg(self, p):
        if not isinstance(p, Poly):
            return p >= 0
        lo = self._bound_lo(p)
        return lo is not None and lo >= 0

    def ge0(self, p):
        """True / False / None: is p >= 0 for every point of the cell?"""
        p = self.norm(p)
        if not isinstance(p, Poly):
            return p >= 0
        c = self.caches()[2]
        if p not in c:
            c[p] = self._ge0(p)
            if self.caches()[2] is not c:
                return c[p]
        return c[p]

    def caches(self):
        k = (len(self.facts), len(self.lower), len(self.atomval), len(self.subst))
        if self._ck != k:
            self._ck = k
            self._cv = ({}, {}, {})
        return self._cv

    def _ge0(self, p):
        if self._prove(p):
            return True
        d = P.denominators(p)
        q = P.scale(p, d) if d != 1 else p
        if self._prove(P.sub(P.neg(q), 1)):
            return False
        return None

    def _prove(self, p):
        if self._nonneg(p):
            return True
        fs = [f for f in self.facts if P.atoms(f) & P.atoms(p)]
        for f in fs:
            for k in (1, 2, Fraction(1, 2), 3, 4):
                if self._nonneg(P.sub(p, P.scale(f, k))):
                    return True
        for f, g in itertools.combinations(fs[:8], 2):
            for k, l in ((1, 1), (1, 2), (2, 1), (Fraction(1, 2), Fraction(1, 2))):
                if self._nonneg(P.sub(P.sub(p, P.scale(f, k)), P.scale(g, l))):
                    return True
        return False

    def _add_fact(self, p):
        if not isinstance(p, Poly):
            if p < 0:
                raise Excluded("infeasible cell")
            return
        d = P.denominators(p)
        if d != 1:
            p = P.scale(p, d)
        if p in self.facts:
            return
        self.facts.append(p)
        r = _linear_single(p)
        if r and r[0][0] == "f":
            c, k = r[1], r[2]
            if c > 0:
                self._atom_at_least(r[0], -(Fraction(k) // Fraction(c)))
            else:
                self._atom_at_most(r[0], Fraction(k) // Fraction(-c))

    def _atom_at_least(self, a, lo):
        """Consequences of a >= lo for the arguments of a level atom."""
        lo = int(lo)
        if a[1] == "maxlev" and 1 <= lo <= 12:
            self._add_fact(self.norm(P.sub(a[2][0], P.scale(P.sub(a[2][1], 1), 2 ** lo))))
        elif a[1] == "min":
            for x in a[2]:
                self._add_fact(self.norm(P.sub(x, lo)))
        elif a[1] == "max" or a[1] == "swtlev":
            pass

    def _atom_at_most(self, a, hi):
        hi = int(hi)
        if a[1] == "maxlev" and 0 <= hi <= 12:
            self._add_fact(self.norm(P.sub(P.sub(P.scale(P.sub(a[2][1], 1), 2 ** (hi + 1)), 1), a[2][0])))
        elif a[1] == "max":
            for x in a[2]:
                self._add_fact(self.norm(P.sub(hi, x)))

    # ----- decisions (may split the cell) -------------------------------------
    def decide_ge(self, p):
        p = self.norm(p)
        if isinstance(p, Poly):
            self.decisions += 1
        r = self.ge0(p)
        if r is None:
            self._split_swt(p)
            d = P.denominators(p)
            q = P.scale(p, d) if d != 1 else p
            raise NeedSplit(self._ge_options(q) + self._ge_options(P.sub(P.neg(q), 1)))
        return r

    def _ge_options(self, q):
        """Assumption(s) for q >= 0 (tightening to an equality where bounds meet)."""
        r = _linear_single(q)
        if r and r[0][0] == "s" and r[1] < 0:
            s = r[0]
            lo, _ = self.atom_bounds(s)
            hi = Fraction(r[2]) // Fraction(-r[1])
            if lo is not None and hi == lo:
                return [("sub", s[1], int(lo), ())]
            if lo is not None and hi < lo:
                return []
        return [("ge", q)]

    def known_eq(self, p):
        p = self.norm(p)
        if not isinstance(p, Poly):
            return p == 0
        return p in self.eqs or P.neg(p) in self.eqs

    def eq0(self, p):
        p = self.norm(p)
        if not isinstance(p, Poly):
            return p == 0
        if self.ge0(P.sub(p, 1) if P.denominators(p) == 1 else p) is True and self.ge0(P.sub(P.scale(p, P.denominators(p)), 1)) is True:
            return False
        if self.ge0(P.sub(P.neg(P.scale(p, P.denominators(p))), 1)) is True:
            return False
        q = P.scale(p, P.denominators(p))
        import math

        g = 0
        for m, c in P.terms(q).items():
            if m:
                g = math.gcd(g, int(c))
        k = int(P.terms(q).get((), 0))
        if g > 1 and k % g != 0:
            return False
        if p in self.eqs or P.neg(p) in self.eqs:
            return True
        return None

    def decide_eq(self, p):
        p = self.norm(p)
        if isinstance(p, Poly):
            self.decisions += 1
        r = self.eq0(p)
        if r is not None:
            return r
        self._split_swt(p)
        q = P.scale(p, P.denominators(p))
        g = 0
        for c in q.t.values():
            g = math.gcd(g, int(c))
        if g > 1:
            q = P.scale(q, Fraction(1, g))
        opts = []
        eqopt = None
        for m, c in sorted(q.t.items(), key=lambda mc: [P.atom_key(a) for a in mc[0]]):
            if len(m) == 1 and c in (1, -1):
                a = m[0]
                rest = P.sub(q, P.mk({m: c}))
                if any(a in P.atoms(rest) or _occurs(a, b) for b in P.atoms(rest)):
                    continue
                val = P.scale(rest, -c)
                if a[0] == "s":
                    eqopt = [("sub", a[1], val, ())]
                    lo = self.lower.get(a[1], 0)
                    f = P.sub(val, lo)
                    if not isinstance(f, Poly):
                        if f < 0:
                            eqopt = []
                    else:
                        eqopt.append(("ge", f))
                    break
                elif P.is_const(val):
                    eqopt = [("atom", a, val)]
                    break
        if eqopt is None:
            eqopt = [("eq0", p)]
        if eqopt:
            opts.append(eqopt[0] if len(eqopt) == 1 else ("all", tuple(eqopt)))
        if self.ge0(P.sub(P.neg(q), 0)) is not True:  # q <= 0 not known => q >= 1 possible
            opts += self._ge_options(P.sub(q, 1))
        if self.ge0(q) is not True:
            opts += self._ge_options(P.sub(P.neg(q), 1))
        raise NeedSplit(opts)

    def _split_swt(self, p):
        for a in P.atoms(p):
            if a[0] == "f" and a[1] == "swtlev":
                rest = P.mk({m: int(c) % 2 for m, c in P.terms(a[2][0]).items()})
                s = self._parity_sym(rest)
                if s is not None:
                    self.parity_split(s)

    def parity_split(self, s):
        lo, _ = self.atom_bounds(("s", s))
        opts = []
        for r in (0, 1):
            c = "%s%d" % (s if s[-1] in "01" and "." in s else s + ".", r)
            clo = -((-(int(lo) - r)) // 2)
            opts.append(
                ("sub", s, P.add(P.scale(P.of_atom(("s", c)), 2), r), ((c, max(clo, 0)),))
            )
        raise NeedSplit(opts)

    def token(self, key, soft=True):
        if key in self.tokens:
            return self.tokens[key]
        raise NeedSplit([("tok", key, True, soft), ("tok", key, False, soft)])

    def assume_ge(self, p, why):
        """A library precondition: restrict the cell, or report definite failure."""
        r = self.ge0(p)
        if r is None:
            self._add_fact(self.norm(p))
            self.assumed.append(why)
            return True
        return r

    # ----- integer division ------------------------------------------------
    def floordiv(self, a, b):
        a = self.norm(a)
        b = self.norm(b)
        if P.is_const(a) and P.is_const(b):
            if b == 0:
                return None
            r = Fraction(a) // Fraction(b)
            return int(r)
        q = P.div_exact(a, b)
        if q is not None:
            return q
        if P.is_const(b) and b > 0 and Fraction(b).denominator == 1:
            b = int(b)
            if P.denominators(a) != 1:
                d = P.denominators(a)
                return self.floordiv(P.scale(a, d), b * d)
            quo, rest = {}, {}
            for m, c in P.terms(a).items():
                q, r = divmod(int(c), b)
                if q:
                    quo[m] = q
                if r:
                    rest[m] = r
            quo, rest = P.mk(quo), P.mk(rest)
            if P.is_const(rest):
                return P.add(quo, rest // b)
            if b & (b - 1) == 0:
                s = self._parity_sym(rest)
                if s is not None:
                    self.parity_split(s)
            return P.add(quo, self._atom("fdiv", (rest, b)))
        return self._atom("fdiv", (a, b))

    def _parity_sym(self, rest):
        best = None
        for m, c in sorted(P.terms(rest).items(), key=lambda mc: [P.atom_key(x) for x in mc[0]]):
            if len(m) == 1 and m[0][0] == "s":
                if best is None or m[0][1] < best:
                    best = m[0][1]
        return best

    def mod(self, a, b):
        a = self.norm(a)
        b = self.norm(b)
        if P.is_const(a) and P.is_const(b):
            return a % b if b else None
        if P.is_const(b) and b > 0 and P.denominators(a) == 1:
            rest = P.mk({m: int(c) % b for m, c in P.terms(a).items()})
            if P.is_const(rest):
                return rest % b
            if b & (b - 1) == 0:
                s = self._parity_sym(rest)
                if s is not None:
                    self.parity_split(s)
            return self._atom("mod", (rest, b))
        if P.div_exact(a, b) is not None:
            return 0
        return self._atom("mod", (a, b))

    def _atom(self, name, args):
        a = ("f", name, args)
        if a in self.atomval:
            return self.atomval[a]
        return P.of_atom(a)

    # ----- concretisation witness --------------------------------------------
    def witness(self, polys=(), pred=None, limit=6000, span=14):
        """A concrete point of the cell (satisfying every fact) with pred(env)."""
        syms = set()
        for p in list(polys) + self.facts + self.eqs:
            syms |= P.all_symbols(p)
        for a in self.atomval:
            for x in a[2]:
                syms |= P.all_symbols(x)
        syms = sorted(syms)
        if not syms:
            env = {}
            if self._holds(env) and (pred is None or pred(env)):
                return env
            return None
        lows = [int(self.atom_bounds(("s", s))[0] or 0) for s in syms]
        his = [self.atom_bounds(("s", s))[1] for s in syms]
        n = 0
        for total in range(0, span * 2):
            for offs in _compositions(total, len(syms)):
                n += 1
                if n > limit:
                    return None
                vals = [l + o for l, o in zip(lows, offs)]
                if any(h is not None and v > h for v, h in zip(vals, his)):
                    continue
                env = dict(zip(syms, vals))
                try:
                    if self._holds(env) and (pred is None or pred(env)):
                        return env
                except P.NoEval:
                    return None
                except ZeroDivisionError:
                    continue
        return None

    def _holds(self, env):
        for f in self.facts:
            if P.evalp(f, env) < 0:
                return False
        for e in self.eqs:
            if P.evalp(e, env) != 0:
                return False
        for a, v in self.atomval.items():
            try:
                if P.eval_atom(a, env) != (P.evalp(v, env) if isinstance(v, Poly) else v):
                    return False
            except P.NoEval:
                if a[1].startswith("len"):
                    continue
                raise
        return True

    def infeasible(self):
        """A fact of the cell contradicts the ranges of its symbols."""
        for p in list(self.facts):
            self.facts.remove(p)
            try:
                if self.ge0(P.sub(P.neg(p), 1)):
                    return True
            finally:
                self.facts.append(p)
        return False

    def describe(self):
        out = []
        for a in self.assumptions:
            out.append(show_assumption(a))
        return out


def _compositions(total, k):
    if k == 1:
        yield (total,)
        return
    for i in range(total + 1):
        for rest in _compositions(total - i, k - 1):
            yield (i,) + rest


def _occurs(a, b):
    if b[0] == "s":
        return a == b
    return any(
        isinstance(x, Poly) and any(a == c or _occurs(a, c) for c in P.atoms(x)) for x in b[2]
    )


def _linear_single(f):
    """(atom, coef, const) if f = coef*atom + const."""
    k = 0
    res = None
    for m, c in P.terms(f).items():
        if m == ():
            k = c
        elif len(m) == 1 and res is None:
            res = (m[0], c)
        else:
            return None
    if res is None:
        return None
    return res[0], res[1], k


def show_assumption(a):
    if a[0] == "sub":
        return "%s := %s" % (a[1], P.show(a[2]))
    if a[0] == "ge":
        return "%s >= 0" % P.show(a[1])
    if a[0] == "eq0":
        return "%s == 0" % P.show(a[1])
    if a[0] == "atom":
        return "%s == %s" % (P.show_atom(a[1]), P.show(a[2]))
    if a[0] == "tok":
        return "[%s] is %s" % (a[1], a[2])
    return str(a)


def flatten(options):
    """Assumption options, each possibly an ('all', ...) conjunction -> tuples."""
    out = []
    for o in options:
        if o[0] == "all":
            out.append(tuple(o[1]))
        else:
            out.append((o,))
    return out


def explore(run, max_cells=400, max_depth=40):
    """Analyse ``run(cell)`` on a refining partition; yields (cell, result|None, note)."""
    work = [()]
    done = 0
    while work:
        ass = work.pop()
        done += 1
        if done > max_cells:
            yield Cell(()), None, "partition budget exhausted (%d cells pending)" % (len(work) + 1)
            return
        try:
            cell = Cell(ass)
            res = run(cell)
        except NeedSplit as s:
            if len(ass) > max_depth:
                yield Cell(()), None, "partition depth exhausted"
                continue
            for o in reversed(flatten(s.options)):
                work.append(ass + o)
            continue
        except Excluded as e:
            if e.reason != "infeasible cell":
                yield Cell(()), None, "excluded: " + e.reason
            continue
        yield cell, res, None
