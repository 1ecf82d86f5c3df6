"""What the transforms are specified to compute, in the vocabulary of labels.py."""

from __future__ import annotations

import itertools
from fractions import Fraction

from . import labels as L
from . import poly as P
from .dense import Undense, dense_lin, differ, generic_bank, pr_bank
from .poly import Poly
from .values import *


class TI:
    """One analysis/synthesis pair of the public interface."""

    def __init__(self, key, nd, kind, dec, rec, axkw, dec_opts=None, rec_opts=None, swap_hv=False, def_mode="reflect"):
        self.key, self.nd, self.kind, self.dec, self.rec, self.axkw = key, nd, kind, dec, rec, axkw
        self.dec_opts, self.rec_opts = dec_opts or {}, rec_opts or {}
        self.swap_hv = swap_hv
        self.def_mode = def_mode


TRANSFORMS = {
    t.key: t
    for t in (
        TI("wavedec", 1, "conv", "wavedec", "waverec", "axis"),
        TI("wavedec2", 2, "conv", "wavedec2", "waverec2", "axes"),
        TI("wavedec3", 3, "conv", "wavedec3", "waverec3", "axes", def_mode="zero"),
        TI("fswavedec2", 2, "conv", "fswavedec2", "fswaverec2", "axes"),
        TI("fswavedec3", 3, "conv", "fswavedec3", "fswaverec3", "axes"),
        TI("swt", 1, "swt", "swt", "iswt", "axis"),
        TI("MatrixWavedec", 1, "mat", "MatrixWavedec", "MatrixWaverec", "axis"),
        TI("MatrixWavedec2-sep", 2, "mat", "MatrixWavedec2", "MatrixWaverec2", "axes", {"separable": True}, {"separable": True}, swap_hv=True),
        TI("MatrixWavedec2-nonsep", 2, "mat", "MatrixWavedec2", "MatrixWaverec2", "axes", {"separable": False}, {"separable": False}),
        TI("MatrixWavedec3", 3, "mat", "MatrixWavedec3", "MatrixWaverec3", "axes"),
    )
}
NONSEP = "MatrixWavedec2-nonsep"
FIELDS = {"da": "horizontal", "ad": "vertical", "dd": "diagonal"}


def detail_bands(nd):
    return ["".join(c) for c in itertools.product("ad", repeat=nd)][1:]


def uses_dict(t):
    return t.nd == 3 or t.key.startswith("fs")


def leaves(t, level):
    """(path, [band letters of level 1, level 2, ...]) of every coefficient tensor."""
    a = "a" * t.nd
    yield (0,), [a] * level
    for i in range(1, level + 1):
        chain = [a] * (level - i)
        for b in detail_bands(t.nd):
            if t.nd == 1:
                yield (i,), chain + [b]
            elif uses_dict(t):
                yield (i, b), chain + [b]
            else:
                yield (i, "." + FIELDS[b]), chain + [b]


class Shape(Exception):
    """The coefficient container does not have the documented structure."""


def items_of(v, what):
    if isinstance(v, (ListV, TupV)) and v.star is None:
        return list(v.items)
    if isinstance(v, (ListV, TupV, TopV)):
        raise Undense("container of unknown length")
    raise Shape("%s is a %s, not a sequence" % (what, type(v).__name__))


def structure(I, t, coeffs, level):
    """{path: tensor}; raises Shape when the nesting, count or names are wrong."""
    it = items_of(coeffs, "the result")
    if len(it) != level + 1:
        raise Shape("%d entries instead of %d (approximation and %d detail levels)" % (len(it), level + 1, level))
    res = {}
    for i, c in enumerate(it):
        if isinstance(c, TopV):
            raise Undense("unknown coefficient entry")
        if i == 0 or t.nd == 1:
            if not isinstance(c, TensorV):
                raise Shape("entry %d is a %s, not a tensor" % (i, type(c).__name__))
            res[(i,)] = c
        elif uses_dict(t):
            if not isinstance(c, DictV) or c.star is not None:
                if isinstance(c, DictV):
                    raise Undense("dict with unknown keys")
                raise Shape("entry %d is a %s, not a dict of details" % (i, type(c).__name__))
            keys = [k for k, _ in c.items.values()]
            if sorted(map(str, keys)) != sorted(detail_bands(t.nd)):
                raise Shape("entry %d has the keys %s" % (i, sorted(map(str, keys))))
            for k, v in c.items.values():
                res[(i, k)] = v
        else:
            if not isinstance(c, TupV) or len(c.items) != 3:
                raise Shape("entry %d is not a tuple of three details" % i)
            if c.cls is None or c.cls.name != "WaveletDetailTuple2d":
                raise Shape("entry %d is not a WaveletDetailTuple2d" % i)
            for f in ("horizontal", "vertical", "diagonal"):
                res[(i, "." + f)] = I.getattr(c, f)
    return res


# ----- lengths ------------------------------------------------------------------------

def out_len(cell, kind, n, F):
    if kind == "conv":
        return cell.floordiv(P.sub(P.add(n, F), 1), 2)
    if kind == "swt":
        return n
    return cell.floordiv(P.add(n, 1), 2)


def len_chain(cell, kind, n, F, depth):
    for _ in range(depth):
        n = out_len(cell, kind, n, F)
    return cell.norm(n)


def max_level(kind, ns, F):
    """Levels of a transform called with level=None (concrete sizes)."""
    if kind == "swt":
        n, l = min(ns), 0
        while n % 2 == 0:
            n, l = n // 2, l + 1
        return l
    l = 0
    while min(ns) >= (F - 1) * 2 ** (l + 1):
        l += 1
    return l


def mat_levels(cell, ns, F, level):
    """Levels the boundary matrices compute: stops once an axis is shorter than F.

    The one-dimensional transform makes the length of its input even beforehand.
    """
    ns = [P.add(n, 1) if len(ns) == 1 and _odd(cell, n) else n for n in ns]
    for l in range(level):
        if any(not _ge(cell, n, F) for n in ns):
            return l
        ns = [out_len(cell, "mat", n, F) for n in ns]
    return level


def _ge(cell, n, F):
    return cell.decide_ge(cell.norm(P.sub(n, F)))


# ----- contents ---------------------------------------------------------------------

SLOT = {"a": "dec_lo", "d": "dec_hi"}


def _odd(cell, n):
    return cell.mod(n, 2) == 1


def mat_op(n, F, method, slots=("dec_lo", "dec_hi")):
    return ("O", ("cat", tuple(("S", ((s, False),), n, 2, "sameshift") for s in slots)), F, method)


def axis_label(cell, kind, base, letters, F, mode, method="qr", odd_mode="zero", pad1=False):
    """Label of one axis after the given chain of bands."""
    y = base
    for l, c in enumerate(letters):
        n = L.size(y)
        if kind == "conv":
            y = ("co", SLOT[c], "-", 2, 1, 1, out_len(cell, "conv", n, F), mode, y)
        elif kind == "swt":
            dil = 2 ** l
            y = ("co", SLOT[c], "-", 1, dil, cell.norm(P.mul(dil, cell.floordiv(F, 2))), n, "periodic", y)
        else:
            if _odd(cell, n):
                y = L.ext(cell, odd_mode, 0, P.add(n, 1), y)
                n = P.add(n, 1)
            n = cell.norm(n)
            half = cell.floordiv(n, 2)
            y = L.ext(cell, "none", 0 if c == "a" else half, half, ("mm", mat_op(n, F, method), y, n))
    if not letters and pad1 and _odd(cell, L.size(y)):
        y = L.ext(cell, odd_mode, 0, P.add(L.size(y), 1), y)
    return y


def fold(parts):
    """fold(unfold0(y), unfold1(y), ...) is y again."""
    if all(p[0] == "u" and p[1] == i and p[2:] == parts[0][2:] for i, p in enumerate(parts)) and len(parts) == len(parts[0][3]):
        return parts[0][2]
    return ("fold", tuple(parts))


S2BLOCKS = ("aa", "da", "ad", "dd")


def nonsep_labels(cell, bases, letters, F, method, odd_mode="zero"):
    """Labels of the (row, column) axes of the non-separable 2d boundary transform."""
    ys = list(bases)
    for bands in letters:
        ns = []
        for k in range(2):
            n = L.size(ys[k])
            if _odd(cell, n):
                ys[k] = L.ext(cell, odd_mode, 0, P.add(n, 1), ys[k])
                n = P.add(n, 1)
            ns.append(cell.norm(n))
        h, w = ns
        blocks = tuple(("S2", ((SLOT[b[0]], False), (SLOT[b[1]], False)), h, w, 2, "sameshift") for b in S2BLOCKS)
        hh, ww = cell.floordiv(h, 2), cell.floordiv(w, 2)
        q = cell.norm(P.mul(hh, ww))
        k = S2BLOCKS.index(bands)
        m = ("mm", ("O", ("cat", blocks), cell.norm(P.mul(F, F)), method), fold((ys[1], ys[0])), cell.norm(P.mul(h, w)))
        y = ("ext", "none", cell.norm(P.mul(k, q)), q, m)
        ys = [("u", 1, y, (ww, hh)), ("u", 0, y, (ww, hh))]
    return ys


def content(cell, t, src, axes, dims, letters, F, mode, method="qr"):
    """Expected linear form: {(src, labels): 1} of the band reached by ``letters``."""
    labels = [("ax", "%s.%d" % (src, i), n) for i, n in enumerate(dims)]
    if t.key == NONSEP:
        # the axes tuple names (rows, columns)
        a, b = nonsep_labels(cell, [labels[x] for x in axes], letters, F, method)
        labels[axes[0]], labels[axes[1]] = a, b
    else:
        for j, x in enumerate(axes):
            labels[x] = axis_label(cell, t.kind, labels[x], [l[j] for l in letters], F, mode, method, pad1=t.key == "MatrixWavedec")
    return {(src, tuple(labels)): 1}


# ----- comparing contents ---------------------------------------------------------------

def shift_period(off, mode, n):
    """The offset reduced by whole periods of an extension of length n."""
    per = {"periodic": n, "symmetric": P.mul(2, n), "reflect": P.mul(2, P.sub(n, 1))}.get(mode)
    if per is None or per == 0:
        return off
    t = P.terms(per)
    m = min(t, key=lambda k: (-len(k), repr(k)))
    k = (Fraction(P.terms(off).get(m, 0)) / Fraction(t[m])).__floor__()
    return P.sub(off, P.mul(k, per)) if k else off


def canon(l, cell=None):
    """Block selections of an orthogonalised operator name the band they select."""
    if not isinstance(l, tuple):
        return l
    if l and l[0] == "ext" and l[1] == "none" and l[4][0] == "mm" and l[4][1][0] == "O" and l[4][1][1][0] == "cat":
        _, _, start, length, (_, op, y, rows) = l
        blocks = op[1][1]
        q = P.div_exact(start, length)
        if isinstance(q, int) and 0 <= q < len(blocks) and P.mul(len(blocks), length) == rows:
            return ("blk", blocks[q], tuple(sorted(map(repr, blocks))), op[2], op[3], canon(y, cell), rows)
    l = tuple(canon(x, cell) for x in l)
    if l and l[0] == "fold" and all(p[0] == "u" for p in l[1]):
        return fold(l[1])
    if cell is not None and l and l[0] == "co" and l[7] != "none":
        _, slot, sg, s, d, off, sz, mode, y = l
        if not any(z in repr(y[0]) for z in ("blk",)):
            span = P.mul(d, P.sub(cell.filt_len, 1))
            lo = P.sub(off, span) if sg == "-" else off
            hi = P.add(off, P.mul(s, P.sub(sz, 1)))
            if sg != "-":
                hi = P.add(hi, span)
            try:
                n = L.size(y)
            except KeyError:
                return l
            if cell.ge0(lo) and cell.ge0(P.sub(P.sub(n, 1), hi)):
                return l[:7] + ("none", y)
            return l[:5] + (shift_period(off, mode, n),) + l[6:]
    if cell is not None and l and l[0] == "ext" and l[1] not in ("none", "zero", "constant"):
        try:
            return l[:2] + (shift_period(l[2], l[1], L.size(l[4])),) + l[3:]
        except KeyError:
            pass
    return l


def canon_lin(cell, lin):
    r = {}
    for (s, ls), v in lin.items():
        k = (s, tuple(canon(L.norm_poly(cell, x), cell) for x in ls))
        r[k] = r.get(k, 0) + v
    return {k: v for k, v in r.items() if v}


def full_lin(c):
    """The linear form of a content without enumerated dims (or None)."""
    if c is None or any(k != "L" for k in c.kinds):
        return None
    return c.ent.get((), None)


def lin_syms(lin):
    r = set()

    def rec(x):
        if isinstance(x, Poly):
            r.update(P.all_symbols(x))
        elif isinstance(x, tuple):
            for y in x:
                rec(y)

    for (s, ls) in lin:
        rec(ls)
    return r


def polys_of(lin):
    r = []

    def rec(x):
        if isinstance(x, Poly):
            r.append(x)
        elif isinstance(x, tuple):
            for y in x:
                rec(y)

    for (s, ls) in lin:
        rec(ls)
    return r


class _Stop(Exception):
    pass


def witness_iter(cell, polys, f, tries):
    """Run f(env) on up to ``tries`` points of the cell until it returns something."""
    state = {"n": 0, "r": None}
    polys = [p for p in polys if isinstance(p, Poly)]
    F = getattr(cell, "filt_len", None)
    if isinstance(F, Poly):
        polys.append(F)

    def pred(env):
        env = dict(env)
        env["__F__"] = P.evalp(F, env) if F is not None else None
        state["n"] += 1
        r = f(env)
        if r is not None:
            state["r"] = (env, r)
            return True
        if state["n"] >= tries:
            raise _Stop
        return False

    try:
        cell.witness(polys, pred)
    except _Stop:
        pass
    return state["r"]


def fixed(cell, *lins):
    """All lengths in the forms are numbers, except those of axes taken over unchanged."""
    if isinstance(getattr(cell, "filt_len", None), Poly):
        return False
    whole = [ls for lin in lins for (_, ls) in lin]
    if len({len(ls) for ls in whole}) != 1:
        return False
    for i in range(len(whole[0])):
        col = {ls[i] for ls in whole}
        if len(col) == 1 and next(iter(col))[0] == "ax":
            continue
        if any(lin_syms({(None, (x,)): 1}) for x in col):
            return False
    return True


def fuzzy(cell, names):
    return any(str(s).startswith("len") or "@" in str(s) for s in names)


def compare(cell, got, want, bank="generic", tries=8):
    """('same'|'differ'|'unknown', detail)"""
    if got is None:
        return "unknown", "content not tracked"
    if canon_lin(cell, got) == canon_lin(cell, want):
        return "same", None
    if cell.soft:
        return "unknown", "cell depends on a condition the analysis cannot decide"
    if fuzzy(cell, lin_syms(got) | lin_syms(want)):
        return "unknown", "lengths of unknown origin"
    why = []

    def f(env):
        try:
            b = generic_bank(env["__F__"]) if bank == "generic" else pr_bank(env["__F__"])
            d = differ(dense_lin(got, env, b), dense_lin(want, env, b))
        except (Undense, ZeroDivisionError, P.NoEval, RecursionError) as e:
            why.append(str(e))
            return None
        return d

    done = []

    def g(env):
        n = len(why)
        d = f(env)
        if d is None and len(why) == n:
            done.append(1)
        return d

    r = witness_iter(cell, polys_of(got) + polys_of(want), g, tries)
    if r is None and done and not why and fixed(cell, got, want):
        # every length is known: the evaluation covers all outputs of the cell
        return "same", None
    if r is None:
        return "unknown", "forms differ in shape but not at %d sample points %s" % (tries, sorted(set(why))[:2])
    env, d = r
    return "differ", (env, d)


def compare_len(cell, got, want, tries=12):
    if not is_int(got):
        return "unknown", "length not tracked"
    diff = cell.norm(P.sub(got, want))
    if diff == 0 or (isinstance(diff, Poly) and cell.known_eq(diff)):
        return "same", None
    if cell.soft:
        return "unknown", "cell depends on a condition the analysis cannot decide"
    if isinstance(diff, Poly) and fuzzy(cell, P.all_symbols(diff)):
        return "unknown", "length of unknown origin"

    def f(env):
        try:
            a, b = P.evalp(got, env), P.evalp(want, env)
        except P.NoEval:
            return None
        return (a, b) if a != b else None

    r = witness_iter(cell, [got, want], f, 200)
    if r is None:
        return "unknown", "lengths %s and %s not separated" % (P.show(got) if isinstance(got, Poly) else got, P.show(want) if isinstance(want, Poly) else want)
    return "differ", r


def feasible(cell):
    """A concrete point of the cell, or None."""
    r = witness_iter(cell, [], lambda env: True, 1)
    if r is None and not cell.facts and not cell.eqs:
        return {}
    return r[0] if r else None


def show_env(env):
    return ", ".join("%s=%s" % ("F" if k == "__F__" else k, v) for k, v in sorted(env.items()))
