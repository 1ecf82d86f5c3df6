"""Content domain: what a tensor holds, as a separable linear form of its sources.

A tensor content is a sum of *terms*; a term is a coefficient, a source (the input
tensor it reads) and, for every dimension, a *label* saying which one-dimensional
linear operator produced that dimension from the source's axis.  Dimensions of known
small extent (channels) are enumerated instead of labelled.

Labels are tuples; lengths inside are abstract integers (see poly.py).
"""

from __future__ import annotations

from fractions import Fraction

from . import poly as P
from .poly import Poly

MAX_ENT = 600
MAX_TERMS = 80


class Cont:
    __slots__ = ("kinds", "ent")

    def __init__(self, kinds, ent):
        self.kinds = tuple(kinds)  # 'E' enumerated / 'L' labelled, per dim
        self.ent = ent  # {E-index tuple: {(src, labels): coef}}

    def __eq__(self, o):
        return isinstance(o, Cont) and self.kinds == o.kinds and self.ent == o.ent

    def __repr__(self):
        return "Cont(%s,%s)" % ("".join(self.kinds), {k: [show_term(t, c) for t, c in v.items()] for k, v in self.ent.items()})


def single(src, kinds, labels):
    return Cont(kinds, {(0,) * sum(k == "E" for k in kinds): {(src, tuple(labels)): Fraction(1)}})


def lin_add(a, b, f=1):
    r = dict(a)
    for k, v in b.items():
        c = r.get(k, 0) + f * v
        if c == 0:
            r.pop(k, None)
        else:
            r[k] = c
    return r


def size(l):
    k = l[0]
    if k == "ax":
        return l[2]
    if k == "flt":
        return l[3]
    if k == "ext":
        return l[3]
    if k == "rev":
        return size(l[1])
    if k in ("co", "ct"):
        return l[6]
    if k == "prw":
        return l[4]
    if k == "emb":
        return l[3]
    if k == "mm":
        return l[3]
    if k == "fold":
        r = 1
        for x in l[1]:
            r = P.mul(r, size(x))
        return r
    if k == "u":
        return l[3][l[1]]
    raise KeyError(k)


def norm_poly(cell, l):
    """Re-normalise every length in a label with the cell's current knowledge."""
    if isinstance(l, Poly):
        return cell.norm(l)
    if isinstance(l, tuple):
        return tuple(norm_poly(cell, x) for x in l)
    return l


# ----- one-dimensional operators ------------------------------------------------

def ext(cell, mode, start, length, y):
    n = size(y)
    if start == 0 and length == n and y[0] != "prw":
        return y
    if mode != "none" and cell.ge0(start) and cell.ge0(P.sub(n, P.add(start, length))):
        mode = "none"
    if mode == "none":
        if y[0] == "ext":
            return ext(cell, y[1], P.add(y[2], start), length, y[4])
        if y[0] == "co":
            _, slot, sg, s, d, off, sz, md, yy = y
            return ("co", slot, sg, s, d, P.add(off, P.mul(s, start)), length, md, yy)
        if y[0] == "ct":
            _, slot, sg, s, d, off, sz, x = y
            return ("ct", slot, sg, s, d, P.add(off, start), length, x)
        if y[0] == "prw":
            _, lo, hi, off, sz, sh, md, yy = y
            o2 = P.add(off, start)
            if cell.ge0(P.sub(o2, lo)) and cell.ge0(P.sub(hi, P.add(o2, length))):
                return ext(cell, md, P.add(o2, sh), length, yy)
            return ("prw", lo, hi, o2, length, sh, md, yy)
        if y[0] == "rev":
            inner = ext(cell, "none", P.sub(n, P.add(start, length)), length, y[1])
            return rev(inner)
        if y[0] == "fold" and len(y[1]) == 1:
            return ext(cell, mode, start, length, y[1][0])
    elif y[0] == "ext" and y[1] == mode:
        b = y[4]
        nb = size(b)
        if mode in ("zero", "constant"):
            if cell.ge0(P.neg(y[2])) and cell.ge0(P.sub(P.add(y[2], y[3]), nb)):
                return ext(cell, mode, P.add(y[2], start), length, b)
        if mode == "periodic":
            q = P.div_exact(y[3], nb)
            if q is not None:
                return ext(cell, mode, P.add(y[2], start), length, b)
        if mode == "symmetric":
            if P.div_exact(y[2], nb) is not None and P.div_exact(y[3], nb) is not None:
                return ext(cell, mode, P.add(y[2], start), length, b)
    return ("ext", mode, start, length, y)


def rev(y):
    if y[0] == "rev":
        return y[1]
    if y[0] == "flt":
        return ("flt", y[1], not y[2], y[3])
    return ("rev", y)


def narrow(cell, y, start, length):
    if y[0] == "emb":
        return None  # handled on lincombs
    return ext(cell, "none", start, length, y)


def base_of(y):
    """(mode, start, length, base) view of a label as an extension of its base."""
    if y[0] == "ext":
        return y[1], y[2], y[3], y[4]
    return "none", 0, size(y), y


def corr(cell, y, flt, stride, dil, pad, out):
    """Label of a correlation of label y with taps flt (valid positions, zero pad)."""
    slot, reversed_, F = flt[1], flt[2], flt[3]
    mode, start, length, b = base_of(y)
    if pad != 0:
        if mode == "none":
            if y[0] == "ext":  # a slice: zero padding applies to the slice
                mode, start, b = "zero", 0, y
            else:
                mode = "zero"
        elif mode == "zero" and cell.ge0(P.neg(start)) and cell.ge0(P.sub(P.add(start, length), size(b))):
            pass
        else:
            mode, start, b = "zero", 0, y
        start = P.sub(start, pad)
    if reversed_:
        return ("co", slot, "-", stride, dil, P.add(start, P.mul(dil, P.sub(F, 1))), out, mode, b)
    return ("co", slot, "+", stride, dil, start, out, mode, b)


def tconv(cell, x, flt, stride, dil, pad, out):
    slot, reversed_, F = flt[1], flt[2], flt[3]
    if stride == 1:
        # ordinary convolution: inside the support it reads the extension
        mode, start, length, b = base_of(x)
        span = P.mul(dil, P.sub(F, 1))
        inside = cell.ge0(P.sub(pad, span)) and cell.ge0(
            P.sub(P.sub(length, P.sub(P.add(out, pad), 1)), 1)
        )
        if inside:
            o = P.add(start, pad)
            if reversed_:
                return ("co", slot, "+", 1, dil, P.sub(o, span), out, mode, b)
            return ("co", slot, "-", 1, dil, o, out, mode, b)
    return ("ct", slot, "-" if reversed_ else "+", stride, dil, pad, out, x)


def _filters(l):
    return l[1]


_PAIR = {"rec_lo": "rec_hi", "dec_lo": "dec_hi"}


def pr_pair(cell, a, b, ca, cb):
    """Perfect-reconstruction rule for one dimension.

    ``a``/``b`` are the labels of two terms that agree everywhere else.  Returns
    (label, coef) when low- and high-pass channels recombine, else None.
    """
    if a[0] == "ct" and b[0] == "ct" and ca == cb:
        if a[1] != "rec_lo" and b[1] == "rec_lo":
            a, b = b, a
        if (a[1], b[1]) == ("rec_lo", "rec_hi") and a[2:7] == b[2:7] and a[2] == "+" and a[3] == 2 and a[4] == 1:
            x, y = a[7], b[7]
            if x[0] == "co" and y[0] == "co" and (x[1], y[1]) == ("dec_lo", "dec_hi") and x[2:] == y[2:]:
                if x[2] == "-" and x[3] == 2 and x[4] == 1:
                    _, _, _, _, _, off, sz, mode, base = x
                    F = getattr(cell, "filt_len", None)
                    if F is None:
                        return None
                    lo = P.sub(F, 2)
                    hi = P.mul(2, sz)
                    sh = P.sub(off, P.sub(F, 1))
                    # the full output is positions 0..; a[5] is the first kept one
                    return ext(cell, "none", a[5], a[6], ("prw", lo, hi, 0, P.add(a[5], a[6]), sh, mode, base)), ca
        return None
    if a[0] == "co" and b[0] == "co" and ca == cb:
        if a[1] != "rec_lo" and b[1] == "rec_lo":
            a, b = b, a
        if (a[1], b[1]) == ("rec_lo", "rec_hi") and a[2:8] == b[2:8] and a[2] == "-" and a[3] == 1:
            x, y = a[8], b[8]
            if (
                x[0] == "co" and y[0] == "co" and (x[1], y[1]) == ("dec_lo", "dec_hi") and x[2:] == y[2:]
                and x[2] == "-" and x[3] == 1 and x[4] == a[4] and x[7] == "periodic" and a[7] == "periodic"
                and x[6] == size(x[8])
            ):
                F = getattr(cell, "filt_len", None)
                if F is None:
                    return None
                sh = P.sub(P.add(a[5], x[5]), P.mul(a[4], P.sub(F, 1)))
                r = ext(cell, "periodic", sh, a[6], x[8])
                n = size(x[8])
                if a[6] == n and P.div_exact(sh, n) is not None:
                    r = x[8]
                return r, 2 * ca
    return None


def simplify(cell, lin):
    """Apply the recombination rules until nothing changes."""
    if len(lin) < 2:
        return lin
    changed = True
    lin = dict(lin)
    while changed and len(lin) > 1:
        changed = False
        keys = list(lin)
        for i in range(len(keys)):
            for j in range(i + 1, len(keys)):
                (s1, l1), (s2, l2) = keys[i], keys[j]
                if s1 != s2 or len(l1) != len(l2):
                    continue
                diff = [k for k in range(len(l1)) if l1[k] != l2[k]]
                if len(diff) != 1:
                    continue
                d = diff[0]
                r = pr_pair(cell, l1[d], l2[d], lin[keys[i]], lin[keys[j]])
                if r is None:
                    r = emb_merge(cell, l1[d], l2[d], lin[keys[i]], lin[keys[j]])
                if r is None:
                    continue
                lab, c = r
                del lin[keys[i]], lin[keys[j]]
                nk = (s1, l1[:d] + (lab,) + l1[d + 1:])
                lin = lin_add(lin, {nk: c})
                changed = True
                break
            if changed:
                break
    return lin


def emb_merge(cell, a, b, ca, cb):
    if a[0] != "emb" or b[0] != "emb" or ca != cb:
        return None
    if a[3] != b[3]:
        return None
    for x, y in ((a, b), (b, a)):
        if P.add(x[1], size(x[2])) == y[1]:
            r = unify_cat(cell, [x[2], y[2]])
            if r is not None:
                tot = P.add(size(x[2]), size(y[2]))
                if x[1] == 0 and tot == a[3]:
                    return r, ca
                return ("emb", x[1], r, a[3]), ca
    return None


def _pieces(y):
    """(reversed?, mode, start, length, base)"""
    if y[0] == "rev":
        m, s, l, b = base_of(y[1])
        return True, m, s, l, b
    m, s, l, b = base_of(y)
    return False, m, s, l, b


def _multiple(diff, unit):
    if diff == 0:
        return True
    q = P.div_exact(diff, unit)
    return q is not None and P.is_const(q)


def _as_windows(ls):
    """Rewrite co/ct/mm pieces so that adjacent windows of one producer are visible."""
    out = []
    for y in ls:
        if y[0] == "co":
            out.append((("co", y[1], y[2], y[3], y[4], y[7], y[8]), y[5], y[6], y[3]))
        elif y[0] == "ct":
            out.append((("ct", y[1], y[2], y[3], y[4], y[7]), y[5], y[6], 1))
        else:
            return None
    return out


def unify_cat(cell, ls):
    """One label equal to the concatenation of the given labels, or None."""
    ws = _as_windows(ls)
    if ws is not None:
        k0, o, n, st = ws[0]
        for k, o2, n2, st2 in ws[1:]:
            if k != k0 or o2 != P.add(o, P.mul(st, n)):
                break
            n = P.add(n, n2)
        else:
            y = ls[0]
            return y[:5] + (o, n) + y[7:]
    ps = [_pieces(y) for y in ls]
    b = None
    cands = []
    for p in ps:
        cands.append(p[4])
    for cand in cands:
        for mode in ("none", "symmetric", "periodic", "reflect"):
            r = _try_unify(cell, ls, cand, mode)
            if r is not None:
                return r
    return None


def _window_start(z, base):
    """Position of window z inside the window ``base`` of the same producer."""
    wz, wb = _as_windows([z]), _as_windows([base])
    if wz is None or wb is None or wz[0][0] != wb[0][0]:
        return None
    return P.div_exact(P.sub(wz[0][1], wb[0][1]), wb[0][3])


def _try_unify(cell, ls, base, mode):
    n = size(base)
    views = []
    for y in ls:
        rv = y[0] == "rev"
        z = y[1] if rv else y
        if z == base:
            views.append((rv, "none", 0, n))
        elif z[0] == "ext" and z[4] == base:
            views.append((rv, z[1], z[2], z[3]))
        else:
            st = _window_start(z, base)
            if st is None or not cell.ge0(st) or not cell.ge0(P.sub(n, P.add(st, size(z)))):
                return None
            views.append((rv, "none", st, size(z)))
    if any(v[1] not in ("none", mode) for v in views):
        return None
    # anchor: first non reversed piece
    anchor = None
    for i, v in enumerate(views):
        if not v[0]:
            anchor = i
            break
    if anchor is None:
        return None
    pos = views[anchor][2]
    for v in views[:anchor]:
        pos = P.sub(pos, v[3])
    start = pos
    tot = 0
    cur = start
    for rv, m, s, l in views:
        if mode == "none":
            if rv or s != cur:
                return None
        elif mode == "symmetric":
            d = P.add(P.add(s, l), cur) if rv else P.sub(s, cur)
            if not _multiple(d, P.mul(2, n)):
                return None
        elif mode == "periodic":
            if rv or not _multiple(P.sub(s, cur), n):
                return None
        elif mode == "reflect":
            d = P.sub(P.add(P.add(s, l), cur), 1) if rv else P.sub(s, cur)
            if not _multiple(d, P.mul(2, P.sub(n, 1))):
                return None
        cur = P.add(cur, l)
        tot = P.add(tot, l)
    return ext(cell, mode, start, tot, base)


# ----- operators (matrices) ----------------------------------------------------

def op_T(op):
    return op[1] if op[0] == "T" else ("T", op)


ANALYSIS = ("dec_lo", "dec_hi")


def mm_apply(cell, op, y, rows):
    """Label of matrix ``op`` applied to label y."""
    if y[0] == "mm" and inverse_ops(op, y[1]):
        return y[2]
    return ("mm", op, y, rows)


def inverse_ops(syn, ana):
    """Is ``syn`` the synthesis partner of the analysis operator ``ana``?"""
    if syn[0] != "T" or syn[1][0] != "O" or ana[0] != "O":
        return False
    s, a = syn[1], ana
    if s[2:] != a[2:]:
        return False
    if s[1][0] != "cat" or a[1][0] != "cat" or len(s[1][1]) != len(a[1][1]):
        return False
    for x, y in zip(s[1][1], a[1][1]):
        if x[0] != y[0] or x[2:] != y[2:]:
            return False
        fx, fy = x[1], y[1]
        if len(fx) != len(fy):
            return False
        for (sx, rx), (sy, ry) in zip(fx, fy):
            if sx.replace("rec_", "") != sy.replace("dec_", "") or not sx.startswith("rec_") or not sy.startswith("dec_"):
                return False
            if ry or not rx:
                return False
    return True


# ----- contents -------------------------------------------------------------------

def permute(c, order):
    kinds = tuple(c.kinds[i] for i in order)
    eidx = [i for i, k in enumerate(c.kinds) if k == "E"]
    lidx = [i for i, k in enumerate(c.kinds) if k == "L"]
    epos = {d: i for i, d in enumerate(eidx)}
    lpos = {d: i for i, d in enumerate(lidx)}
    eo = [epos[d] for d in order if c.kinds[d] == "E"]
    lo = [lpos[d] for d in order if c.kinds[d] == "L"]
    ent = {}
    for k, lin in c.ent.items():
        ent[tuple(k[i] for i in eo)] = {(s, tuple(ls[i] for i in lo)): v for (s, ls), v in lin.items()}
    return Cont(kinds, ent)


def unsqueeze(c, dim):
    kinds = c.kinds[:dim] + ("E",) + c.kinds[dim:]
    p = sum(k == "E" for k in c.kinds[:dim])
    return Cont(kinds, {k[:p] + (0,) + k[p:]: v for k, v in c.ent.items()})


def squeeze(c, dim):
    if c.kinds[dim] != "E":
        return None
    p = sum(k == "E" for k in c.kinds[:dim])
    return Cont(c.kinds[:dim] + c.kinds[dim + 1:], {k[:p] + k[p + 1:]: v for k, v in c.ent.items()})


def select(c, dim, i, n):
    if c.kinds[dim] != "E":
        return None
    p = sum(k == "E" for k in c.kinds[:dim])
    return Cont(c.kinds[:dim] + c.kinds[dim + 1:], {k[:p] + k[p + 1:]: v for k, v in c.ent.items() if k[p] == i})


def lpos(c, dim):
    return sum(k == "L" for k in c.kinds[:dim])


def epos(c, dim):
    return sum(k == "E" for k in c.kinds[:dim])


def map_label(c, dim, f):
    """Apply f(label) -> label | None(unknown) | 0 (zero term) on one labelled dim."""
    p = lpos(c, dim)
    ent = {}
    for k, lin in c.ent.items():
        r = {}
        for (s, ls), v in lin.items():
            n = f(ls[p])
            if n is None:
                return None
            if n == 0:
                continue
            r = lin_add(r, {(s, ls[:p] + (n,) + ls[p + 1:]): v})
        ent[k] = r
    return Cont(c.kinds, ent)


def narrow_dim(cell, c, dim, start, length, n):
    if c.kinds[dim] == "E":
        if not isinstance(start, int) or not isinstance(length, int):
            return None
        p = epos(c, dim)
        return Cont(c.kinds, {k[:p] + (k[p] - start,) + k[p + 1:]: v for k, v in c.ent.items() if start <= k[p] < start + length})

    def f(l):
        if l[0] == "emb":
            at, x, tot = l[1], l[2], l[3]
            sx = size(x)
            a = P.sub(start, at)  # start relative to x
            if cell.ge0(P.sub(a, sx)):
                return 0
            if cell.ge0(P.sub(at, P.add(start, length))):
                return 0
            if cell.ge0(a) and cell.ge0(P.sub(sx, P.add(a, length))):
                return narrow(cell, x, a, length)
            # partially covering
            if cell.ge0(P.neg(a)):
                if cell.ge0(P.sub(P.add(start, length), P.add(at, sx))):
                    return ("emb", P.neg(a), x, length)
                keep = P.sub(P.add(start, length), at)
                return ("emb", P.neg(a), narrow(cell, x, 0, keep), length)
            return None
        return narrow(cell, l, start, length)

    r = map_label(c, dim, f)
    if r is not None:
        r = Cont(r.kinds, {k: simplify(cell, v) for k, v in r.ent.items()})
    return r


def flip_dim(c, dim, n):
    if c.kinds[dim] == "E":
        if not isinstance(n, int):
            return None
        p = epos(c, dim)
        return Cont(c.kinds, {k[:p] + (n - 1 - k[p],) + k[p + 1:]: v for k, v in c.ent.items()})
    return map_label(c, dim, lambda l: ("emb", P.sub(P.sub(l[3], l[1]), size(l[2])), rev(l[2]), l[3]) if l[0] == "emb" else rev(l))


def stack(cs, dim):
    k0 = cs[0].kinds
    if any(c.kinds != k0 for c in cs):
        return None
    kinds = k0[:dim] + ("E",) + k0[dim:]
    p = sum(k == "E" for k in k0[:dim])
    ent = {}
    for i, c in enumerate(cs):
        for k, v in c.ent.items():
            ent[k[:p] + (i,) + k[p:]] = v
    return Cont(kinds, ent) if len(ent) <= MAX_ENT else None


def e_to_l(c, dim):
    return None


def cat(cell, cs, dim, sizes):
    k0 = cs[0].kinds
    if any(c.kinds != k0 for c in cs):
        return None
    if k0[dim] == "E":
        p = epos(cs[0], dim)
        ent = {}
        at = 0
        for c, n in zip(cs, sizes):
            if not isinstance(n, int):
                return None
            for k, v in c.ent.items():
                ent[k[:p] + (k[p] + at,) + k[p + 1:]] = v
            at += n
        return Cont(k0, ent) if len(ent) <= MAX_ENT else None
    p = lpos(cs[0], dim)
    tot = 0
    for n in sizes:
        tot = P.add(tot, n)
    ent = {}
    for k in cs[0].ent:
        lins = [c.ent.get(k, {}) for c in cs]
        # single-term pieces with a common rest: try to unify into one extension
        done = False
        if all(len(l) == 1 for l in lins):
            ts = [next(iter(l.items())) for l in lins]
            rest = {(s, ls[:p] + ls[p + 1:], v) for (s, ls), v in ts}
            if len(rest) == 1:
                u = unify_cat(cell, [ls[p] for (s, ls), v in ts])
                if u is not None:
                    (s, ls), v = ts[0]
                    ent[k] = {(s, ls[:p] + (u,) + ls[p + 1:]): v}
                    done = True
        if not done:
            r = {}
            at = 0
            for l, n in zip(lins, sizes):
                for (s, ls), v in l.items():
                    y = ls[p]
                    if y[0] == "emb":
                        e = ("emb", P.add(at, y[1]), y[2], tot)
                    else:
                        e = ("emb", at, y, tot)
                    r = lin_add(r, {(s, ls[:p] + (e,) + ls[p + 1:]): v})
                at = P.add(at, n)
            ent[k] = simplify(cell, r)
            if len(ent[k]) > MAX_TERMS:
                return None
    return Cont(k0, ent)


def lincomb(a, b, f):
    """a + f*b for identically shaped contents."""
    if a.kinds != b.kinds:
        return None
    ent = {}
    for k in set(a.ent) | set(b.ent):
        ent[k] = lin_add(a.ent.get(k, {}), b.ent.get(k, {}), f)
    return Cont(a.kinds, ent)


def scale(a, f):
    return Cont(a.kinds, {k: {t: v * f for t, v in l.items()} if f else {} for k, l in a.ent.items()})


def product(a, b, da, db):
    """Elementwise product with broadcasting (E-size-1 against anything)."""
    n = max(len(a.kinds), len(b.kinds))
    while len(a.kinds) < n:
        a = unsqueeze(a, 0)
        da = (1,) + tuple(da)
    while len(b.kinds) < n:
        b = unsqueeze(b, 0)
        db = (1,) + tuple(db)
    kinds = []
    for i in range(n):
        ka, kb = a.kinds[i], b.kinds[i]
        if ka == "L" and kb == "L":
            return None
        if ka == "L":
            if db[i] != 1:
                return None
            kinds.append("L")
        elif kb == "L":
            if da[i] != 1:
                return None
            kinds.append("L")
        else:
            if da[i] != db[i] and 1 not in (da[i], db[i]):
                return None
            kinds.append("E")
    ent = {}
    for k1, l1 in a.ent.items():
        for k2, l2 in b.ent.items():
            i1 = i2 = 0
            key = []
            ok = True
            for i in range(n):
                e1 = e2 = None
                if a.kinds[i] == "E":
                    e1 = k1[i1]
                    i1 += 1
                if b.kinds[i] == "E":
                    e2 = k2[i2]
                    i2 += 1
                if kinds[i] == "L":
                    continue
                if da[i] == db[i]:
                    if e1 != e2:
                        ok = False
                        break
                    key.append(e1)
                else:
                    key.append(e1 if db[i] == 1 else e2)
            if not ok:
                continue
            r = {}
            for (s1, ls1), v1 in l1.items():
                for (s2, ls2), v2 in l2.items():
                    j1 = j2 = 0
                    ls = []
                    for i in range(n):
                        if a.kinds[i] == "L":
                            ls.append(ls1[j1])
                            j1 += 1
                        elif b.kinds[i] == "L":
                            ls.append(ls2[j2])
                            j2 += 1
                    r = lin_add(r, {(mulsrc(s1, s2), tuple(ls)): v1 * v2})
            ent[tuple(key)] = r
            if len(ent) > MAX_ENT:
                return None
    return Cont(kinds, ent)


def mulsrc(a, b):
    if a == "":
        return b
    if b == "":
        return a
    return "(%s*%s)" % tuple(sorted((a, b)))


def sum_dim(cell, c, dim, keep, factor):
    if c.kinds[dim] != "E":
        return None
    p = epos(c, dim)
    ent = {}
    for k, v in c.ent.items():
        kk = k[:p] + ((0,) if keep else ()) + k[p + 1:]
        ent[kk] = lin_add(ent.get(kk, {}), v, factor)
    kinds = c.kinds if keep else c.kinds[:dim] + c.kinds[dim + 1:]
    return Cont(kinds, {k: simplify(cell, v) for k, v in ent.items()})


# ----- showing ---------------------------------------------------------------------

def show(l):
    if not isinstance(l, tuple) or not l:
        return P.show(l) if isinstance(l, Poly) else str(l)
    k = l[0]
    s = P.show
    if k == "ax":
        return "%s" % l[1]
    if k == "flt":
        return "%s%s" % (l[1], "~" if l[2] else "")
    if k == "ext":
        return "%s[%s:+%s](%s)" % (l[1], s(l[2]), s(l[3]), show(l[4]))
    if k == "rev":
        return "reverse(%s)" % show(l[1])
    if k == "co":
        return "%s*%s{/%s dil %s off %s len %s %s}(%s)" % (l[1], "conv" if l[2] == "-" else "corr", s(l[3]), s(l[4]), s(l[5]), s(l[6]), l[7], show(l[8]))
    if k == "ct":
        return "%s*up{%s dil %s from %s len %s%s}(%s)" % (l[1], s(l[3]), s(l[4]), s(l[5]), s(l[6]), " reversed" if l[2] == "-" else "", show(l[7]))
    if k == "prw":
        return "recombined{valid %s..%s, window %s+%s, shift %s}(%s)" % (s(l[1]), s(l[2]), s(l[3]), s(l[4]), s(l[5]), show(l[7]))
    if k == "emb":
        return "block@%s/%s(%s)" % (s(l[1]), s(l[3]), show(l[2]))
    if k == "mm":
        return "%s.(%s)" % (show_op(l[1]), show(l[2]))
    if k == "fold":
        return "fold(%s)" % ",".join(show(x) for x in l[1])
    if k == "u":
        return "unfold%d(%s)" % (l[1], show(l[2]))
    return str(l)


def show_op(op):
    if op[0] == "T":
        return show_op(op[1]) + "^T"
    if op[0] == "O":
        return "orth(%s)" % show_op(op[1])
    if op[0] == "cat":
        return "[%s]" % ";".join(show_op(x) for x in op[1])
    if op[0] in ("S", "S2"):
        return "conv(%s; %s)" % ("x".join(n + ("~" if r else "") for n, r in op[1]), ",".join(P.show(x) if isinstance(x, Poly) else str(x) for x in op[2:]))
    return str(op)


def show_term(t, c):
    s, ls = t
    return "%s%s<%s>" % ("" if c == 1 else "%s*" % c, s, " , ".join(show(x) for x in ls))


def show_lin(lin):
    return " + ".join(show_term(t, c) for t, c in lin.items()) or "0"


# ----- concretisation (used to confirm a mismatch before it is reported) ---------------

def conc(l, env):
    """The label with every length evaluated and extensions turned into index maps."""
    k = l[0]
    E = lambda p: P.evalp(p, env)
    if k == "ax":
        return ("ax", l[1], E(l[2]))
    if k == "flt":
        return ("flt", l[1], l[2], E(l[3]))
    if k in ("ext", "rev"):
        return _flat_idx(l, env)
    if k == "co":
        _, slot, sg, s, d, off, sz, mode, y = l
        F = env["__F__"]
        s, d, off, sz, n = E(s), E(d), E(off), E(sz), E(size(y))
        rows = []
        for i in range(sz):
            rows.append(tuple(index_of(mode, i * s + off + (j * d if sg == "+" else -j * d), n) for j in range(F)))
        idx, b = _base_idx(y, env)
        rows = tuple(tuple(idx[q] if q is not None else None for q in r) for r in rows)
        return ("co", slot, rows, b)
    if k == "ct":
        _, slot, sg, s, d, off, sz, y = l
        F = env["__F__"]
        s, d, off, sz, n = E(s), E(d), E(off), E(sz), E(size(y))
        idx, b = _base_idx(y, env)
        rows = []
        for p in range(off, off + sz):
            r = [None] * F
            for j in range(F):
                q, m = divmod(p - j * d, s)
                if m == 0 and 0 <= q < n:
                    r[j if sg == "+" else F - 1 - j] = idx[q]
            rows.append(tuple(r))
        return ("co", slot, tuple(rows), b)
    if k == "prw":
        _, lo, hi, off, sz, sh, mode, y = l
        lo, hi, off, sz, sh = E(lo), E(hi), E(off), E(sz), E(sh)
        idx, b = _base_idx(y, env)
        n = len(idx)
        out = []
        for p in range(off, off + sz):
            if lo <= p < hi:
                q = index_of(mode, p + sh, n)
                out.append(idx[q] if q is not None else None)
            else:
                out.append("edge%d" % p)
        return _canon_idx(tuple(out), b)
    if k == "emb":
        return ("emb", E(l[1]), conc(l[2], env), E(l[3]))
    if k == "mm":
        return ("mm", conc_op(l[1], env), conc(l[2], env), E(l[3]))
    if k == "fold":
        cs = tuple(conc(x, env) for x in l[1])
        return cs[0] if len(cs) == 1 else ("fold", cs)
    if k == "u":
        sz = tuple(E(x) for x in l[3])
        y = conc(l[2], env)
        if y[0] == "fold" and tuple(csize(x) for x in y[1]) == sz:
            return y[1][l[1]]
        return ("u", l[1], y, sz)
    raise KeyError(k)


def conc_op(op, env):
    if isinstance(op, Poly):
        return P.evalp(op, env)
    if isinstance(op, tuple):
        return tuple(conc_op(x, env) for x in op)
    return op


def index_of(mode, i, n):
    if 0 <= i < n:
        return i
    if mode == "periodic":
        return i % n
    if mode == "symmetric":
        j = i % (2 * n)
        return j if j < n else 2 * n - 1 - j
    if mode == "reflect":
        if n == 1:
            return 0
        j = i % (2 * n - 2)
        return j if j < n else 2 * n - 2 - j
    if mode == "constant":
        return 0 if i < 0 else n - 1
    return None  # zero (or outside)


def _base_idx(y, env):
    """(list of base positions, concrete base label)"""
    c = conc(y, env)
    if c[0] == "idx":
        return list(c[1]), c[2]
    n = int(P.evalp(size(y), env))
    return list(range(n)), c


def csize(c):
    """Length of a concretised label."""
    k = c[0]
    if k == "ax":
        return c[2]
    if k in ("flt", "emb", "mm"):
        return c[3]
    if k == "idx":
        return len(c[1])
    if k == "co":
        return len(c[2])
    if k == "fold":
        r = 1
        for x in c[1]:
            r *= csize(x)
        return r
    return c[3][c[1]]


def _canon_idx(idx, b):
    if idx == tuple(range(csize(b))):
        return b
    if b[0] == "co" and all(i is None or isinstance(i, int) for i in idx):
        none = (None,) * (len(b[2][0]) if b[2] else 0)
        return ("co", b[1], tuple(none if i is None else b[2][i] for i in idx), b[3])
    return ("idx", idx, b)


def _flat_idx(l, env):
    if l[0] == "rev":
        idx, b = _base_idx(l[1], env)
        return _canon_idx(tuple(reversed(idx)), b)
    _, mode, start, length, y = l
    s, ln = int(P.evalp(start, env)), int(P.evalp(length, env))
    idx, b = _base_idx(y, env)
    n = len(idx)
    out = []
    for i in range(s, s + ln):
        q = index_of(mode, i, n)
        out.append(idx[q] if q is not None else None)
    return _canon_idx(tuple(out), b)


def conc_lin(lin, env):
    r = {}
    for (s, ls), v in lin.items():
        k = (s, tuple(conc(x, env) for x in ls))
        r[k] = r.get(k, 0) + v
    return {k: v for k, v in r.items() if v}
