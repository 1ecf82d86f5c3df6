"""Interpretation of abstract contents at one concrete point of a cell.

Only used to *confirm* that two abstract values that are not syntactically equal really
denote different linear maps before anything is reported: every length is evaluated at
a witness of the cell and the filter slots are read as the taps of a known
perfect-reconstruction bank (or of generic, unrelated numbers).
"""

from __future__ import annotations

import itertools
import math

from . import poly as P
from .labels import index_of, size
from .poly import Poly


class Undense(Exception):
    """The content has no dense reading (opaque operator, too large...)."""


_DB = {
    2: [1 / math.sqrt(2)] * 2,
    4: [(1 + math.sqrt(3)) / (4 * math.sqrt(2)), (3 + math.sqrt(3)) / (4 * math.sqrt(2)),
        (3 - math.sqrt(3)) / (4 * math.sqrt(2)), (1 - math.sqrt(3)) / (4 * math.sqrt(2))],
    6: [0.3326705529500825, 0.8068915093110924, 0.4598775021184914, -0.1350110200102546, -0.08544127388202666, 0.03522629188570953],
    8: [0.23037781330885523, 0.7148465705525415, 0.6308807679295904, -0.02798376941698385, -0.18703481171888114,
        0.030841381835986965, 0.032883011666982945, -0.010597401784997278],
}


def pr_bank(F):
    """Orthogonal perfect-reconstruction taps of length F (pywt conventions)."""
    if F not in _DB:
        raise Undense("no reference filter bank of length %s" % F)
    rec_lo = list(_DB[F])
    dec_lo = rec_lo[::-1]
    rec_hi = [(-1) ** k * dec_lo[k] for k in range(F)]
    dec_hi = rec_hi[::-1]
    return {"dec_lo": dec_lo, "dec_hi": dec_hi, "rec_lo": rec_lo, "rec_hi": rec_hi}


def generic_bank(F):
    """Unrelated taps, so that filters are told apart."""
    r = {}
    for i, s in enumerate(("dec_lo", "dec_hi", "rec_lo", "rec_hi")):
        r[s] = [1.0 + ((i * 31 + 17 * j + 7 * i * j) % 23) / 13.0 + 3 * i for j in range(F)]
    return r


LIMIT = 300000


class Dense:
    def __init__(self, env, bank):
        self.env = env
        self.F = env["__F__"]
        self.bank = bank
        self.memo = {}

    def E(self, p):
        v = P.evalp(p, self.env)
        if v != int(v):
            raise Undense("fractional length")
        return int(v)

    def taps(self, slot, rev=False):
        t = self.bank.get(slot)
        if t is None:
            raise Undense("unknown filter %s" % slot)
        return t[::-1] if rev else t

    def rows(self, l):
        r = self.memo.get(l)
        if r is None:
            r = self.memo[l] = self._rows(l)
        return r

    def _combine(self, base, picks):
        """row = sum coef*base[i]"""
        r = {}
        for i, c in picks:
            for k, v in base[i].items():
                r[k] = r.get(k, 0.0) + c * v
        return {k: v for k, v in r.items() if abs(v) > 1e-13}

    def _rows(self, l):
        k = l[0]
        E = self.E
        if k == "ax":
            n = E(l[2])
            if n > 5000:
                raise Undense("too large")
            return [{((l[1], i),): 1.0} for i in range(n)]
        if k == "flt":
            return [{(): v} for v in self.taps(l[1], l[2])]
        if k == "ext":
            _, mode, start, length, y = l
            b = self.rows(y)
            return [self._combine(b, self._at(mode, i, len(b))) for i in range(E(start), E(start) + E(length))]
        if k == "rev":
            return list(reversed(self.rows(l[1])))
        if k == "co":
            _, slot, sg, s, d, off, sz, mode, y = l
            return self._co(self.taps(slot), sg, E(s), E(d), E(off), E(sz), mode, self.rows(y))
        if k == "ct":
            _, slot, sg, s, d, off, sz, y = l
            return self._ct(self.taps(slot, sg == "-"), E(s), E(d), E(off), E(sz), self.rows(y))
        if k == "prw":
            _, lo, hi, off, sz, sh, mode, y = l
            off, sz, sh, m = E(off), E(sz), E(sh), E(hi) // 2
            b = self.rows(y)
            out = [{} for _ in range(sz)]
            for ana, syn in (("dec_lo", "rec_lo"), ("dec_hi", "rec_hi")):
                c = self._co(self.taps(ana), "-", 2, 1, sh + self.F - 1, m, mode, b)
                for i, r in enumerate(self._ct(self.taps(syn), 2, 1, off, sz, c)):
                    for kk, v in r.items():
                        out[i][kk] = out[i].get(kk, 0.0) + v
            return out
        if k == "emb":
            b = self.rows(l[2])
            s, n = E(l[1]), E(l[3])
            return [b[i - s] if 0 <= i - s < len(b) else {} for i in range(n)]
        if k == "mm":
            b = self.rows(l[2])
            m = self.op(l[1])
            return [self._combine(b, [(j, v) for j, v in r.items()]) for r in m]
        if k == "fold":
            parts = [self.rows(x) for x in l[1]]
            return [self._prod(c) for c in itertools.product(*parts)]
        raise Undense("label %s" % k)

    def _prod(self, rows):
        r = {(): 1.0}
        for p in rows:
            r = {tuple(sorted(a + b)): va * vb for a, va in r.items() for b, vb in p.items()}
            if len(r) > 20000:
                raise Undense("too large")
        return r

    def _at(self, mode, i, n):
        if n == 0:
            return []
        q = index_of(mode, i, n)
        return [] if q is None else [(q, 1.0)]

    def _co(self, f, sg, s, d, off, sz, mode, b):
        out = []
        for i in range(sz):
            p = []
            for j in range(self.F):
                p += [(q, f[j]) for q, _ in self._at(mode, i * s + off + (j * d if sg == "+" else -j * d), len(b))]
            out.append(self._combine(b, p))
        return out

    def _ct(self, f, s, d, off, sz, b):
        out = []
        for p in range(off, off + sz):
            pk = []
            for j in range(self.F):
                q, m = divmod(p - j * d, s)
                if m == 0 and 0 <= q < len(b):
                    pk.append((q, f[j]))
            out.append(self._combine(b, pk))
        return out

    # operators: list of {col: value}
    def op(self, op):
        key = ("op", op)
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = self._op(op)
        return r

    def _op(self, op):
        k = op[0]
        E = self.E
        if k == "S":
            ((slot, rv),), n, stride, mode = op[1:]
            return self._conv(self.taps(slot, rv), E(n), stride, mode)[0]
        if k == "S2":
            (s0, s1), h, w, stride, mode = op[1:]
            # filter dim 0 runs along rows (h), the image is vectorised column by column
            a, _ = self._conv(self.taps(*s0), E(h), stride, mode)
            c, _ = self._conv(self.taps(*s1), E(w), stride, mode)
            H = E(h)
            return [{j * H + i: va * vc for j, vc in rc.items() for i, va in ra.items()} for rc in c for ra in a]
        if k == "cat":
            r = []
            for x in op[1]:
                r += self.op(x)
            return r
        if k == "T":
            m = self.op(op[1])
            n = 1 + max([max(r) for r in m if r] or [0])
            n = max(n, len(m))
            out = [{} for _ in range(n)]
            for i, r in enumerate(m):
                for j, v in r.items():
                    out[j][i] = v
            return out
        if k == "O":
            m = self.op(op[1])
            fl = self.E(op[2])
            if all(len(r) == fl for r in m):
                return m  # no row touches the boundary: nothing to orthogonalise
            raise Undense("orthogonalised boundary rows")
        raise Undense("operator %s" % k)

    def _conv(self, f, n, stride, mode):
        F = len(f)
        if mode == "full":
            a, z = 0, n + F - 1
        elif mode == "valid":
            a, z = F - 1, n
        else:
            a = F // 2 - 1 + F % 2
            z = a + n
        start = 1 if mode == "sameshift" else 0
        out = []
        for p in range(a + start, z, stride):
            r = {}
            for j in range(F):
                q = p - j
                if 0 <= q < n:
                    r[q] = r.get(q, 0.0) + f[j]
            out.append(r)
        return out, n


def dense_lin(lin, env, bank):
    """{output index tuple: {(src, base index): value}} of one linear combination."""
    D = Dense(env, bank)
    res = {}
    for (src, ls), coef in lin.items():
        parts = []
        done = set()
        for i, l in enumerate(ls):
            if i in done:
                continue
            if l[0] == "u":
                grp = [j for j, m in enumerate(ls) if m[0] == "u" and m[2:] == l[2:]]
                sz = [D.E(x) for x in l[3]]
                y = D.rows(l[2])
                dims = {ls[j][1]: j for j in grp}
                if len(dims) != len(grp):
                    raise Undense("repeated unfold dim")
                ent = []
                for p, r in enumerate(y):
                    q, ix = p, []
                    for n in reversed(sz):
                        q, m = divmod(q, n)
                        ix.append(m)
                    ix.reverse()
                    if any(ix[d] and d not in dims for d in range(len(sz))):
                        raise Undense("partial unfold")
                    ent.append(({dims[d]: ix[d] for d in dims}, r))
                done |= set(grp)
                parts.append(ent)
            else:
                parts.append([({i: p}, r) for p, r in enumerate(D.rows(l))])
        tot = 1
        for p in parts:
            tot *= max(1, len(p))
        if tot > LIMIT:
            raise Undense("too large")
        for combo in itertools.product(*parts):
            ix = {}
            for a, _ in combo:
                ix.update(a)
            out = tuple(ix[j] for j in range(len(ls)))
            row = D._prod([r for _, r in combo])
            t = res.setdefault(out, {})
            for k, v in row.items():
                t[(src, k)] = t.get((src, k), 0.0) + v * float(coef)
    return res


def differ(a, b, tol=1e-7):
    """First index where two dense maps differ (index, key, value a, value b), else None."""
    for ix in sorted(set(a) | set(b)):
        if ix not in a or ix not in b:
            return ix, "present only in one of them", ix in a, ix in b
        ra, rb = a[ix], b[ix]
        for k in sorted(set(ra) | set(rb), key=str):
            if abs(ra.get(k, 0.0) - rb.get(k, 0.0)) > tol:
                return ix, k, ra.get(k, 0.0), rb.get(k, 0.0)
    return None
