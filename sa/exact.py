"""Exact contents of tensors with known sizes, on top of the torch models.

Every entry is a number or a polynomial over opaque atoms (filter taps, input samples,
entries of a QR factor).  The torch models keep deciding shape, dtype, device, effects and
errors; this layer adds what the entries are, so that index arithmetic on sparse matrices
can be followed.  Whatever is not modelled loses its exact content (obligations on it are
undecided).
"""

from __future__ import annotations

import itertools
import math
from fractions import Fraction

from . import expr as E
from . import poly as P
from . import values as V
from .models_torch import Args, BOOL, F32, INTS, LONG, Torch, is_ellipsis
from .values import *


class NoEx(Exception):
    pass


class Buf(list):
    bad = False


def numel(shape):
    n = 1
    for s in shape:
        n *= s
    return n


class Dn:
    """Strided exact tensor: positions into a shared buffer."""

    layout = "strided"

    def __init__(self, shape, vals=None, buf=None, pos=None):
        self.shape = tuple(shape)
        if buf is None:
            buf = Buf(vals)
            pos = list(range(len(buf)))
        self.buf, self.pos = buf, pos
        if len(self.pos) != numel(self.shape):
            raise NoEx("size")

    def vals(self):
        if self.buf.bad:
            raise NoEx("overwritten")
        return [self.buf[i] for i in self.pos]

    def view(self, shape, order):
        return Dn(shape, buf=self.buf, pos=[self.pos[i] for i in order])

    def index(self):
        """Position numbers of the entries by multi-index."""
        return itertools.product(*map(range, self.shape))

    def flat(self, ix):
        r = 0
        for i, n in zip(ix, self.shape):
            r = r * n + i
        return r


class Sp:
    """COO exact tensor: list of (index, value)."""

    layout = "sparse"
    loose = False  # known to be uncoalesced

    def __init__(self, shape, ent):
        self.shape = tuple(shape)
        self.ent = list(ent)
        for ix, v in self.ent:
            if any(not 0 <= i < n for i, n in zip(ix, self.shape)):
                raise NoEx("index outside the matrix")

    def merged(self):
        d = {}
        for ix, v in self.ent:
            d[ix] = E.add(d[ix], v) if ix in d else v
        return d

    def coalesced(self):
        return Sp(self.shape, sorted(self.merged().items(), key=lambda kv: kv[0]))


def entries(x):
    """{index: value} of the non-zero entries."""
    if isinstance(x, Sp):
        return {k: v for k, v in x.merged().items() if not (not isinstance(v, E.Ex) and v == 0)}
    return {ix: v for ix, v in zip(x.index(), x.vals()) if not (not isinstance(v, E.Ex) and v == 0)}


def ex(v):
    e = v.ex if isinstance(v, TensorV) else None
    if e is None:
        raise NoEx("not exact")
    return e


def dense(v):
    e = ex(v)
    if isinstance(e, Sp):
        return densify(e)
    return e


def densify(e):
    d = e.merged()
    return Dn(e.shape, [d.get(ix, 0) for ix in itertools.product(*map(range, e.shape))])


def scalar(v):
    if isinstance(v, TensorV):
        e = ex(v)
        if isinstance(e, Dn) and len(e.pos) == 1:
            return e.vals()[0]
        raise NoEx("not a scalar")
    if isinstance(v, TopV) and isinstance(v.key, tuple) and v.key and v.key[0] == "ex":
        return v.key[1]
    r = E.num(v) if isinstance(v, (int, float, Fraction)) else None
    if r is None:
        raise NoEx("scalar")
    return r


def ints(v):
    """Concrete ints of a Python sequence / scalar."""
    if isinstance(v, (TupV, ListV)):
        if v.star is not None:
            raise NoEx("seq")
        return [i for x in v.items for i in ints(x)]
    if isinstance(v, RangeV) and all(isinstance(q, int) for q in (v.lo, v.hi, v.step)):
        return list(range(v.lo, v.hi, v.step))
    if isinstance(v, TensorV):
        r = ex(v).vals()
        if not all(isinstance(x, int) for x in r):
            raise NoEx("not ints")
        return r
    if isinstance(v, Poly):
        raise NoEx("symbolic")
    if isinstance(v, int):
        return [int(v)]
    raise NoEx("int")


def one(v):
    r = ints(v)
    if len(r) != 1:
        raise NoEx("int")
    return r[0]


def bshape(a, b):
    n = max(len(a), len(b))
    a = (1,) * (n - len(a)) + tuple(a)
    b = (1,) * (n - len(b)) + tuple(b)
    out = []
    for x, y in zip(a, b):
        if x != y and 1 not in (x, y):
            raise NoEx("broadcast")
        out.append(y if x == 1 else x)
    return tuple(out)


def expand(e, shape):
    n = len(shape)
    s = (1,) * (n - len(e.shape)) + e.shape
    v = Dn(s, buf=e.buf, pos=e.pos)
    return v.view(shape, [v.flat([0 if d == 1 else i for i, d in zip(ix, s)]) for ix in itertools.product(*map(range, shape))])


def wrapint(x):
    return int(x) if isinstance(x, bool) else x


def op2(op, x, y):
    x, y = wrapint(x), wrapint(y)
    if op == "Add":
        r = E.add(x, y)
    elif op == "Sub":
        r = E.sub(x, y)
    elif op == "Mult":
        r = E.mul(x, y)
    elif op == "Div":
        r = E.div(x, y)
    elif op == "Pow" and isinstance(y, int) and abs(y) <= (4 if isinstance(x, E.Ex) else 64):
        r = 1
        for _ in range(abs(y)):
            r = E.mul(r, x)
        if y < 0:
            r = E.inv(r)
    elif op == "Pow" and y == Fraction(1, 2):
        r = E.sqrt(x)
    elif not isinstance(x, E.Ex) and not isinstance(y, E.Ex) and op in ("FloorDiv", "Mod", "Max", "Min"):
        if op in ("FloorDiv", "Mod"):
            r = None if y == 0 else x // y if op == "FloorDiv" else x % y
        else:
            r = max(x, y) if op == "Max" else min(x, y)
        r = None if r is None else E.num(r)
    elif isinstance(x, int) and isinstance(y, int) and op in ("BitAnd", "BitOr", "BitXor"):
        r = x & y if op == "BitAnd" else x | y if op == "BitOr" else x ^ y
    else:
        r = None
    if r is None:
        raise NoEx(op)
    return r


def a_flat(shape, ix):
    o = 0
    for n, i in zip(shape, ix):
        o = o * n + i
    return o


def cmp2(op, x, y):
    x, y = wrapint(x), wrapint(y)
    if isinstance(x, E.Ex) or isinstance(y, E.Ex):
        if op in ("Eq", "NotEq"):
            q = E.equal(x, y)
            if q is None:
                raise NoEx("compare")
            return q if op == "Eq" else not q
        raise NoEx("compare")
    if op in ("logical_and", "logical_or", "logical_xor"):
        x, y = bool(x), bool(y)
        return (x and y) if op == "logical_and" else (x or y) if op == "logical_or" else x != y
    if op not in ("Eq", "NotEq", "Lt", "LtE", "Gt", "GtE"):
        raise NoEx(op)
    return {"Eq": x == y, "NotEq": x != y, "Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[op]


class XTorch(Torch):
    METH = ("max", "min")

    def __init__(self):
        super().__init__()
        for n, f in list(self.fns.items()):
            x = getattr(self, "x_" + n, None)
            if x is not None:
                self.fns[n] = self.wrap(f, x)

    def wrap(self, fn, x):
        def f(I, args, kwargs):
            try:
                e = x(I, Args(args, kwargs))
            except NoEx:
                e = None
            r = fn(I, args, kwargs)
            if e is None:
                return r
            return self.put(I, r, e)

        return f

    def put(self, I, r, e):
        if isinstance(e, (list, tuple)):
            src = list(r.items) if isinstance(r, (TupV, ListV)) and r.star is None and len(r.items) == len(e) else [
                self.new(I, None, None, TOP, TOP, [x for x in getattr(r, "items", []) if isinstance(x, TensorV)]) for _ in e]
            return TupV([self.put(I, x, y) for x, y in zip(src, e)])
        if isinstance(e, (Dn, Sp)):
            if isinstance(r, TopV) or r is None:
                r = self.new(I, e.shape, None, TOP, TOP, [])
            return self.attach(I, r, e)
        return e

    def attach(self, I, r, e):
        r.ex = e
        r.dims = e.shape
        r.layout = e.layout
        if isinstance(e, Dn) and len(e.shape) <= 1 and not e.buf.bad:
            v = e.vals()
            if all(isinstance(x, int) for x in v):
                r.values = list(v) if e.shape else v[0]
            else:
                r.values = None
        else:
            r.values = None
        return r

    # values and exact contents may be stale after writes through a view: refresh on use
    def fresh(self, t):
        if isinstance(t, TensorV) and isinstance(t.ex, Dn) and len(t.ex.shape) <= 1:
            if t.ex.buf.bad:
                t.values = None
                return
            v = t.ex.vals()
            t.values = (list(v) if t.ex.shape else v[0]) if all(isinstance(x, int) for x in v) else None

    # ----- protocol ---------------------------------------------------------------------
    def truth(self, I, t):
        try:
            v = scalar(t)
            if not isinstance(v, E.Ex):
                return bool(v)
        except NoEx:
            pass
        return super().truth(I, t)

    def iterate(self, I, t, unpack):
        e = t.ex
        if e is not None and e.shape:
            return [self.getitem(I, t, i) for i in range(e.shape[0])], None
        return super().iterate(I, t, unpack)

    def unary(self, I, t, op):
        r = super().unary(I, t, op)
        try:
            e = ex(t)
            if op == "USub":
                return self.attach(I, r, self.map(e, E.neg))
            if op == "Invert" and isinstance(e, Dn) and t.dtype == BOOL:
                return self.attach(I, r, Dn(e.shape, [not v for v in e.vals()]))
        except NoEx:
            pass
        return r

    def map(self, e, f):
        def g(v):
            r = f(wrapint(v))
            if r is None:
                raise NoEx("map")
            return r

        if isinstance(e, Sp):
            return Sp(e.shape, [(k, g(v)) for k, v in e.ent])
        return Dn(e.shape, [g(v) for v in e.vals()])

    def arith(self, op, a, b):
        A = ex(a) if isinstance(a, TensorV) else None
        B = ex(b) if isinstance(b, TensorV) else None
        if isinstance(A, Dn) and A.shape == () and isinstance(B, Sp):
            A, a = None, a
        if isinstance(B, Dn) and B.shape == () and isinstance(A, Sp):
            B, b = None, b
        if isinstance(A, Sp) and isinstance(B, Sp):
            if op in ("Add", "Sub") and A.shape == B.shape:
                return Sp(A.shape, A.ent + [(k, v if op == "Add" else E.neg(v)) for k, v in B.ent])
            if op == "Mult" and A.shape == B.shape:
                p, q = A.merged(), B.merged()
                return Sp(A.shape, [(k, E.mul(v, q[k])) for k, v in sorted(p.items()) if k in q])
            raise NoEx(op)
        if isinstance(A, Sp) or isinstance(B, Sp):
            s, o, left = (A, b, True) if isinstance(A, Sp) else (B, a, False)
            if isinstance(o, TensorV) and isinstance(o.ex, Dn) and o.ex.shape != ():
                raise NoEx(op)
            c = scalar(o)
            if op == "Mult" or (op == "Div" and left):
                return Sp(s.shape, [(k, op2(op, v, c)) for k, v in s.ent])
            raise NoEx(op)
        if A is None:
            A = Dn((), [scalar(a)])
        if B is None:
            B = Dn((), [scalar(b)])
        sh = bshape(A.shape, B.shape)
        return Dn(sh, [op2(op, x, y) for x, y in zip(expand(A, sh).vals(), expand(B, sh).vals())])

    def binary(self, I, op, a, b):
        for t in (a, b):
            self.fresh(t)
        if op == "MatMult":
            return self.fns["matmul"](I, [a, b], {})
        r = super().binary(I, op, a, b)
        try:
            return self.attach(I, r, self.arith(op, a, b))
        except NoEx:
            return r

    def comparison(self, I, op, a, b):
        for t in (a, b):
            self.fresh(t)
        r = super().comparison(I, op, a, b)
        try:
            A = dense(a) if isinstance(a, TensorV) else Dn((), [scalar(a)])
            B = dense(b) if isinstance(b, TensorV) else Dn((), [scalar(b)])
            sh = bshape(A.shape, B.shape)
            self.attach(I, r, Dn(sh, [cmp2(op, x, y) for x, y in zip(expand(A, sh).vals(), expand(B, sh).vals())]))
            r.values = r.ex.vals()[0] if sh == () else None
        except NoEx:
            pass
        return r

    def inplace_result(self, I, old, new, what):
        e, src = old.ex, new.ex if isinstance(new, TensorV) else None
        r = super().inplace_result(I, old, new, what)
        if isinstance(e, Dn):
            try:
                if src is None:
                    raise NoEx("unknown")
                vs = expand(src if isinstance(src, Dn) else densify(src), e.shape).vals()
                for p, v in zip(e.pos, vs):
                    e.buf[p] = v
            except NoEx:
                e.buf.bad = True
            self.fresh(old)
        elif isinstance(e, Sp):
            old.ex = src if isinstance(src, Sp) and src.shape == e.shape else None
        else:
            old.ex = None
        return r

    def getattr(self, I, t, name):
        self.fresh(t)
        if name in ("T", "mT", "H", "mH") and t.ex is not None:
            r = super().getattr(I, t, name)
            try:
                n = len(t.ex.shape)
                o = list(range(n))[::-1] if name in ("T", "H") else list(range(n - 2)) + [n - 1, n - 2]
                return self.attach(I, r, self.perm(t.ex, o))
            except NoEx:
                return r
        if name == "data" and t.ex is not None:
            return self.attach(I, super().getattr(I, t, name), t.ex)
        return super().getattr(I, t, name)

    # ----- subscription ----------------------------------------------------------------------
    def getitem(self, I, t, k):
        self.fresh(t)
        e = None
        try:
            e = self.index(ex(t), k)
        except NoEx:
            pass
        r = super().getitem(I, t, k)
        if e is None:
            r.ex = None
            return r
        if r is t:
            r = self.view(I, t, e.shape, None, False)
        return self.attach(I, r, e)

    def index(self, e, k):
        if isinstance(e, Sp):
            ks = list(k.items) if isinstance(k, TupV) else [k]
            if len(ks) == 1 and not isinstance(ks[0], (SliceV, ListV)) and not (isinstance(ks[0], TensorV) and ks[0].dims != ()):
                return self.spselect(e, 0, one(ks[0]))
            raise NoEx("sparse index")
        ks = list(k.items) if isinstance(k, TupV) else [k]
        nidx = 0
        for x in ks:
            if isinstance(x, TensorV) and x.dtype == BOOL:
                nidx += len(ex(x).shape)
            elif x is not None and not is_ellipsis(x):
                nidx += 1
        if not any(is_ellipsis(x) for x in ks):
            ks.append(Ellipsis)
        dim = 0
        r = e
        adv = []
        for x in ks:
            if is_ellipsis(x):
                dim += len(e.shape) - nidx
            elif x is None:
                r = Dn(r.shape[:dim] + (1,) + r.shape[dim:], buf=r.buf, pos=r.pos)
                dim += 1
            elif isinstance(x, SliceV):
                n = r.shape[dim]
                b = [None if q is None else one(q) for q in (x.lo, x.hi, x.step)]
                sel = list(range(n))[slice(*b)]
                r = self.take(r, dim, sel)
                dim += 1
            elif isinstance(x, TensorV) and x.ex is not None and x.dtype == BOOL:
                m = ex(x)
                if m.shape != r.shape[dim:dim + 1]:
                    raise NoEx("mask")
                adv.append((dim, [i for i, v in enumerate(m.vals()) if v]))
                dim += 1
            elif isinstance(x, (ListV, RangeV)) or isinstance(x, TensorV) and ex(x).shape != ():
                q = ints(x)
                if isinstance(x, TensorV) and len(x.ex.shape) != 1:
                    raise NoEx("index")
                if isinstance(x, ListV) and x.items and isinstance(x.items[0], bool):
                    raise NoEx("mask")
                adv.append((dim, q))
                dim += 1
            else:
                i = one(x)
                n = r.shape[dim]
                if not -n <= i < n:
                    raise NoEx("out of range")
                r = self.take(r, dim, [i % n])
                r = Dn(r.shape[:dim] + r.shape[dim + 1:], buf=r.buf, pos=r.pos)
        if len(adv) > 1:
            raise NoEx("advanced")
        if adv:
            d, q = adv[0]
            n = r.shape[d]
            if any(not -n <= i < n for i in q):
                raise NoEx("out of range")
            r = self.take(r, d, [i % n for i in q])
            self.lastadv = r
            return Dn(r.shape, r.vals())
        return r

    def take(self, e, dim, sel):
        sh = e.shape[:dim] + (len(sel),) + e.shape[dim + 1:]
        return e.view(sh, [e.flat(ix[:dim] + (sel[ix[dim]],) + ix[dim + 1:]) for ix in itertools.product(*map(range, sh))])

    def setitem(self, I, t, k, v):
        self.fresh(t)
        e = t.ex
        super().setitem(I, t, k, v)
        if isinstance(e, Dn):
            try:
                self.lastadv = None
                tgt = self.index(e, k)
                if self.lastadv is not None:
                    tgt = self.lastadv
                src = dense(v) if isinstance(v, TensorV) else Dn((), [scalar(v)])
                sh = src.shape
                while len(sh) > len(tgt.shape) and sh[0] == 1:
                    sh = sh[1:]
                src = Dn(sh, buf=src.buf, pos=src.pos)
                for p, q in zip(tgt.pos, expand(src, tgt.shape).vals()):
                    e.buf[p] = q
            except NoEx:
                e.buf.bad = True
        else:
            t.ex = None
        self.fresh(t)

    # ----- creation ------------------------------------------------------------------------------
    def x_tensor(self, I, A):
        d = A.get(0, "data")
        if isinstance(d, SeqV):
            F = d.length
            if not isinstance(F, int):
                raise NoEx("symbolic filter")
            z = I.zero_taps.get(d.slot, ())
            v = [0 if i in z else E.atom("tap", d.slot, i) for i in range(F)]
            return Dn((F,), v[::-1] if d.flipped else v)
        if isinstance(d, TensorV):
            e = ex(d)
            return Dn(e.shape, e.vals()) if isinstance(e, Dn) else Sp(e.shape, e.ent)
        return self.lit(I, d)

    def lit(self, I, d):
        if isinstance(d, (ListV, TupV, RangeV)):
            items, star = I.iter_spec(d)
            items = list(items)
            if star is not None:
                raise NoEx("seq")
            subs = [self.lit(I, x) for x in items]
            if not subs:
                return Dn((0,), [])
            if any(s.shape != subs[0].shape for s in subs):
                raise NoEx("ragged")
            return Dn((len(subs),) + subs[0].shape, [v for s in subs for v in s.vals()])
        if isinstance(d, TensorV):
            e = dense(d)
            if numel(e.shape) != 1:
                raise NoEx("tensor of tensors")
            return Dn((), e.vals())
        if isinstance(d, bool):
            return Dn((), [d])
        return Dn((), [scalar(d)])

    x_as_tensor = x_asarray = x_scalar_tensor = x_tensor

    def fill(self, A, v):
        s = A.k.get("size")
        return self.const(ints(s) if s is not None else [i for x in A.a for i in ints(x)], v)

    def const(self, sh, v):
        if numel(sh) > 200000:
            raise NoEx("large")
        return Dn(sh, [v] * numel(sh))

    def x_zeros(self, I, A):
        return self.fill(A, 0)

    def x_ones(self, I, A):
        return self.fill(A, 1)

    def x_full(self, I, A):
        return self.const(ints(A.get(0, "size")), scalar(A.get(1, "fill_value")))

    def x_eye(self, I, A):
        n = one(A.get(0, "n"))
        m = A.get(1, "m")
        m = n if m is None else one(m)
        return Dn((n, m), [1 if i == j else 0 for i in range(n) for j in range(m)])

    def like(self, A, v):
        e = ex(A.get(0, "input"))
        if isinstance(e, Sp):
            if v:
                raise NoEx("ones_like of a sparse tensor")
            return Sp(e.shape, [])
        return self.const(e.shape, v)

    def x_zeros_like(self, I, A):
        return self.like(A, 0)

    def x_ones_like(self, I, A):
        return self.like(A, 1)

    def x_full_like(self, I, A):
        return self.const(ex(A.get(0, "input")).shape, scalar(A.get(1, "fill_value")))

    def x_arange(self, I, A):
        a = [one(x) for x in A.a]
        if len(a) == 1:
            a = [0, a[0]]
        if not a:
            a = [one(A.k.get("start", 0)), one(A.k["end"])]
        st = a[2] if len(a) > 2 else one(A.k.get("step", 1))
        v = list(range(a[0], a[1], st))
        return Dn((len(v),), v)

    # ----- shape -------------------------------------------------------------------------------------
    def perm(self, e, o):
        if isinstance(e, Sp):
            return Sp(tuple(e.shape[i] for i in o), [(tuple(k[i] for i in o), v) for k, v in e.ent])
        sh = tuple(e.shape[i] for i in o)
        inv = [o.index(i) for i in range(len(o))]
        return e.view(sh, [e.flat([ix[inv[d]] for d in range(len(o))]) for ix in itertools.product(*map(range, sh))])

    def d(self, e, v, extra=0):
        n = len(e.shape) + extra
        i = one(v)
        if not -max(n, 1) <= i < max(n, 1):
            raise NoEx("dim")
        return i % max(n, 1)

    def x_transpose(self, I, A):
        e = ex(A.get(0, "input"))
        a, b = self.d(e, A.get(1, "dim0")), self.d(e, A.get(2, "dim1"))
        o = list(range(len(e.shape)))
        o[a], o[b] = o[b], o[a]
        return self.perm(e, o)

    x_swapaxes = x_swapdims = x_transpose

    def x_t(self, I, A):
        e = ex(A.get(0, "input"))
        return self.perm(e, list(range(len(e.shape)))[::-1])

    def x_permute(self, I, A):
        e = ex(A.a[0])
        o = [self.d(e, i) for x in (A.a[1:] or [A.k["dims"]]) for i in ints(x)]
        return self.perm(e, o)

    def x_movedim(self, I, A):
        e = ex(A.a[0])
        s = [self.d(e, i) for i in ints(A.get(1, "source"))]
        t = [self.d(e, i) for i in ints(A.get(2, "destination"))]
        n = len(e.shape)
        o = [None] * n
        for a, b in zip(s, t):
            o[b] = a
        rest = iter([i for i in range(n) if i not in s])
        return self.perm(e, [next(rest) if i is None else i for i in o])

    x_moveaxis = x_movedim

    def resh(self, e, sh):
        sh = list(sh)
        n = numel(e.shape)
        if -1 in sh:
            i = sh.index(-1)
            q = numel(sh[:i] + sh[i + 1:])
            if q == 0 or n % q:
                raise NoEx("reshape")
            sh[i] = n // q
        if numel(sh) != n:
            raise NoEx("reshape")
        if isinstance(e, Sp):
            raise NoEx("reshape of a sparse tensor")
        return Dn(sh, buf=e.buf, pos=e.pos)

    def x_reshape(self, I, A):
        e = ex(A.a[0])
        return self.resh(e, [i for x in (A.a[1:] or [A.k.get("shape", A.k.get("size"))]) for i in ints(x)])

    x_view = x_reshape

    def x_flatten(self, I, A):
        e = ex(A.a[0])
        n = len(e.shape)
        s, t = self.d(e, A.get(1, "start_dim", 0)), self.d(e, A.get(2, "end_dim", -1))
        return self.resh(e, e.shape[:s] + (numel(e.shape[s:t + 1]),) + e.shape[t + 1:])

    def x_ravel(self, I, A):
        e = ex(A.a[0])
        return self.resh(e, (numel(e.shape),))

    def x_unsqueeze(self, I, A):
        e = ex(A.a[0])
        d = self.d(e, A.get(1, "dim"), 1)
        sh = e.shape[:d] + (1,) + e.shape[d:]
        if isinstance(e, Sp):
            return Sp(sh, [(k[:d] + (0,) + k[d:], v) for k, v in e.ent])
        return Dn(sh, buf=e.buf, pos=e.pos)

    def x_squeeze(self, I, A):
        e = ex(A.a[0])
        d = A.get(1, "dim")
        ds = [i for i, n in enumerate(e.shape) if n == 1] if d is None else [self.d(e, i) for i in ints(d)]
        ds = [i for i in ds if e.shape[i] == 1]
        keep = [i for i in range(len(e.shape)) if i not in ds]
        if isinstance(e, Sp):
            if len(keep) == 0:
                raise NoEx("squeeze")
            return Sp(tuple(e.shape[i] for i in keep), [(tuple(k[i] for i in keep), v) for k, v in e.ent])
        return Dn(tuple(e.shape[i] for i in keep), buf=e.buf, pos=e.pos)

    def same(self, I, A):
        return ex(A.a[0] if A.a else A.k.get("input"))

    def copy(self, I, A):
        e = self.same(I, A)
        return Dn(e.shape, e.vals()) if isinstance(e, Dn) else Sp(e.shape, e.ent)

    x_clone = copy
    x_contiguous = x_detach = same

    def cast(self, I, t, dt, dev):
        r = super().cast(I, t, dt, dev)
        if t.ex is not None and isinstance(r, TensorV) and r is not t:
            try:
                e = t.ex
                if isinstance(dt, DTypeV) and dt != t.dtype:
                    if dt.name == "bool":
                        e = Dn(e.shape, [bool(v) for v in e.vals()]) if isinstance(e, Dn) and not any(isinstance(v, E.Ex) for v in e.vals()) else None
                    elif dt.name in INTS:
                        if isinstance(e, Sp) or any(isinstance(v, E.Ex) for v in e.vals()):
                            e = None
                        else:
                            e = Dn(e.shape, [int(v) for v in e.vals()])
                    else:
                        e = Dn(e.shape, [wrapint(v) for v in e.vals()]) if isinstance(e, Dn) else e
                elif isinstance(e, Dn):
                    e = Dn(e.shape, e.vals())
                if e is not None:
                    self.attach(I, r, e)
            except NoEx:
                pass
        return r

    def x_select(self, I, A):
        e = ex(A.a[0])
        d = self.d(e, A.get(1, "dim"))
        i = one(A.get(2, "index"))
        if isinstance(e, Sp):
            return self.spselect(e, d, i)
        if not -e.shape[d] <= i < e.shape[d]:
            raise NoEx("range")
        r = self.take(e, d, [i % e.shape[d]])
        return Dn(r.shape[:d] + r.shape[d + 1:], buf=r.buf, pos=r.pos)

    def spselect(self, e, d, i):
        n = e.shape[d]
        if not -n <= i < n:
            raise NoEx("range")
        i %= n
        if len(e.shape) == 1:
            return Dn((), [e.merged().get((i,), 0)])
        return Sp(e.shape[:d] + e.shape[d + 1:], [(k[:d] + k[d + 1:], v) for k, v in e.ent if k[d] == i])

    def x_narrow(self, I, A):
        e = ex(A.a[0])
        d, s, n = self.d(e, A.get(1, "dim")), one(A.get(2, "start")), one(A.get(3, "length"))
        s = s % e.shape[d] if s < 0 else s
        if isinstance(e, Sp):
            return Sp(e.shape[:d] + (n,) + e.shape[d + 1:], [(k[:d] + (k[d] - s,) + k[d + 1:], v) for k, v in e.ent if s <= k[d] < s + n])
        return self.take(e, d, list(range(s, s + n)))

    def x_index_select(self, I, A):
        e = ex(A.a[0])
        d, q = self.d(e, A.get(1, "dim")), ints(A.get(2, "index"))
        if isinstance(e, Sp):
            return Sp(e.shape[:d] + (len(q),) + e.shape[d + 1:], [(k[:d] + (p,) + k[d + 1:], v) for p, i in enumerate(q) for k, v in e.ent if k[d] == i])
        r = self.take(e, d, q)
        return Dn(r.shape, r.vals())

    def x_split(self, I, A):
        e = ex(A.a[0])
        s = A.get(1, "split_size_or_sections", A.k.get("split_size"))
        d = self.d(e, A.get(2, "dim", 0))
        n = e.shape[d]
        if isinstance(s, (TupV, ListV)):
            sz = ints(s)
        else:
            q = one(s)
            sz = [min(q, n - i) for i in range(0, n, q)] if q > 0 else None
        if not sz or sum(sz) != n or not isinstance(e, Dn):
            raise NoEx("split")
        out, p = [], 0
        for q in sz:
            out.append(self.take(e, d, list(range(p, p + q))))
            p += q
        return out

    def x_chunk(self, I, A):
        e = ex(A.a[0])
        d = self.d(e, A.get(2, "dim", 0))
        c = one(A.get(1, "chunks"))
        n = e.shape[d]
        q = -(-n // c)
        return self.x_split(I, Args([A.a[0], q], {"dim": d}))

    def x_unbind(self, I, A):
        e = ex(A.a[0])
        d = self.d(e, A.get(1, "dim", 0))
        return [self.x_select(I, Args([A.a[0], d, i], {})) for i in range(e.shape[d])]

    def x_flip(self, I, A):
        e = dense(A.a[0])
        for x in A.a[1:] or [A.k["dims"]]:
            for i in ints(x):
                i = self.d(e, i)
                e = self.take(e, i, list(range(e.shape[i]))[::-1])
        return Dn(e.shape, e.vals())

    def seqx(self, I, v):
        items, star = I.iter_spec(v)
        items = list(items)
        if star is not None or not items:
            raise NoEx("seq")
        return [ex(x) for x in items]

    def x_stack(self, I, A):
        es = self.seqx(I, A.get(0, "tensors"))
        d = A.get(1, "dim", 0)
        if any(e.shape != es[0].shape for e in es):
            raise NoEx("stack")
        d = self.d(es[0], d, 1)
        sh = es[0].shape[:d] + (len(es),) + es[0].shape[d:]
        if any(isinstance(e, Sp) for e in es):
            if not all(isinstance(e, Sp) for e in es):
                raise NoEx("stack")
            return Sp(sh, [(k[:d] + (i,) + k[d:], v) for i, e in enumerate(es) for k, v in e.ent])
        vs = [e.vals() for e in es]
        return Dn(sh, [vs[ix[d]][es[0].flat(ix[:d] + ix[d + 1:])] for ix in itertools.product(*map(range, sh))])

    def x_cat(self, I, A):
        es = self.seqx(I, A.get(0, "tensors"))
        es2 = [e for e in es if not (isinstance(e, Dn) and e.shape == (0,))] or es[:1]
        d = self.d(es2[0], A.get(1, "dim", 0))
        rest = es2[0].shape[:d] + es2[0].shape[d + 1:]
        if any(e.shape[:d] + e.shape[d + 1:] != rest for e in es2):
            raise NoEx("cat")
        n = sum(e.shape[d] for e in es2)
        sh = es2[0].shape[:d] + (n,) + es2[0].shape[d + 1:]
        if any(isinstance(e, Sp) for e in es2):
            if not all(isinstance(e, Sp) for e in es2):
                raise NoEx("cat")
            ent, p = [], 0
            for e in es2:
                ent += [(k[:d] + (k[d] + p,) + k[d + 1:], v) for k, v in e.ent]
                p += e.shape[d]
            return Sp(sh, ent)
        loc = [(e, i) for e in es2 for i in range(e.shape[d])]
        return Dn(sh, [loc[ix[d]][0].buf[loc[ix[d]][0].pos[loc[ix[d]][0].flat(ix[:d] + (loc[ix[d]][1],) + ix[d + 1:])]] for ix in itertools.product(*map(range, sh))])

    x_concat = x_concatenate = x_cat

    def x_vstack(self, I, A):
        es = self.seqx(I, A.get(0, "tensors"))
        if any(len(e.shape) < 2 for e in es):
            return self.x_stack(I, Args([A.get(0, "tensors")], {}))
        return self.x_cat(I, Args([A.get(0, "tensors")], {}))

    def x_repeat_interleave(self, I, A):
        e = dense(A.a[0])
        q = A.get(1, "repeats")
        dim = A.get(2, "dim")
        if dim is None:
            e = self.resh(e, (numel(e.shape),))
            dim = 0
        dim = self.d(e, dim)
        n = e.shape[dim]
        r = ints(q)
        r = r * n if len(r) == 1 else r
        if len(r) != n:
            raise NoEx("repeats")
        out = self.take(e, dim, [i for i in range(n) for _ in range(r[i])])
        return Dn(out.shape, out.vals())

    def x_repeat(self, I, A):
        e = dense(A.a[0])
        r = [i for x in A.a[1:] for i in ints(x)]
        sh0 = (1,) * (len(r) - len(e.shape)) + e.shape
        e = Dn(sh0, buf=e.buf, pos=e.pos)
        sh = tuple(a * b for a, b in zip(sh0, r))
        v = e.vals()
        return Dn(sh, [v[e.flat([i % n for i, n in zip(ix, sh0)])] for ix in itertools.product(*map(range, sh))])

    def x_tile(self, I, A):
        return self.x_repeat(I, A)

    def x_expand(self, I, A):
        e = dense(A.a[0])
        s = [i for x in (A.a[1:] or [A.k["size"]]) for i in ints(x)]
        sh0 = (1,) * (len(s) - len(e.shape)) + e.shape
        return expand(e, tuple(b if a == -1 else a for a, b in zip(s, sh0)))

    x_broadcast_to = x_expand

    # ----- products -------------------------------------------------------------------------------------
    def x_matmul(self, I, A):
        a, b = ex(A.a[0]), ex(A.get(1, "mat2", A.k.get("other", A.k.get("vec"))))
        va = len(a.shape) == 1
        vb = len(b.shape) == 1
        if len(a.shape) > 2 or len(b.shape) > 2:
            if len(b.shape) == 2 and isinstance(a, Dn) and len(a.shape) > 2:
                q = self.mm(self.resh(a, (-1, a.shape[-1])), b)
                return self.resh(q if isinstance(q, Dn) else densify(q), a.shape[:-1] + (b.shape[1],))
            if len(a.shape) == len(b.shape) == 3 and a.shape[0] == b.shape[0] and isinstance(a, Dn) and isinstance(b, Dn):
                out = []
                for i in range(a.shape[0]):
                    out += self.mm(self.resh(self.take(a, 0, [i]), a.shape[1:]), self.resh(self.take(b, 0, [i]), b.shape[1:])).vals()
                return Dn((a.shape[0], a.shape[1], b.shape[2]), out)
            raise NoEx("matmul")
        if va:
            a = self.resh(a, (1, a.shape[0])) if isinstance(a, Dn) else Sp((1,) + a.shape, [((0,) + k, v) for k, v in a.ent])
        if vb:
            b = self.resh(b, (b.shape[0], 1)) if isinstance(b, Dn) else Sp(b.shape + (1,), [(k + (0,), v) for k, v in b.ent])
        r = self.mm(a, b)
        if va or vb:
            if isinstance(r, Sp):
                r = densify(r)
            sh = (() if va else (r.shape[0],)) + (() if vb else (r.shape[1],))
            r = Dn(sh, buf=r.buf, pos=r.pos)
        return r

    def mm(self, a, b):
        if a.shape[1] != b.shape[0]:
            raise NoEx("mm")
        if isinstance(a, Sp):
            rows = {}
            for (i, k), v in sorted(a.merged().items()):
                rows.setdefault(i, []).append((k, v))
        else:
            if not isinstance(b, Dn):
                a, b = a, densify(b)
            v = a.vals()
            rows = {i: [(k, v[i * a.shape[1] + k]) for k in range(a.shape[1]) if isinstance(v[i * a.shape[1] + k], E.Ex) or v[i * a.shape[1] + k] != 0] for i in range(a.shape[0])}
        if isinstance(b, Sp):
            bc = {}
            for (k, j), v in b.merged().items():
                bc.setdefault(k, []).append((j, v))
        else:
            v = b.vals()
            m = b.shape[1]
            bc = {k: [(j, v[k * m + j]) for j in range(m)] for k in range(b.shape[0])}
        acc = {}
        for i, ks in rows.items():
            for k, x in ks:
                for j, y in bc.get(k, ()):
                    p = E.mul(wrapint(x), wrapint(y))
                    acc.setdefault((i, j), []).append(p)
        out = {}
        for ij, ps in acc.items():
            s = 0
            for p in ps:
                s = E.add(s, p)
            out[ij] = s
        sh = (a.shape[0], b.shape[1])
        if isinstance(a, Sp) and isinstance(b, Sp):
            return Sp(sh, sorted(out.items(), key=lambda kv: kv[0]))
        return Dn(sh, [out.get(ix, 0) for ix in itertools.product(*map(range, sh))])

    x_mm = x_mv = x_spmm = x_smm = x_bmm = x_dot = x_matmul

    def x_outer(self, I, A):
        a, b = dense(A.a[0]).vals(), dense(A.get(1, "vec2", A.k.get("other"))).vals()
        return Dn((len(a), len(b)), [E.mul(x, y) for x in a for y in b])

    x_ger = x_outer

    def x_einsum(self, I, A):
        eq = A.a[0]
        ops = A.a[1:]
        if len(ops) == 1 and isinstance(ops[0], (ListV, TupV)):
            ops = list(ops[0].items)
        if not isinstance(eq, str) or "." in eq:
            raise NoEx("einsum")
        eq = eq.replace(" ", "")
        lhs, arrow, out = eq.partition("->")
        ins = lhs.split(",")
        if not arrow:
            al = "".join(ins)
            out = "".join(sorted(c for c in set(al) if al.count(c) == 1))
        es = [dense(o) for o in ops]
        if len(ins) != len(es):
            raise NoEx("einsum")
        size = {}
        for s, e in zip(ins, es):
            if len(s) != len(e.shape):
                raise NoEx("einsum")
            for c, n in zip(s, e.shape):
                size[c] = n
        red = [c for c in size if c not in out]
        vs = [e.vals() for e in es]
        res = []
        for ix in itertools.product(*(range(size[c]) for c in out)):
            env = dict(zip(out, ix))
            acc = 0
            for rx in itertools.product(*(range(size[c]) for c in red)):
                env.update(zip(red, rx))
                p = 1
                for s, e, v in zip(ins, es, vs):
                    p = E.mul(p, wrapint(v[e.flat([env[c] for c in s])]))
                acc = E.add(acc, p)
            res.append(acc)
        return Dn([size[c] for c in out], res)

    def x_kron(self, I, A):
        a, b = ex(A.a[0]), ex(A.get(1, "other"))
        if len(a.shape) != len(b.shape):
            raise NoEx("kron")
        sh = tuple(x * y for x, y in zip(a.shape, b.shape))
        ea, eb = entries(a), entries(b)
        d = {tuple(i * n + j for i, j, n in zip(p, q, b.shape)): E.mul(v, w) for p, v in ea.items() for q, w in eb.items()}
        return Dn(sh, [d.get(ix, 0) for ix in itertools.product(*map(range, sh))])

    # ----- elementwise, reductions -----------------------------------------------------------------------
    def x_logical_not(self, I, A):
        def f(v):
            if isinstance(v, E.Ex):
                raise NoEx("logical_not")
            return not v

        return self.map(ex(A.a[0]), f)

    x_bitwise_not = x_logical_not

    def x_masked_select(self, I, A):
        a, m = dense(A.a[0]), dense(A.get(1, "mask"))
        sh = bshape(a.shape, m.shape)
        v = [x for x, q in zip(expand(a, sh).vals(), expand(m, sh).vals()) if q]
        return Dn((len(v),), v)

    def x_take(self, I, A):
        a, q = dense(A.a[0]), dense(A.get(1, "index"))
        v = a.vals()
        if any(not -len(v) <= i < len(v) for i in q.vals()):
            raise NoEx("range")
        return Dn(q.shape, [v[i] for i in q.vals()])

    def x_gather(self, I, A):
        a, q = dense(A.a[0]), dense(A.get(2, "index"))
        d = self.d(a, A.get(1, "dim"))
        out = []
        for ix, i in zip(itertools.product(*map(range, q.shape)), q.vals()):
            if not 0 <= i < a.shape[d]:
                raise NoEx("range")
            out.append(a.vals()[a_flat(a.shape, ix[:d] + (i,) + ix[d + 1:])])
        return Dn(q.shape, out)

    def rounded(f):
        def x(self, I, A):
            def g(v):
                if isinstance(v, E.Ex):
                    raise NoEx("round")
                return E.num(f(v)) if not isinstance(v, int) else v

            return self.map(ex(A.a[0]), g)

        return x

    x_floor, x_ceil, x_trunc = rounded(math.floor), rounded(math.ceil), rounded(math.trunc)
    del rounded

    def x_cumsum(self, I, A):
        e = dense(A.a[0])
        d = self.d(e, A.get(1, "dim"))
        out = {}
        for ix in itertools.product(*map(range, e.shape)):
            v = e.vals()[a_flat(e.shape, ix)]
            p = ix[:d] + (ix[d] - 1,) + ix[d + 1:]
            out[ix] = E.add(out[p], wrapint(v)) if ix[d] else wrapint(v)
        return Dn(e.shape, [out[ix] for ix in itertools.product(*map(range, e.shape))])

    def x_roll(self, I, A):
        e = dense(A.a[0])
        sh, ds = A.get(1, "shifts"), A.get(2, "dims")
        if ds is None:
            n = numel(e.shape)
            k = one(sh)
            v = e.vals()
            return Dn(e.shape, [v[(i - k) % n] for i in range(n)])
        sh, ds = list(ints(sh)), [self.d(e, i) for i in ints(ds)]
        out = []
        for ix in itertools.product(*map(range, e.shape)):
            j = list(ix)
            for k, d in zip(sh, ds):
                j[d] = (j[d] - k) % e.shape[d]
            out.append(e.vals()[a_flat(e.shape, j)])
        return Dn(e.shape, out)

    def x_diff(self, I, A):
        e = dense(A.a[0])
        if one(A.get(1, "n", 1)) != 1 or len(A.a) > 3 or any(k in A.k for k in ("prepend", "append")):
            raise NoEx("diff")
        d = self.d(e, A.get(2, "dim", -1))
        n = e.shape[d]
        a, b = self.take(e, d, list(range(1, n))), self.take(e, d, list(range(0, n - 1)))
        return Dn(a.shape, [E.sub(wrapint(x), wrapint(y)) for x, y in zip(a.vals(), b.vals())])

    def x_sqrt(self, I, A):
        return self.map(ex(A.a[0]), E.sqrt)

    def x_square(self, I, A):
        return self.map(ex(A.a[0]), lambda v: E.mul(v, v))

    def x_abs(self, I, A):
        def f(v):
            if isinstance(v, E.Ex):
                return E.func("abs", v)
            return abs(v)

        return self.map(ex(A.a[0]), f)

    x_absolute = x_abs

    def x_neg(self, I, A):
        return self.map(ex(A.a[0]), E.neg)

    def x_reciprocal(self, I, A):
        return self.map(ex(A.a[0]), E.inv)

    def reduce(self, A, f, full=None):
        e = dense(A.a[0])
        d = A.get(1, "dim", A.k.get("axis"))
        keep = A.get(2, "keepdim", False) is True
        if d is None:
            return Dn((1,) * len(e.shape) if keep else (), [f(e.vals())])
        ds = [self.d(e, i) for i in ints(d)]
        v = e.vals()
        g = {}
        for ix in itertools.product(*map(range, e.shape)):
            key = tuple(0 if i in ds else x for i, x in enumerate(ix))
            g.setdefault(key, []).append(v[e.flat(ix)])
        sh = tuple(1 if i in ds else n for i, n in enumerate(e.shape))
        out = Dn(sh, [f(g.get(ix, [])) for ix in itertools.product(*map(range, sh))])
        if not keep:
            out = Dn(tuple(n for i, n in enumerate(sh) if i not in ds), buf=out.buf, pos=out.pos)
        return out

    @staticmethod
    def total(v):
        s = 0
        for x in v:
            s = E.add(s, wrapint(x))
        return s

    def x_sum(self, I, A):
        return self.reduce(A, self.total)

    def ext(self, f):
        def g(v):
            if not v or any(isinstance(x, E.Ex) for x in v):
                raise NoEx("extremum")
            return f(v)

        return g

    def x_max(self, I, A):
        if len(A.a) > 1 or A.k:
            raise NoEx("max")
        if 0 in ex(A.a[0]).shape:
            I.raise_("RuntimeError", "max of a tensor without elements")
        return self.reduce(A, self.ext(max))

    def x_min(self, I, A):
        if len(A.a) > 1 or A.k:
            raise NoEx("min")
        if 0 in ex(A.a[0]).shape:
            I.raise_("RuntimeError", "min of a tensor without elements")
        return self.reduce(A, self.ext(min))

    def x_amax(self, I, A):
        return self.reduce(A, self.ext(max))

    def x_amin(self, I, A):
        return self.reduce(A, self.ext(min))

    def tv(self, x):
        if isinstance(x, E.Ex):
            raise NoEx("truth")
        return bool(x)

    def x_any(self, I, A):
        return self.reduce(A, lambda v: any(self.tv(x) for x in v))

    def x_all(self, I, A):
        return self.reduce(A, lambda v: all(self.tv(x) for x in v))

    def nrm(self, v):
        s = E.sqrt(self.total([E.mul(x, x) for x in v]))
        if s is None:
            raise NoEx("norm")
        return s

    def x_norm(self, I, A):
        p = A.k.get("p", A.k.get("ord", A.a[1] if len(A.a) > 1 else None))
        if p not in (None, 2, "fro"):
            raise NoEx("norm")
        k = {q: w for q, w in A.k.items() if q in ("dim", "keepdim")}
        return self.reduce(Args(A.a[:1], k), self.nrm)

    def x_native_norm(self, I, A):
        if len(A.a) > 1:
            raise NoEx("norm")
        e = ex(A.a[0])
        return Dn((), [self.nrm([v for _, v in e.coalesced().ent] if isinstance(e, Sp) else e.vals())])

    def x_where(self, I, A):
        c, a, b = A.a[0], A.get(1, "input"), A.get(2, "other")
        if len(A.a) < 3:
            raise NoEx("where")
        C = dense(c)
        q = [dense(x) if isinstance(x, TensorV) else Dn((), [scalar(x)]) for x in (a, b)]
        sh = bshape(bshape(C.shape, q[0].shape), q[1].shape)
        return Dn(sh, [x if self.tv(k) else y for k, x, y in zip(expand(C, sh).vals(), expand(q[0], sh).vals(), expand(q[1], sh).vals())])

    def x_nonzero(self, I, A):
        e = dense(A.a[0])
        if A.k.get("as_tuple"):
            raise NoEx("nonzero")
        ix = sorted(entries(e))
        return Dn((len(ix), len(e.shape)), [i for k in ix for i in k])

    def x_unique_consecutive(self, I, A):
        v = dense(A.a[0]).vals()
        if any(isinstance(x, E.Ex) for x in v) or A.k.get("dim") is not None or A.k.get("return_inverse"):
            raise NoEx("unique")
        u, c = [], []
        for x in v:
            if u and u[-1] == x:
                c[-1] += 1
            else:
                u.append(x)
                c.append(1)
        u, c = Dn((len(u),), u), Dn((len(c),), c)
        return [u, c] if A.k.get("return_counts") else u

    def x_unique(self, I, A):
        v = dense(A.a[0]).vals()
        if any(isinstance(x, E.Ex) for x in v) or A.k.get("dim") is not None or A.k.get("return_inverse"):
            raise NoEx("unique")
        u = sorted(set(v))
        c = [v.count(x) for x in u]
        u, c = Dn((len(u),), u), Dn((len(c),), c)
        return [u, c] if A.k.get("return_counts") else u

    def x_bincount(self, I, A):
        v = ints(A.a[0])
        if "weights" in A.k or len(A.a) > 1:
            raise NoEx("bincount")
        n = max(max(v, default=-1) + 1, one(A.k.get("minlength", 0)))
        return Dn((n,), [v.count(i) for i in range(n)])

    def x_item(self, I, A):
        v = scalar(A.a[0])
        if isinstance(v, E.Ex):
            return TopV(A.a[0].d, "data", ("ex", v))
        return v if isinstance(v, (bool, int)) else float(v)

    def x_tolist(self, I, A):
        e = dense(A.a[0])
        v = e.vals()
        if any(isinstance(x, E.Ex) for x in v):
            raise NoEx("tolist")

        def build(sh, o):
            if not sh:
                x = v[o]
                return x if isinstance(x, (bool, int)) else float(x)
            st = numel(sh[1:])
            return ListV([build(sh[1:], o + i * st) for i in range(sh[0])])

        return build(e.shape, 0)

    # ----- sparse -----------------------------------------------------------------------------------------
    def x_sparse_coo_tensor(self, I, A):
        idx, vals, size = A.get(0, "indices"), A.get(1, "values"), A.get(2, "size")
        if not isinstance(idx, TensorV) or not isinstance(vals, TensorV):
            raise NoEx("sparse")
        i, v = dense(idx), dense(vals)
        if len(i.shape) != 2 or len(v.shape) != 1 or i.shape[1] != v.shape[0]:
            raise NoEx("sparse")
        q = i.vals()
        nd, n = i.shape
        if not all(isinstance(x, int) for x in q):
            raise NoEx("sparse indices")
        ks = [tuple(q[d * n + j] for d in range(nd)) for j in range(n)]
        if size is None:
            sh = tuple(max(k[d] for k in ks) + 1 for d in range(nd)) if ks else (0,) * nd
        else:
            sh = tuple(ints(size))
        if len(sh) != nd:
            raise NoEx("sparse size")
        for k in ks:
            for x, m in zip(k, sh):
                if not 0 <= x < m:
                    I.raise_("RuntimeError", "sparse_coo_tensor: index %s is outside of the size %s" % (list(k), list(sh)))
        vv = [wrapint(x) for x in v.vals()]
        return Sp(sh, list(zip(ks, vv)))

    def x_coalesce(self, I, A):
        e = ex(A.a[0])
        if not isinstance(e, Sp):
            raise NoEx("coalesce")
        return e.coalesced()

    def x_indices(self, I, A):
        e = ex(A.a[0])
        if not isinstance(e, Sp):
            raise NoEx("indices")
        if e.loose:
            I.raise_("RuntimeError", "Cannot get indices on an uncoalesced tensor, please call .coalesce() first")
        return Dn((len(e.shape), len(e.ent)), [k[d] for d in range(len(e.shape)) for k, _ in e.ent])

    def x__indices(self, I, A):
        e = ex(A.a[0])
        if not isinstance(e, Sp):
            raise NoEx("indices")
        return Dn((len(e.shape), len(e.ent)), [k[d] for d in range(len(e.shape)) for k, _ in e.ent])

    def x_values(self, I, A):
        e = ex(A.a[0])
        if not isinstance(e, Sp):
            raise NoEx("values")
        if e.loose:
            I.raise_("RuntimeError", "Cannot get values on an uncoalesced tensor, please call .coalesce() first")
        return Dn((len(e.ent),), [v for _, v in e.ent])

    def x__values(self, I, A):
        e = ex(A.a[0])
        if not isinstance(e, Sp):
            raise NoEx("values")
        return Dn((len(e.ent),), [v for _, v in e.ent])

    def x_is_coalesced(self, I, A):
        e = ex(A.a[0])
        if isinstance(e, Sp) and e.loose:
            return False
        raise NoEx("is_coalesced")

    def x__nnz(self, I, A):
        e = ex(A.a[0])
        if isinstance(e, Sp):
            return len(e.ent)
        raise NoEx("nnz")

    def x_to_dense(self, I, A):
        return densify(ex(A.a[0])) if isinstance(ex(A.a[0]), Sp) else ex(A.a[0])

    def x_to_sparse(self, I, A):
        e = ex(A.a[0])
        if isinstance(e, Sp):
            return e
        if len(A.a) > 1 or A.k:
            raise NoEx("to_sparse")
        return Sp(e.shape, sorted(entries(e).items()))

    x_to_sparse_coo = x_to_sparse

    def x_qr(self, I, A):
        e = dense(A.a[0])
        if len(e.shape) != 2:
            raise NoEx("qr")
        m, n = e.shape
        key = (e.shape, tuple(e.vals()))
        mode = A.get(1, "mode", "reduced")
        k = m if mode == "complete" else min(m, n)
        return [Dn((m, k), [E.atom("qr", key, i, j) for i in range(m) for j in range(k)]),
                Dn((k, n), [E.atom("qrR", key, i, j) if j >= i else 0 for i in range(k) for j in range(n)])]

    # ----- padding, convolution -------------------------------------------------------------------------------
    def x_pad(self, I, A):
        e = dense(A.get(0, "input"))
        pads = ints(A.get(1, "pad"))
        mode, val = A.get(2, "mode", "constant"), A.get(3, "value")
        n = len(e.shape)
        for q in range(len(pads) // 2):
            d = n - 1 - q
            a, b = pads[2 * q], pads[2 * q + 1]
            m = e.shape[d]
            sel = []
            for i in range(-a, m + b):
                if 0 <= i < m:
                    sel.append(i)
                elif mode == "constant":
                    sel.append(None)
                elif mode == "replicate":
                    sel.append(0 if i < 0 else m - 1)
                elif mode == "circular":
                    sel.append(i % m)
                elif mode == "reflect":
                    sel.append(-i if i < 0 else 2 * m - 2 - i)
                else:
                    raise NoEx("pad")
            if any(s is not None and not 0 <= s < m for s in sel):
                raise NoEx("pad")
            v = e.vals()
            z = 0 if val is None else scalar(val)
            sh = e.shape[:d] + (len(sel),) + e.shape[d + 1:]
            e = Dn(sh, [z if sel[ix[d]] is None else v[e.flat(ix[:d] + (sel[ix[d]],) + ix[d + 1:])] for ix in itertools.product(*map(range, sh))])
        return e

    def convx(self, I, A, nd, tr):
        g = self._conv_args(I, A.a, A.k, nd, tr)
        x, w = dense(g["input"]), dense(g["weight"])
        if g["bias"] is not None or g["groups"] != 1 and tr:
            raise NoEx("conv")
        if len(x.shape) != nd + 2 or len(w.shape) != nd + 2:
            raise NoEx("conv rank")
        st, pd, dl = g["stride"], g["padding"], g["dilation"]
        if not all(isinstance(q, int) for q in st + pd + dl):
            raise NoEx("conv")
        xs, ws = x.shape[2:], w.shape[2:]
        xv, wv = x.vals(), w.vals()
        gr = g["groups"]
        if tr:
            if any(q != 0 for q in g["output_padding"]):
                raise NoEx("conv")
            out = tuple((n - 1) * s - 2 * p + d * (k - 1) + 1 for n, s, p, d, k in zip(xs, st, pd, dl, ws))
            ci, co = w.shape[0], w.shape[1]
        else:
            out = tuple((n + 2 * p - d * (k - 1) - 1) // s + 1 for n, s, p, d, k in zip(xs, st, pd, dl, ws))
            co, ci = w.shape[0], w.shape[1]
        if any(o <= 0 for o in out) or x.shape[1] != ci * (1 if tr else gr):
            raise NoEx("conv")
        sh = (x.shape[0], co) + out
        acc = {}
        for b in range(x.shape[0]):
            for c in range(co):
                for k in range(ci):
                    xc = k if tr else (c // (co // gr)) * ci + k
                    for wi in itertools.product(*map(range, ws)):
                        wt = wv[w.flat(((k, c) if tr else (c, k)) + wi)]
                        if not isinstance(wt, E.Ex) and wt == 0:
                            continue
                        if tr:
                            for xi in itertools.product(*map(range, xs)):
                                o = tuple(i * s + j * d - p for i, s, j, d, p in zip(xi, st, wi, dl, pd))
                                if all(0 <= q < n for q, n in zip(o, out)):
                                    acc.setdefault((b, c) + o, []).append(E.mul(wt, xv[x.flat((b, xc) + xi)]))
                        else:
                            for o in itertools.product(*map(range, out)):
                                xi = tuple(i * s + j * d - p for i, s, j, d, p in zip(o, st, wi, dl, pd))
                                if all(0 <= q < n for q, n in zip(xi, xs)):
                                    acc.setdefault((b, c) + o, []).append(E.mul(wt, xv[x.flat((b, xc) + xi)]))
        return Dn(sh, [self.total(acc.get(ix, [])) for ix in itertools.product(*map(range, sh))])

    def x_conv1d(self, I, A):
        return self.convx(I, A, 1, False)

    def x_conv2d(self, I, A):
        return self.convx(I, A, 2, False)

    def x_conv3d(self, I, A):
        return self.convx(I, A, 3, False)

    def x_conv_transpose1d(self, I, A):
        return self.convx(I, A, 1, True)

    def x_conv_transpose2d(self, I, A):
        return self.convx(I, A, 2, True)

    def x_conv_transpose3d(self, I, A):
        return self.convx(I, A, 3, True)


def exact_tensor(I, t, name):
    """Give the tensor t of known shape opaque entries."""
    t.ex = Dn(t.dims, [E.atom("in", name, ix) for ix in itertools.product(*map(range, t.dims))])
    return t
