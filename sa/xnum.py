"""Exact numpy arrays, complex scalars, Fourier transforms and wavelet functions.

A numpy array with exact contents wraps an exact tensor (on the CPU) and delegates to the
torch models.  A Fourier transform is kept as the zero-padded time signal it belongs to,
so that a product of transforms followed by the inverse transform is the circular
convolution (the convolution theorem is the trusted fact).
"""

from __future__ import annotations

import math
from fractions import Fraction

from . import expr as E
from . import poly as P
from . import values as V
from .exact import Dn, NoEx, Sp, XTorch, dense, ex, expand, ints, numel, one, op2, scalar
from .models_misc import Numpy, Pywt, make_wavelet
from .models_torch import Args, BOOL, CPU, F32, FLOATS, INTS, LONG
from .values import *

F64 = DTypeV("float64")
C128 = DTypeV("complex128")


class NdX(NdV):
    """A numpy array (or scalar) with exact contents."""

    __slots__ = ("t",)

    def __init__(self, t, kind=None):
        super().__init__(t.dims, t.d, t.store.owner, kind or ("scalar" if t.dims == () else "ndarray"), t.dtype)
        self.t = t


def cnum(v):
    """A Python value for an exact scalar."""
    if isinstance(v, E.Ex):
        return TopV(kind="complex", key=("ex", v))
    return v


def nd_array(e, dtype=F64, owner=None):
    t = TensorV(e.shape, None, dtype, CPU, Storage(owner=owner))
    t.ex = e
    XTorch.attach(XTorch, None, t, e)
    return NdX(t)


class XNumpy(Numpy):
    TF = {"conj": "conj", "conjugate": "conj", "cumsum": "cumsum", "sqrt": "sqrt", "abs": "abs", "absolute": "abs", "floor": "floor", "ceil": "ceil", "exp": "exp",
          "sin": "sin", "cos": "cos", "flip": "flip", "square": "square", "diff": "diff", "reshape": "reshape", "ravel": "ravel", "sum": "sum", "log2": "log2",
          "trunc": "trunc", "round": "round", "rint": "round", "negative": "neg", "add": "add", "subtract": "sub", "multiply": "mul", "divide": "div", "true_divide": "div", "copy": "clone",
          "atleast_1d": "atleast_1d", "power": "pow", "maximum": "maximum", "minimum": "minimum", "max": "amax", "min": "amin", "amax": "amax", "amin": "amin", "expand_dims": "unsqueeze", "squeeze": "squeeze", "real": "real", "imag": "imag"}

    def out(self, r, *src):
        if isinstance(r, TensorV):
            if r.dtype == F32 and not any(isinstance(x, NdX) and x.dtype == F32 for x in src):
                r.dtype = F64
            if r.dims == () and r.ex is not None:
                v = r.ex.vals()[0]
                if not isinstance(v, (E.Ex, bool)):
                    return v
            return NdX(r)
        return r

    def arg(self, x):
        if isinstance(x, NdX):
            return x.t
        if isinstance(x, NdV):
            return TOP
        if isinstance(x, TupV):
            return TupV([self.arg(y) for y in x.items], star=x.star)
        if isinstance(x, ListV) and any(isinstance(y, NdV) for y in x.items):
            return ListV([self.arg(y) for y in x.items], star=x.star)
        return x

    def binary(self, I, op, a, b):
        if isinstance(a, NdX) or isinstance(b, NdX):
            x, y = self.arg(a), self.arg(b)
            if isinstance(x, (TensorV, int, float, Fraction)) and isinstance(y, (TensorV, int, float, Fraction)) or "complex" in (getattr(x, "kind", ""), getattr(y, "kind", "")):
                f = I.T.comparison if op in ("Eq", "NotEq", "Lt", "LtE", "Gt", "GtE") else I.T.binary
                return self.out(f(I, op, x, y), a, b)
        return super().binary(I, op, a, b)

    def unary(self, I, v, op):
        return self.out(I.T.unary(I, v.t, op), v) if isinstance(v, NdX) else super().unary(I, v, op)

    def inplace(self, I, op, old, val):
        if not isinstance(old, NdX) or old.kind == "scalar":
            return super().inplace(I, op, old, val)
        r = self.binary(I, op, old, val)
        if isinstance(r, NdX) and isinstance(r.dtype, DTypeV) and isinstance(old.dtype, DTypeV) and old.dtype.name in INTS and r.dtype.name not in INTS:
            I.raise_("TypeError", "cannot cast the result of an in-place operation to an integer array")
        I.T.inplace_result(I, old.t, r.t if isinstance(r, NdX) else r, "in-place arithmetic")
        return old

    def complex_lit(self, v):
        if v.real == 0 and v.imag == int(v.imag):
            return TopV(kind="complex", key=("ex", E.mul(int(v.imag), E.imag_unit())))
        return TopV(kind="complex")

    def complex_op(self, op, *a):
        r = super().complex_op(op, *a)
        if r.kind == "complex":
            try:
                v = [scalar(x) for x in a]
                r.key = ("ex", E.neg(v[0]) if op == "USub" else op2(op, *v))
            except NoEx:
                pass
        return r

    def iterate(self, I, v, unpack):
        if isinstance(v, NdX) and v.t.ex is not None and v.dims:
            return [self.getitem(I, v, i) for i in range(v.dims[0])], None
        return super().iterate(I, v, unpack)

    def getitem(self, I, o, k):
        if isinstance(o, NdX):
            return self.out(I.T.getitem(I, o.t, self.arg(k)), o)
        return super().getitem(I, o, k)

    def setitem(self, I, o, k, v):
        if isinstance(o, NdX):
            I.T.setitem(I, o.t, self.arg(k), self.arg(v))
        else:
            super().setitem(I, o, k, v)

    def getattr(self, I, o, name):
        if not isinstance(o, NdX):
            return super().getattr(I, o, name)
        if name in ("shape", "ndim", "dtype", "size"):
            return super().getattr(I, NdV(o.dims, o.d, dtype=o.dtype), name)
        if name in ("real", "imag", "T"):
            return self.out(I.T.getattr(I, o.t, name), o)

        def f(i, a, k):
            if name == "astype":
                d = a[0]
                if isinstance(d, DTypeV):
                    return NdX(i.T.cast(i, i.T.f_clone(i, [o.t], {}), d, CPU))
                return NdV(o.dims, o.d)
            if name == "item":
                return cnum(o.t.ex.vals()[0]) if o.t.ex is not None and numel(o.t.ex.shape) == 1 else TopV(o.d)
            if name == "tolist":
                its, st = i.N.iterate(i, o, None)
                return ListV(its, star=st)
            if name in self.TF:
                return self.call(i, name, [o] + list(a), k)
            if name in ("sort", "fill", "put", "itemset", "resize", "partition") and o.owner:
                i.effect("mutate", "ndarray.%s on caller-owned %s" % (name, o.owner), target=o.owner)
            return NdV(None, o.d)

        return NativeV("ndarray." + name, f)

    def call(self, I, name, a, k):
        x = a[0] if a else None
        if name in ("array", "asarray", "ascontiguousarray", "atleast_1d", "concatenate", "stack"):
            if isinstance(x, NdX) and name not in ("concatenate", "stack"):
                dt = k.get("dtype", a[1] if len(a) > 1 else None)
                t = x.t if name != "array" else I.T.fns["clone"](I, [x.t], {})
                if isinstance(dt, DTypeV):
                    t = I.T.cast(I, t, dt, CPU)
                if name == "atleast_1d" and t.dims == ():
                    t = I.T.fns["reshape"](I, [t, 1], {})
                return NdX(t)
            if name == "atleast_1d" and V.is_num(x):
                x = ListV([x])
            if isinstance(x, (ListV, TupV)) and x.star is None and x.items and all(V.is_num(y) or isinstance(y, NdX) for y in x.items) or name in ("array", "asarray") and V.is_num(x):
                try:
                    if isinstance(x, (ListV, TupV)) and any(isinstance(y, NdX) for y in x.items):
                        return NdX(I.T.fns["cat" if name == "concatenate" else "stack"](I, [self.arg(x)], {}))
                    e = I.T.lit(I, x)
                    dt = k.get("dtype", a[1] if len(a) > 1 else None)
                    return nd_array(e, dt if isinstance(dt, DTypeV) else LONG if all(isinstance(v, int) for v in e.vals()) else F64)
                except NoEx:
                    pass
        if name == "isscalar" and isinstance(x, NdX):
            return x.kind == "scalar"
        if name == "arange" and not k.get("dtype"):
            try:
                e = I.T.x_arange(I, Args(a, {}))
                return nd_array(e, LONG if all(isinstance(v, int) for v in e.vals()) else F64)
            except (NoEx, KeyError):
                pass
        if name in ("zeros", "ones", "full", "zeros_like", "ones_like") and not k.get("dtype"):
            try:
                return nd_array(getattr(I.T, "x_" + name)(I, Args([self.arg(y) for y in a], {})))
            except (NoEx, KeyError):
                pass
        if any(isinstance(y, NdX) for y in a):
            tf = self.TF.get(name)
            if tf:
                aa = [self.arg(y) for y in a]
                kk = {{"axis": "dim"}.get(q, q): self.arg(w) for q, w in k.items() if q not in ("dtype",)}
                if name in ("cumsum", "flip", "diff") and len(aa) == 1 and "dim" not in kk:
                    if name == "cumsum":
                        aa[0] = I.T.fns["reshape"](I, [aa[0], -1], {})
                    kk["dim"] = -1 if name != "flip" else TupV(list(range(len(aa[0].dims))))
                if name in ("reshape", "ravel"):
                    kk.pop("order", None)
                if tf in ("add", "sub", "mul", "div", "pow"):
                    return self.binary(I, {"add": "Add", "sub": "Sub", "mul": "Mult", "div": "Div", "pow": "Pow"}[tf], a[0], a[1])
                if tf in I.T.fns:
                    return self.out(I.T.fns[tf](I, aa, kk), *a)
            return NdV(None, frozenset().union(*[I.deps(y) for y in a]))
        return super().call(I, name, a, k)


# --------------------------------------------------------------------------- torch
class Spec:
    """Discrete Fourier transform (of length n, last dimension) of an exact signal."""

    def __init__(self, sig, n, half=False):
        self.sig, self.n, self.half = sig, n, half


def lastdim(e, d):
    return d == -1 or d == len(e.shape) - 1


class XTorchN(XTorch):
    """Adds real functions, Fourier transforms and numpy interoperability."""

    def __init__(self):
        for n, c in (("real", "_part"), ("imag", "_part")):
            setattr(self, "f_" + n, (lambda nm: lambda I, a, k: self.getattr(I, a[0], nm))(n))
        super().__init__()

    def spec(self, t):
        s = t.attrs.get("__spec") if isinstance(t, TensorV) else None
        if s is None:
            raise NoEx("no transform")
        return s

    def put(self, I, r, e):
        if isinstance(e, Spec):
            r.attrs["__spec"] = e
            r.ex = None
            n = e.n // 2 + 1 if e.half else e.n
            r.dims = e.sig.shape[:-1] + (n,)
            return r
        return super().put(I, r, e)

    def conv_arg(self, I, x):
        if isinstance(x, NdX):
            if x.t.dims == () and x.t.ex is not None:
                return cnum(x.t.ex.vals()[0])
            return x.t
        return x

    def binary(self, I, op, a, b):
        a, b = self.conv_arg(I, a), self.conv_arg(I, b)
        if not isinstance(a, TensorV) and not isinstance(b, TensorV):
            return I.binop(op, a, b)
        r = super().binary(I, op, a, b)
        try:
            return self.put(I, r, self.spec_arith(op, a, b))
        except NoEx:
            return r

    def spec_arith(self, op, a, b):
        sa = a.attrs.get("__spec") if isinstance(a, TensorV) else None
        sb = b.attrs.get("__spec") if isinstance(b, TensorV) else None
        if sa is None and sb is None:
            raise NoEx("no transform")
        if sa is not None and sb is not None:
            if sa.n != sb.n or sa.half != sb.half:
                raise NoEx("lengths")
            if op == "Mult":
                return Spec(self.circ(sa.sig, sb.sig, sa.n), sa.n, sa.half)
            if op in ("Add", "Sub"):
                return Spec(self.ew(op, sa.sig, sb.sig), sa.n, sa.half)
            raise NoEx(op)
        s, o = (sa, b) if sa is not None else (sb, a)
        if op == "Mult" or op == "Div" and s is sa:
            c = scalar(o)
            return Spec(self.map(s.sig, lambda v: op2(op, v, c)), s.n, s.half)
        raise NoEx(op)

    def ew(self, op, a, b):
        from .exact import bshape
        sh = bshape(a.shape, b.shape)
        return Dn(sh, [op2(op, x, y) for x, y in zip(expand(a, sh).vals(), expand(b, sh).vals())])

    def circ(self, a, b, n):
        from .exact import bshape
        lead = bshape(a.shape[:-1], b.shape[:-1])
        A, B = expand(a, lead + (n,)).vals(), expand(b, lead + (n,)).vals()
        out = []
        for q in range(numel(lead)):
            x, y = A[q * n:q * n + n], B[q * n:q * n + n]
            r = [0] * n
            for i, u in enumerate(x):
                if u == 0 and not isinstance(u, E.Ex):
                    continue
                for j, v in enumerate(y):
                    if v == 0 and not isinstance(v, E.Ex):
                        continue
                    k = (i + j) % n
                    r[k] = E.add(r[k], E.mul(u, v))
            out += r
        return Dn(lead + (n,), out)

    def x_fft(self, I, A, half=False):
        e = dense(A.get(0, "input"))
        if A.get(3, "norm") not in (None, "backward") or not lastdim(e, A.get(2, "dim", -1)):
            raise NoEx("fft")
        n = A.get(1, "n")
        n = e.shape[-1] if n is None else one(n)
        k = e.shape[-1]
        v = e.vals()
        rows = [v[i:i + k] for i in range(0, len(v), k)]
        return Spec(Dn(e.shape[:-1] + (n,), [x for r in rows for x in (r + [0] * n)[:n]]), n, half)

    def x_rfft(self, I, A):
        e = dense(A.get(0, "input"))
        if any(E.conj(v) != v for v in e.vals()):
            raise NoEx("complex")
        return self.x_fft(I, A, True)

    def x_ifft(self, I, A, half=False):
        s = self.spec(A.get(0, "input"))
        n = A.get(1, "n")
        if s.half != half or A.get(3, "norm") not in (None, "backward") or not lastdim(s.sig, A.get(2, "dim", -1)):
            raise NoEx("ifft")
        if half and n is None and s.n % 2 or n is not None and one(n) != s.n:
            raise NoEx("ifft length")
        return Dn(s.sig.shape, s.sig.vals())

    def x_irfft(self, I, A):
        return self.x_ifft(I, A, True)

    def inplace_result(self, I, old, new, what):
        s = new.attrs.get("__spec") if isinstance(new, TensorV) else None
        r = super().inplace_result(I, old, new, what)
        old.attrs.pop("__spec", None)
        if s is not None:
            old.attrs["__spec"] = s
        return r

    def setitem(self, I, t, k, v):
        t.attrs.pop("__spec", None)
        return super().setitem(I, t, k if not isinstance(k, NdX) else k.t, self.conv_arg(I, v))

    def getitem(self, I, t, k):
        if isinstance(k, NdX):
            k = k.t
        return super().getitem(I, t, k)

    def comparison(self, I, op, a, b):
        return super().comparison(I, op, self.conv_arg(I, a), self.conv_arg(I, b))

    def getattr(self, I, t, name):
        if name in ("real", "imag") and t.ex is not None:
            r = super().getattr(I, t, name)
            try:
                return self.attach(I, r, self.map(dense(t), E.real if name == "real" else E.imag))
            except NoEx:
                return r
        return super().getattr(I, t, name)

    def lit(self, I, d):
        if isinstance(d, NdX):
            e = dense(d.t)
            return Dn(e.shape, e.vals())
        return super().lit(I, d)

    def cast(self, I, t, dt, dev):
        r = super().cast(I, t, dt, dev)
        if r is not t and "__spec" in t.attrs:
            r.attrs["__spec"] = t.attrs["__spec"]
        return r

    def x_from_numpy(self, I, A):
        d = A.get(0, "data")
        if isinstance(d, NdX):
            return ex(d.t)
        raise NoEx("array")

    def f_numpy(self, I, args, kwargs):
        r = super().f_numpy(I, args, kwargs)
        t = args[0]
        if t.ex is None:
            return r
        q = self.attach(I, self.view(I, t, t.dims, None, True), t.ex)
        q.g = frozenset()
        return NdX(q)

    # ----- numbers ---------------------------------------------------------------------
    def x_arange(self, I, A):
        a = [scalar(self.conv_arg(I, x)) for x in A.a]
        if len(a) == 1:
            a = [0, a[0]]
        if not a:
            a = [scalar(A.k.get("start", 0)), scalar(A.k["end"])]
        elif len(a) == 1 or "end" in A.k:
            a = [a[0], scalar(A.k["end"])]
        st = a[2] if len(a) > 2 else scalar(A.k.get("step", 1))
        if any(isinstance(x, E.Ex) for x in a) or isinstance(st, E.Ex) or not st:
            raise NoEx("arange")
        n = max(0, math.ceil(Fraction(a[1] - a[0]) / Fraction(st)))
        if n > 100000:
            raise NoEx("large")
        return Dn((n,), [E.num(Fraction(a[0]) + i * Fraction(st)) for i in range(n)])

    def x_linspace(self, I, A):
        a, b, n = scalar(self.conv_arg(I, A.get(0, "start"))), scalar(self.conv_arg(I, A.get(1, "end"))), one(A.get(2, "steps"))
        if isinstance(a, E.Ex) or isinstance(b, E.Ex) or not 1 <= n <= 4096:
            raise NoEx("linspace")
        a, b = Fraction(a), Fraction(b)
        return Dn((n,), [E.num(a + (b - a) * i / (n - 1)) if n > 1 else E.num(a) for i in range(n)])

    def numeric(self, A, f):
        def g(v):
            if isinstance(v, E.Ex):
                raise NoEx("symbolic")
            return f(Fraction(v))
        return self.map(dense(A.get(0, "input")), g)

    def x_floor(self, I, A):
        return self.numeric(A, math.floor)

    def x_ceil(self, I, A):
        return self.numeric(A, math.ceil)

    def x_trunc(self, I, A):
        return self.numeric(A, math.trunc)

    def x_round(self, I, A):
        if len(A.a) > 1 or A.k.get("decimals"):
            raise NoEx("decimals")
        return self.numeric(A, round)

    def x_exp(self, I, A):
        return self.map(dense(A.get(0, "input")), lambda v: 1 if v == 0 and not isinstance(v, E.Ex) else E.func("exp", v))

    def x_sin(self, I, A):
        return self.map(dense(A.get(0, "input")), lambda v: 0 if v == 0 and not isinstance(v, E.Ex) else E.func("sin", v))

    def x_cos(self, I, A):
        return self.map(dense(A.get(0, "input")), lambda v: 1 if v == 0 and not isinstance(v, E.Ex) else E.func("cos", v))

    def x_conj(self, I, A):
        t = A.get(0, "input")
        if "__spec" in t.attrs:
            raise NoEx("conj of a transform")
        return self.map(dense(t), E.conj)

    x_conj_physical = x_conj
    x_resolve_conj = x_resolve_neg = lambda self, I, A: self.same(I, A)

    def x_cumsum(self, I, A):
        e = dense(A.get(0, "input"))
        d = self.d(e, A.get(1, "dim"))
        if A.k.get("dtype") is not None:
            raise NoEx("dtype")
        out = {}
        v = e.vals()
        for p, ix in enumerate(e.index()):
            q = ix[:d] + (ix[d] - 1,) + ix[d + 1:]
            out[ix] = E.add(out[q], v[p]) if ix[d] else v[p]
        return Dn(e.shape, [out[ix] for ix in e.index()])

    def x_diff(self, I, A):
        e = dense(A.get(0, "input"))
        n, d = A.get(1, "n", 1), self.d(e, A.get(2, "dim", -1))
        if A.k.get("prepend") is not None or A.k.get("append") is not None or not isinstance(n, int) or n < 0:
            raise NoEx("diff")
        for _ in range(n):
            k = e.shape[d]
            a, b = self.take(e, d, list(range(1, k))), self.take(e, d, list(range(k - 1)))
            e = Dn(a.shape, [E.sub(x, y) for x, y in zip(a.vals(), b.vals())])
        return e

    def x_masked_select(self, I, A):
        e, m = dense(A.get(0, "input")), dense(A.get(1, "mask"))
        if e.shape != m.shape:
            raise NoEx("mask")
        r = [x for x, q in zip(e.vals(), m.vals()) if self.tv(q)]
        return Dn((len(r),), r)


# --------------------------------------------------------------------------- pywt
class XPywt(Pywt):
    """Wavelets by name: 'c...' complex, 'd...' discrete, others real continuous; sampled at few points."""

    def call(self, I, name, a, k):
        x = a[0] if a else k.get("name")
        if name in ("DiscreteContinuousWavelet", "ContinuousWavelet") and isinstance(x, str):
            from .cwt import cont_wavelet
            return cont_wavelet(I, x, None)
        if name in ("scale2frequency", "_functions.scale2frequency"):
            A = Args(a, k)
            sc = A.get(1, "scale")
            fc = E.atom("in", "central_frequency", ())
            try:
                if isinstance(sc, NdX):
                    return nd_array(Dn(sc.t.ex.shape, [op2("Div", fc, v) for v in dense(sc.t).vals()]))
                if V.is_num(sc):
                    return nd_array(Dn((), [op2("Div", fc, scalar(sc))]))
            except NoEx:
                pass
        return super().call(I, name, a, k)

    def inst_attr(self, I, o, name):
        """Attributes of a differentiable wavelet that pywt derives from its name (generic numbers)."""
        return {"bandwidth_frequency": 3, "center_frequency": Fraction(3, 2), "lower_bound": Fraction(-7, 2), "upper_bound": Fraction(7, 2), "complex_cwt": True}.get(name)
