"""Transfer functions for torch tensors."""

from __future__ import annotations

from fractions import Fraction

from . import labels as L
from . import poly as P
from . import values as V
from .poly import Poly
from .values import *
from .interp import AbsRaise, builtin

FINFO = {
    "float16": (16, 2.0**-10, 2.0**-14, 65504.0), "bfloat16": (16, 2.0**-7, 2.0**-126, 3.3895313892515355e38),
    "float32": (32, 2.0**-23, 2.0**-126, 3.4028234663852886e38), "float64": (64, 2.0**-52, 2.0**-1022, 1.7976931348623157e308),
}
FINFO["complex64"], FINFO["complex128"] = FINFO["float32"], FINFO["float64"]
FLOATS = {"float16": 1, "bfloat16": 1, "float32": 2, "float64": 3}
COMPLEX = {"complex64": 2, "complex128": 3}
INTS = {"bool": 0, "uint8": 1, "int8": 1, "int16": 2, "int32": 3, "int64": 4}
LONG = DTypeV("int64")
BOOL = DTypeV("bool")
F32 = DTypeV("float32")
CPU = DeviceV("cpu")

CREATORS_NEED_NO_TENSOR = {
    "tensor", "as_tensor", "from_numpy", "zeros", "ones", "empty", "full", "eye", "rand", "randn", "randint", "randperm", "arange", "linspace", "logspace",
    "sparse_coo_tensor", "device", "finfo", "iinfo", "get_default_dtype", "asarray", "is_tensor", "scalar_tensor", "normal", "is_grad_enabled", "promote_types",
}
INPLACE_RANDOM = {"normal_", "uniform_", "random_", "bernoulli_", "exponential_"}


class Args:
    """Positional/keyword access for model functions."""

    def __init__(self, args, kwargs):
        self.a, self.k = list(args), dict(kwargs)

    def get(self, i, name, default=None):
        if i is not None and i < len(self.a):
            return self.a[i]
        return self.k.get(name, default)

    def two(self):
        return self.get(0, "input"), self.get(1, "other")

    def has(self, i, name):
        return (i is not None and i < len(self.a)) or name in self.k


def unalias(v):
    return v


CMPOPS = ("Eq", "NotEq", "Lt", "LtE", "Gt", "GtE")
PRODUCTS = ("conv1d", "conv2d", "conv3d", "conv_transpose1d", "conv_transpose2d", "conv_transpose3d", "matmul", "mm", "bmm", "kron", "outer", "tensordot", "inner", "dot", "vdot", "mv", "spmm", "hadamard")
SHRINK = ("threshold", "hardshrink", "softshrink", "tanhshrink", "leaky_relu", "gelu", "silu", "elu", "selu", "celu", "relu6", "hardtanh", "hardswish", "hardsigmoid",
          "softplus", "softsign", "mish", "logsigmoid", "clamp_min", "clamp_max", "logit", "expit", "atan", "asin", "acos", "arctan", "cbrt", "fmod", "remainder")
NONLINEAR = PRODUCTS + SHRINK + (
    "sqrt", "exp", "log", "sin", "cos", "tan", "tanh", "sigmoid", "relu", "abs", "absolute", "square", "log2", "log10", "reciprocal", "rsqrt",
    "sinh", "cosh", "erf", "sinc", "nan_to_num", "expm1", "log1p", "clamp", "clip", "floor", "ceil", "round", "trunc", "sign", "frac", "pow",
    "amax", "amin", "prod", "logsumexp", "max", "min", "maximum", "minimum", "sort", "argsort", "norm", "native_norm", "softmax", "fmod", "remainder",
    "where", "masked_fill", "masked_select", "cumprod", "unique", "nonzero", "threshold", "hardshrink", "softshrink", "median", "var", "std", "quantile",
    "floor_divide", "clamp_min", "clamp_max", "heaviside", "logaddexp", "hypot", "dropout", "normalize", "layer_norm", "leaky_relu", "gelu", "silu", "elu",
)


class Torch:
    def __init__(self):
        self.fns = {}
        for n in dir(self):
            if n.startswith("f_") and callable(getattr(self, n)):
                self.fns[n[2:]] = getattr(self, n)
        al = {
            "swapaxes": "transpose", "swapdims": "transpose", "concat": "cat", "concatenate": "cat",
            "clone": "clone", "moveaxis": "movedim", "absolute": "abs", "multiply": "mul",
            "subtract": "sub", "divide": "div", "true_divide": "div", "negative": "neg",
            "bmm": "matmul", "mm": "matmul", "spmm": "matmul", "dsmm": "matmul", "hsmm": "matmul", "mv": "matmul", "smm": "matmul",
            "row_stack": "vstack",
        }
        for a, b in al.items():
            if a not in self.fns and b in self.fns:
                self.fns[a] = self.fns[b]
        for n in ("amax", "amin", "prod", "logsumexp"):
            self.fns.setdefault(n, self.reduce_raw)
        for n in ("sqrt", "exp", "log", "sin", "cos", "tan", "tanh", "sigmoid", "relu", "abs", "square", "log2", "log10",
                  "reciprocal", "rsqrt", "sinh", "cosh", "erf", "sinc", "nan_to_num", "conj", "resolve_conj", "resolve_neg", "conj_physical",
                  "positive", "expm1", "log1p", "clamp", "clip") + SHRINK:
            self.fns.setdefault(n, self._elementwise)
        for n in ("floor", "ceil", "round", "trunc", "sign", "frac"):
            self.fns.setdefault(n, self._nograd_elementwise)
        for n in ("isnan", "isinf", "isfinite", "logical_not", "signbit", "isreal"):
            self.fns.setdefault(n, self._boolwise)
        for n in ("eq", "ne", "lt", "le", "gt", "ge", "logical_and", "logical_or", "isclose", "logical_xor"):
            self.fns.setdefault(n, (lambda nm: lambda I, a, k: self.comparison(I, {"eq": "Eq", "ne": "NotEq", "lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE"}.get(nm, nm), *Args(a, k).two()))(n))

        for n in NONLINEAR:
            if n in self.fns:
                self.fns[n] = self.nonlinear(n, self.fns[n])

    # ----- taints: marks in the dependence set, "!kind|what|where|data names" ----------
    def names(self, I, *xs):
        return sorted({y for x in xs for y in I.deps(x) if y[0] != "!"})

    def taint(self, I, r, kind, what, names):
        if isinstance(r, (TupV, ListV)):
            for x in r.items:
                self.taint(I, x, kind, what, names)
        elif isinstance(r, (TensorV, NdV)) and names:
            r.d = r.d | {"!%s|%s|%s|%s" % (kind, what, I.loc(), ",".join(names))}
        return r

    def bilinear(self, I, r, what, a, b):
        na, nb = self.names(I, a), self.names(I, b)
        if na and nb and isinstance(r, TensorV):
            r.d = r.d | {"!product|%s|%s|%s|%s" % (what, I.loc(), ",".join(na), ",".join(nb))}
        return r

    def nonlinear(self, name, fn):
        two = {"where": 1, "masked_fill": 1, "masked_select": 1, "gather": 0, "index_select": 0, "take_along_dim": 0}

        def f(I, args, kwargs):
            r = fn(I, args, kwargs)
            if name in PRODUCTS:
                if len(args) > 1:
                    self.bilinear(I, r, name, args[0], args[1])
                return r
            if name in two:
                sel = args[two[name] - 1] if name == "where" and args else kwargs.get("condition", kwargs.get("mask", args[1] if len(args) > 1 else None))
                return self.taint(I, r, "nonlinear", name, self.names(I, sel))
            return self.taint(I, r, "nonlinear", name, self.names(I, *[a for a in args if isinstance(a, (TensorV, TopV, NdV))]))

        return f

    def data_size(self, I, t, what):
        """The size of a result is the number of hits in ``t``."""
        src = sorted(x for x in t.d if not x.startswith("!"))
        if src:
            I.datactl.append({"loc": I.loc(), "deps": src, "why": "size of a selection (%s) decided by tensor values" % what})

    # ----- helpers -------------------------------------------------------------
    def new(self, I, dims, cont=None, dtype=None, device=None, src=()):
        g = frozenset()
        d = frozenset()
        for t in src:
            if isinstance(t, TensorV):
                g |= t.g
            d |= I.deps(t)
        if not I.grad_enabled:
            g = frozenset()
        t = TensorV(tuple(dims) if dims is not None else None, cont, dtype, device, None, g, d)
        t.reqgrad = bool(g)
        t.loc = I.loc()
        return t

    def view(self, I, t, dims, cont, contig):
        r = TensorV(tuple(dims) if dims is not None else None, cont, t.dtype, t.device, t.store, t.g if I.grad_enabled else frozenset(), t.d)
        r.contig = contig
        if dims is t.dims:
            r.strides = t.strides
        r.layout = t.layout
        r.ver = t.ver
        r.idt = t.idt
        r.loc = I.loc()
        return r

    def cont(self, t):
        if t.ver != getattr(t.store, "ver", 0):
            return None
        return t.cont

    def nd(self, I, t, d, extra=0):
        """Normalise a dimension index."""
        if isinstance(d, TensorV):
            e = getattr(d, "ex", None)
            v = e.vals() if e is not None and hasattr(e, "vals") and len(getattr(e, "pos", ())) == 1 else None
            if v and isinstance(v[0], int):
                d = v[0]
            elif isinstance(d.values, int):
                d = d.values
        if not isinstance(d, int):
            if isinstance(d, Poly):
                n = len(t.dims) + extra
                for i in range(-n, n):
                    if I.cell.decide_eq(P.sub(d, i)):
                        return i % n
            return None
        n = len(t.dims) + extra
        if n == 0:
            n = 1
        if d < -n or d >= n:
            I.raise_("IndexError", "Dimension out of range (expected [%d, %d), got %d)" % (-n, n, d))
        return d % n

    def unk(self, I, what, src, dims=None, dtype=None, device=None):
        I.unknown["%s" % what] = I.unknown.get(what, 0) + 1
        dts = {t.dtype for t in src if isinstance(t, TensorV)}
        dvs = {t.device for t in src if isinstance(t, TensorV)}
        t = self.new(I, dims, None, dtype or (next(iter(dts)) if len(dts) == 1 and False else TOP), device or (next(iter(dvs)) if len(dvs) == 1 else TOP), src)
        return t

    def same_device(self, I, ts, what):
        devs = []
        for t in ts:
            if isinstance(t, TensorV) and isinstance(t.device, DeviceV) and not (t.dims == ()):
                if t.device not in devs:
                    devs.append(t.device)
        if len(devs) > 1:
            I.raise_("RuntimeError", "%s: expected all tensors to be on the same device, found %s and %s" % (what, devs[0], devs[1]))
        for t in ts:
            if isinstance(t, TensorV) and isinstance(t.device, TopV):
                return devs[0] if False else TOP
        if devs:
            return devs[0]
        return next((t.device for t in ts if isinstance(t, TensorV)), CPU)

    def same_dtype(self, I, ts, what):
        dts = [t.dtype for t in ts if isinstance(t, TensorV)]
        if any(isinstance(x, TopV) for x in dts):
            return TOP
        if len(set(dts)) > 1:
            I.raise_("RuntimeError", "%s: expected tensors of the same dtype, found %s and %s" % (what, dts[0], [x for x in dts if x != dts[0]][0]))
        return dts[0] if dts else TOP

    def promote(self, ts):
        dts = [t.dtype for t in ts if isinstance(t, TensorV)]
        if any(isinstance(x, TopV) for x in dts):
            return TOP
        if not dts:
            return TOP

        def rank(d):
            n = d.name
            if n in COMPLEX:
                return (3, COMPLEX[n])
            if n in FLOATS:
                return (2, FLOATS[n])
            return (1, INTS.get(n, 4))

        full = [t.dtype for t in ts if isinstance(t, TensorV) and t.dims != ()]
        zero = [t.dtype for t in ts if isinstance(t, TensorV) and t.dims == ()]
        best = max(full, key=rank) if full else max(zero, key=rank)
        if full and zero:
            z = max(zero, key=rank)
            if rank(z)[0] > rank(best)[0]:
                best = z
        if any(x.name in COMPLEX for x in dts) and best.name in FLOATS:
            best = DTypeV("complex128" if best.name == "float64" else "complex64")
        return best

    def broadcast(self, I, a, b):
        if a is None or b is None:
            return None
        n = max(len(a), len(b))
        a = (1,) * (n - len(a)) + tuple(a)
        b = (1,) * (n - len(b)) + tuple(b)
        out = []
        for x, y in zip(a, b):
            if isinstance(x, TopV) or isinstance(y, TopV):
                out.append(TOP if not (isinstance(x, (int, Poly)) and x != 1 and not isinstance(x, TopV)) else x)
                continue
            if x == y or y == 1:
                out.append(x)
            elif x == 1:
                out.append(y)
            else:
                q = I.cell.eq0(P.sub(x, y))
                if q is None:
                    if not isinstance(y, int) and I.cell.decide_eq(P.sub(y, 1)):
                        out.append(x)
                        continue
                    if not isinstance(x, int) and I.cell.decide_eq(P.sub(x, 1)):
                        out.append(y)
                        continue
                    q = I.cell.decide_eq(P.sub(x, y))
                if q:
                    out.append(x)
                elif x == 1 or y == 1:
                    out.append(x if y == 1 else y)
                elif (isinstance(x, Poly) and I.cell.eq0(P.sub(x, 1)) is None):
                    out.append(y if I.cell.decide_eq(P.sub(x, 1)) else I.raise_("RuntimeError", "shapes not broadcastable"))
                else:
                    I.raise_("RuntimeError", "shapes are not broadcastable: %s vs %s" % (P.show(x), P.show(y)))
        return tuple(out)

    def prod(self, dims):
        r = 1
        for x in dims:
            if isinstance(x, TopV):
                return TOP
            r = P.mul(r, x)
        return r

    def teq(self, I, a, b):
        """Definite equality of dimension values (no split)."""
        if isinstance(a, TopV) or isinstance(b, TopV):
            return None
        return I.cell.eq0(P.sub(a, b))

    def as_dims(self, I, v):
        if isinstance(v, (TupV, ListV)):
            if v.star is not None:
                return None
            out = []
            for x in v.items:
                if isinstance(x, (TupV, ListV)):
                    r = self.as_dims(I, x)
                    if r is None:
                        return None
                    out.extend(r)
                else:
                    out.append(self.as_int(I, x))
            return out
        return [self.as_int(I, v)]

    def as_int(self, I, x):
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, float):
            return int(x) if x == int(x) else TOP
        if isinstance(x, (int, Poly)):
            return I.cell.norm(x)
        if isinstance(x, TensorV) and x.values is not None and x.dims == ():
            return x.values
        return TOP

    def shape(self, t):
        if t.dims is None:
            return TupV([], star=TOP, tname="torch.Size")
        return TupV(t.dims, tname="torch.Size")

    # ----- protocol used by the interpreter -----------------------------------------
    def truth(self, I, t):
        if t.values is not None and not isinstance(t.values, list):
            return bool(t.values)
        if t.dims is not None and len(t.dims) and all(not isinstance(x, TopV) for x in t.dims):
            n = self.prod(t.dims)
            if n != 1 and I.cell.ge0(P.sub(n, 2)):
                I.raise_("RuntimeError", "Boolean value of Tensor with more than one value is ambiguous")
        I.datactl.append({"loc": I.loc(), "deps": sorted(t.d), "why": "branch on tensor contents"})
        return I.cell.token(I.fresh_key("tensor-truth"), soft=True)

    def iterate(self, I, t, unpack):
        if t.dims is None:
            if unpack is not None:
                return [self.unk(I, "iterate", [t]) for _ in range(unpack)], None
            return [], self.view(I, t, None, None, True)
        if not t.dims:
            I.raise_("TypeError", "iteration over a 0-d tensor")
        n = t.dims[0]
        if isinstance(n, Poly):
            n = I.cell.norm(n)
        if isinstance(n, int):
            if n > 256:
                return [], self.select(I, t, 0, TOP)
            return [self.select(I, t, 0, i) for i in range(n)], None
        if unpack is not None and isinstance(n, Poly):
            if not I.cell.decide_eq(P.sub(n, unpack)):
                I.raise_("ValueError", "unpacking a tensor of different length")
            return [self.select(I, t, 0, i) for i in range(unpack)], None
        return [], self.select(I, t, 0, TOP)

    def unary(self, I, t, op):
        if op == "USub":
            c = self.cont(t)
            r = self.new(I, t.dims, L.scale(c, -1) if c else None, t.dtype, t.device, [t])
            r.layout = t.layout
            return r
        if op == "Invert":
            return self.new(I, t.dims, None, t.dtype, t.device, [t])
        return t

    OPN = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "div", "MatMult": "matmul", "FloorDiv": "floor_divide",
           "Mod": "remainder", "Pow": "pow", "BitAnd": "bitwise_and", "BitOr": "bitwise_or", "BitXor": "bitwise_xor"}

    def binary(self, I, op, a, b):
        if op == "MatMult":
            return self.f_matmul(I, [a, b], {})
        if isinstance(a, (str, SymStr)) or isinstance(b, (str, SymStr)) or a is None or b is None:
            I.raise_("TypeError", "unsupported operand types for tensor arithmetic")
        if isinstance(a, (TupV, ListV, DictV)) or isinstance(b, (TupV, ListV, DictV)):
            I.raise_("TypeError", "unsupported operand types for tensor arithmetic")
        dev = self.same_device(I, [a, b], op)
        da = a.dims if isinstance(a, TensorV) else () if not isinstance(a, (NdV, TopV)) else None
        db = b.dims if isinstance(b, TensorV) else () if not isinstance(b, (NdV, TopV)) else None
        if isinstance(a, TopV) and isinstance(b, TensorV):
            da = ()
        if isinstance(b, TopV) and isinstance(a, TensorV):
            db = ()
        dims = self.broadcast(I, da, db)
        dt = self.promote([a, b])
        if isinstance(dt, DTypeV):
            for s, o in ((a, b), (b, a)):
                if isinstance(s, TopV) and s.kind == "complex" and isinstance(dt, DTypeV) and dt.name in FLOATS:
                    dt = DTypeV("complex128" if dt.name == "float64" else "complex64")
                if isinstance(s, (float, Fraction)) and isinstance(dt, DTypeV) and dt.name in INTS:
                    dt = I.dflt
                if isinstance(s, NdV):
                    dt = TOP
            if op == "Div" and isinstance(dt, DTypeV) and dt.name in INTS:
                dt = I.dflt
        cont = None
        try:
            cont = self._arith_cont(I, op, a, b)
        except KeyError:
            cont = None
        r = self.new(I, dims, cont, dt, dev, [a, b])
        if op == "Mult":
            self.bilinear(I, r, "product", a, b)
        elif op == "Div":
            if self.names(I, b):
                self.taint(I, r, "nonlinear", "division by data", self.names(I, b))
        elif op in ("Add", "Sub"):
            for x, y in ((a, b), (b, a)):
                if isinstance(y, (int, float, Fraction)) and not isinstance(y, bool) and y != 0:
                    self.taint(I, r, "affine", "constant %s" % y, self.names(I, x))
        elif op not in ("MatMult",):
            self.taint(I, r, "nonlinear", op, self.names(I, a, b))
        lay = {x.layout for x in (a, b) if isinstance(x, TensorV)}
        if op in ("FloorDiv", "Mod"):
            r.g = frozenset() if op == "FloorDiv" else r.g
        if lay == {"sparse"}:
            r.layout = "sparse"
            r.idt = next((x.idt for x in (a, b) if isinstance(x, TensorV)), None)
        va, vb = self.vals(a), self.vals(b)
        if va is not None and vb is not None and op in ("Add", "Sub", "Mult"):
            f = {"Add": P.add, "Sub": P.sub, "Mult": P.mul}[op]
            if isinstance(va, list) and not isinstance(vb, list):
                r.values = [f(x, vb) for x in va]
            elif not isinstance(va, list) and not isinstance(vb, list):
                r.values = f(va, vb)
            elif isinstance(va, list) and len(va) == len(vb):
                r.values = [f(x, y) for x, y in zip(va, vb)]
        # index bookkeeping of sparse matrices
        return r

    def vals(self, x):
        if isinstance(x, TensorV):
            return x.values
        if isinstance(x, (int, Poly)) and not isinstance(x, bool):
            return x
        return None

    def _arith_cont(self, I, op, a, b):
        if isinstance(a, TensorV) and isinstance(b, TensorV):
            ca, cb = self.cont(a), self.cont(b)
            if ca is None or cb is None or a.dims is None or b.dims is None:
                return None
            if op in ("Add", "Sub"):
                if len(ca.kinds) != len(cb.kinds) or ca.kinds != cb.kinds or len(a.dims) != len(b.dims):
                    return None
                if any(self.teq(I, x, y) is not True for x, y in zip(a.dims, b.dims)):
                    return None
                r = L.lincomb(ca, cb, 1 if op == "Add" else -1)
                return L.Cont(r.kinds, {k: L.simplify(I.cell, v) for k, v in r.ent.items()}) if r else None
            if op == "Mult":
                return L.product(ca, cb, a.dims, b.dims)
            return None
        t, s, left = (a, b, True) if isinstance(a, TensorV) else (b, a, False)
        c = self.cont(t)
        if c is None:
            return None
        if isinstance(s, bool) or not isinstance(s, (int, float, Fraction)):
            return None
        if op == "Mult":
            return L.scale(c, Fraction(s))
        if op == "Div" and left and s != 0:
            return L.scale(c, Fraction(1) / Fraction(s))
        if op in ("Add", "Sub") and s == 0 and left:
            return c
        return None

    def comparison(self, I, op, a, b):
        dev = self.same_device(I, [a, b], "comparison")
        da = a.dims if isinstance(a, TensorV) else ()
        db = b.dims if isinstance(b, TensorV) else ()
        r = self.new(I, self.broadcast(I, da, db), None, BOOL, dev, [])
        r.d = I.deps(a) | I.deps(b)
        va, vb = self.vals(a), self.vals(b)
        if op in CMPOPS and va is not None and vb is not None and not isinstance(va, list) and not isinstance(vb, list):
            q = I.compare(op, va, vb)
            if isinstance(q, bool):
                r.values = q
        return r

    def inplace_result(self, I, old, new, what):
        """``old`` is overwritten by the value ``new``."""
        self.mutated(I, old, what)
        if isinstance(new, TensorV):
            old.cont = new.cont
            old.g = (old.g | new.g) if I.grad_enabled else old.g
            old.d = old.d | new.d
            old.values = new.values
            old.op = None
            if isinstance(old.dtype, DTypeV) and isinstance(new.dtype, DTypeV):
                ro = ("c" if old.dtype.name in COMPLEX else "f" if old.dtype.name in FLOATS else "i")
                rn = ("c" if new.dtype.name in COMPLEX else "f" if new.dtype.name in FLOATS else "i")
                if "ifc".index(rn) > "ifc".index(ro):
                    I.raise_("RuntimeError", "result type %s can't be cast to the in-place type %s" % (new.dtype, old.dtype))
        else:
            old.cont = None
            old.values = None
            old.op = None
        return old

    def mutated(self, I, t, what):
        if t.store.owner:
            I.effect("mutate", "%s writes to caller-owned %s" % (what, t.store.owner), target=t.store.owner)
        for log in I.loop_logs:
            if id(t) not in log:
                log[id(t)] = (t, t.snap())
        t.store.ver = getattr(t.store, "ver", 0) + 1
        t.ver = t.store.ver

    # ----- attributes -------------------------------------------------------------
    def getattr(self, I, t, name):
        if name in t.attrs:
            return t.attrs[name]
        if name == "shape":
            return self.shape(t)
        if name == "dtype":
            return t.dtype
        if name == "device":
            return t.device
        if name == "ndim":
            return len(t.dims) if t.dims is not None else TOP
        if name in ("T", "mT", "H", "mH"):
            if t.dims is None:
                return self.view(I, t, None, None, False)
            n = len(t.dims)
            if name in ("T", "H"):
                order = list(range(n))[::-1]
            else:
                order = list(range(n - 2)) + [n - 1, n - 2]
            return self.permute(I, t, order)
        if name == "is_sparse":
            return t.layout == "sparse" if t.layout != "?" else TOP
        if name == "layout":
            return Ext("torch.sparse_coo") if t.layout == "sparse" else Ext("torch.strided")
        if name == "is_cuda":
            return t.device != CPU if isinstance(t.device, DeviceV) else TOP
        if name == "is_cpu":
            return t.device == CPU if isinstance(t.device, DeviceV) else TOP
        if name == "requires_grad":
            return bool(t.g) or t.reqgrad if t.reqgrad is not None else TOP
        if name == "grad":
            return None
        if name == "is_leaf":
            return TOP
        if name == "data":
            r = self.view(I, t, t.dims, self.cont(t), t.contig)
            r.g = frozenset()
            r.reqgrad = False
            return r
        if name in ("real", "imag"):
            r = self.view(I, t, t.dims, None, False)
            if isinstance(t.dtype, DTypeV):
                r.dtype = DTypeV({"complex128": "float64", "complex64": "float32"}.get(t.dtype.name, t.dtype.name))
            return r
        if name == "__class__":
            return I.type_of(t)
        if name == "names":
            return TOP
        if name in self.fns:
            return BoundV(NativeV("Tensor." + name, self._native(name)), t)
        if name.endswith("_") and not name.endswith("__") and name[:-1] in self.fns:
            base = name[:-1]

            def inplace(I2, args, kwargs):
                r = self.fns[base](I2, args, kwargs)
                t0 = args[0]
                if base in ("unsqueeze", "squeeze", "transpose", "t", "swapaxes", "swapdims"):
                    if isinstance(t0, TensorV) and isinstance(r, TensorV):
                        if t0.store.owner:
                            I2.effect("mutate", "in-place %s_ on caller-owned %s" % (base, t0.store.owner), target=t0.store.owner)
                        t0.dims, t0.cont, t0.contig, t0.strides = r.dims, r.cont, r.contig, r.strides
                    return t0
                if base in ("detach", "requires_grad"):
                    return r
                return self.inplace_result(I2, t0, r, "in-place %s_" % base)

            return BoundV(NativeV("Tensor." + name, inplace), t)
        if name.startswith("new_"):
            return BoundV(NativeV("Tensor." + name, lambda I2, a, k: self.f_new(I2, name[4:], a, k)), t)

        def unknown(I2, args, kwargs):
            if name.endswith("_") and not name.endswith("__"):
                self.mutated(I2, args[0], "in-place %s" % name)
                args[0].cont = None
                if name in INPLACE_RANDOM:
                    I2.effect("nondeterminism", "random number generation by %s" % name)
                return args[0]
            return self.unk(I2, "Tensor." + name, [x for x in list(args) + list(kwargs.values())])

        return BoundV(NativeV("Tensor." + name, unknown), t)

    def _native(self, name):
        fn = self.fns[name]
        return lambda I, a, k: fn(I, a, k)

    def setattr(self, I, t, name, v):
        if name == "data":
            self.inplace_result(I, t, v if isinstance(v, TensorV) else None, ".data assignment")
            return
        if name == "requires_grad":
            if t.store.owner:
                I.effect("mutate", "requires_grad of caller-owned %s changed" % t.store.owner, target=t.store.owner)
            t.reqgrad = v
            return
        if t.store.owner:
            I.effect("mutate", "attribute %s set on caller-owned %s" % (name, t.store.owner), target=t.store.owner)
        t.attrs[name] = v

    # ----- strides --------------------------------------------------------------------
    def strides(self, t):
        """The strides, as (base, poly) pairs; None when they are not known. Strides of different bases never relate."""
        if t.strides is not None:
            return list(t.strides) if len(t.strides) == len(t.dims) else None
        if not t.contig or t.dims is None or any(isinstance(x, TopV) for x in t.dims):
            return None
        out, acc = [], 1
        for x in reversed(t.dims):
            out.append((None, acc))
            acc = P.mul(acc, x)
        return out[::-1]

    def unsq(self, I, t, d, c):
        r = self.view(I, t, t.dims[:d] + (1,) + t.dims[d:], L.unsqueeze(c, d) if c else None, t.contig)
        st = self.strides(t)
        if st is not None and not r.contig:
            r.strides = st[:d] + [(None, 1)] + st[d:]
        return r

    def view_strides(self, I, t, new, fork):
        """The strides of t viewed with the extents new (torch's computeStride); False when no view exists, None when unknown."""
        st = self.strides(t)
        if st is None or any(isinstance(x, TopV) or x == -1 for x in new) or not t.dims:
            return None

        def eq(a, b):
            return I.cell.decide_eq(P.sub(a, b)) if fork else I.cell.eq0(P.sub(a, b))

        old = list(t.dims)
        vd, base, tn, vn = len(new) - 1, st[-1], 1, 1
        out = [(None, 1)] * len(new)
        for td in range(len(old) - 1, -1, -1):
            tn = P.mul(tn, old[td])
            if td:
                one = eq(old[td - 1], 1)
                if one is None:
                    return None
                if one:
                    continue
                same = st[td - 1][0] == base[0]
                if same:
                    same = eq(st[td - 1][1], P.mul(tn, base[1]))
                if same is None:
                    return None
                if same:
                    continue
            while vd >= 0:
                full = eq(vn, tn)
                if full is None:
                    return None
                if full:
                    break
                out[vd] = (base[0], P.mul(vn, base[1]))
                vn = P.mul(vn, new[vd])
                vd -= 1
            full = eq(vn, tn)
            if full is None:
                return None
            if not full:
                return False
            if td:
                base, tn, vn = st[td - 1], 1, 1
        return out

    # ----- shape primitives -----------------------------------------------------------
    def permute(self, I, t, order):
        c = self.cont(t)
        r = self.view(I, t, [t.dims[i] for i in order], L.permute(c, order) if c else None, order == list(range(len(order))) and t.contig)
        st = self.strides(t)
        if st is not None and not r.contig:
            r.strides = [st[i] for i in order]
        if t.op is not None and list(order) == [1, 0]:
            r.op = L.op_T(t.op)
            r.cont = None
        if t.values is not None and order == list(range(len(order))):
            r.values = t.values
        return r

    def select(self, I, t, dim, i):
        c = self.cont(t)
        nc = None
        if c is not None and isinstance(i, int) and isinstance(t.dims[dim], int):
            nc = L.select(c, dim, i % t.dims[dim] if t.dims[dim] else 0, t.dims[dim])
        r = self.view(I, t, t.dims[:dim] + t.dims[dim + 1:], nc, t.contig and dim == 0)
        st = self.strides(t)
        if st is not None and not r.contig:
            r.strides = st[:dim] + st[dim + 1:]
        if isinstance(t.values, list) and dim == 0 and isinstance(i, int) and -len(t.values) <= i < len(t.values):
            r.values = t.values[i]
        if t.note and t.note[0] == "indices" and dim == 0 and isinstance(i, int):
            r.note = ("idxrow", t.note[1], i % 2)
        return r

    def narrow(self, I, t, dim, start, length):
        c = self.cont(t)
        nc = None
        if c is not None and not isinstance(start, TopV) and not isinstance(length, TopV):
            nc = L.narrow_dim(I.cell, c, dim, start, length, t.dims[dim])
        full = start == 0 and length == t.dims[dim]
        if full:
            nc = c
        r = self.view(I, t, t.dims[:dim] + (length,) + t.dims[dim + 1:], nc, t.contig and (dim == 0 or full))
        if not r.contig:
            r.strides = self.strides(t)
        if isinstance(t.values, list) and dim == 0 and isinstance(start, int) and isinstance(length, int):
            r.values = t.values[start:start + length]
        if full and t.note:
            r.note = t.note
        if full:
            r.op = t.op
        return r

    # ----- subscription ------------------------------------------------------------------
    def getitem(self, I, t, k):
        ks = list(k.items) if isinstance(k, TupV) else [k]
        if t.dims is None:
            return self.view(I, t, None, None, False)
        nidx = 0
        for x in ks:
            if isinstance(x, TensorV) and x.dtype == BOOL and x.dims is not None:
                nidx += len(x.dims)
            elif x is not None and not is_ellipsis(x) and not isinstance(x, bool):
                nidx += 1
        if not any(is_ellipsis(x) for x in ks):
            ks.append(ELL)
        if nidx > len(t.dims):
            I.raise_("IndexError", "too many indices for tensor of dimension %d" % len(t.dims))
        r = t
        dim = 0
        adv = []
        for x in ks:
            if isinstance(x, TensorV) and x.dtype == BOOL:
                self.data_size(I, x, "boolean mask")
        for x in ks:
            if is_ellipsis(x):
                dim += len(t.dims) - nidx
                continue
            if x is None:
                c = self.cont(r)
                r = self.unsq(I, r, dim, c)
                dim += 1
                continue
            if isinstance(x, SliceV):
                r = self.slice(I, r, dim, x)
                dim += 1
                continue
            if isinstance(x, bool):
                return self.unk(I, "bool index", [t], device=t.device, dtype=t.dtype)
            if isinstance(x, TensorV) and x.dims == () and x.values is not None and not isinstance(x.values, bool):
                x = x.values
            if V.is_int(x):
                n = r.dims[dim]
                x = I.cell.norm(x)
                if isinstance(x, int) and isinstance(n, int):
                    if not -n <= x < n:
                        I.raise_("IndexError", "index %d is out of bounds for dimension with size %d" % (x, n))
                elif not isinstance(n, TopV):
                    need = P.sub(P.sub(n, x), 1) if not (isinstance(x, int) and x < 0) else P.add(n, x)
                    if I.cell.ge0(need) is False:
                        I.raise_("IndexError", "index out of bounds")
                r = self.select(I, r, dim, x)
                continue
            # advanced indexing
            adv.append((dim, x))
            dim += 1
        if adv:
            for _, x in adv:
                if isinstance(x, TensorV) and isinstance(x.device, DeviceV) and isinstance(t.device, DeviceV):
                    if x.device != t.device and x.device != CPU:
                        I.raise_("RuntimeError", "indices should be either on cpu or on the same device as the indexed tensor")
            out = self.new(I, None, None, t.dtype, t.device, [r])
            for _, x in adv:
                out.d = out.d | I.deps(x)
            if len(adv) == 1:
                dim, x = adv[0]
                if isinstance(x, TensorV):
                    if x.dtype == BOOL or isinstance(x.dtype, TopV):
                        if x.dims is not None and r.dims is not None:
                            out.dims = r.dims[:dim] + (TOP,) + r.dims[dim + len(x.dims):]
                    elif x.dims is not None:
                        out.dims = r.dims[:dim] + x.dims + r.dims[dim + 1:]
                elif isinstance(x, (ListV, TupV)) and x.star is None:
                    out.dims = r.dims[:dim] + (len(x.items),) + r.dims[dim + 1:]
                elif isinstance(x, TopV):
                    out = self.view(I, r, r.dims[:dim] + r.dims[dim + 1:], None, False)
                if isinstance(x, TensorV) and x.values is not None and isinstance(r.values, list) and isinstance(x.values, list):
                    try:
                        out.values = [r.values[i] for i in x.values]
                    except Exception:
                        pass
            return out
        if r is t:
            r = self.view(I, t, t.dims, self.cont(t), t.contig)
            r.op, r.values, r.note = t.op, t.values, t.note
        return r

    def clamp_index(self, I, x, n, dflt):
        """Python slice bound -> value in [0, n]."""
        if x is None:
            return dflt
        if isinstance(x, TensorV):
            x = x.values if isinstance(x.values, (int, Poly)) else TOP
        if isinstance(x, (float,)):
            I.raise_("TypeError", "slice indices must be integers")
        if isinstance(x, TopV) or isinstance(n, TopV):
            return TOP
        if isinstance(x, Fraction) or not V.is_int(x):
            return TOP
        x = I.cell.norm(x)
        if not I.cell.decide_ge(x):
            x = P.add(x, n)
            if not I.cell.decide_ge(x):
                return 0
            return x
        if not I.cell.decide_ge(P.sub(n, x)):
            return n
        return x

    def slice(self, I, t, dim, s):
        if s.lo is None and s.hi is None and s.step in (None, 1):
            return t
        n = t.dims[dim]
        lo = self.clamp_index(I, s.lo, n, 0)
        hi = self.clamp_index(I, s.hi, n, n)
        step = 1 if s.step is None else s.step
        if isinstance(step, int) and step <= 0:
            I.raise_("ValueError", "step must be greater than zero")
        if isinstance(lo, TopV) or isinstance(hi, TopV) or not isinstance(step, int):
            return self.view(I, t, t.dims[:dim] + (TOP,) + t.dims[dim + 1:], None, False)
        ln = P.sub(hi, lo)
        if I.cell.ge0(ln) is not True:
            if not I.cell.decide_ge(ln):
                ln = 0
        if step == 1:
            return self.narrow(I, t, dim, lo, ln)
        ln2 = I.cell.floordiv(P.add(ln, step - 1), step)
        r = self.view(I, t, t.dims[:dim] + (ln2,) + t.dims[dim + 1:], None, False)
        st = self.strides(t)
        if st is not None:
            st[dim] = (st[dim][0], P.mul(st[dim][1], step))
            r.strides = st
        c = self.cont(t)
        if c is not None and c.kinds[dim] == "E" and isinstance(lo, int) and isinstance(ln, int):
            p = L.epos(c, dim)
            idx = list(range(lo, lo + ln, step))
            r.cont = L.Cont(c.kinds, {kk[:p] + (idx.index(kk[p]),) + kk[p + 1:]: v for kk, v in c.ent.items() if kk[p] in idx})
        if isinstance(t.values, list) and dim == 0 and isinstance(lo, int) and isinstance(hi, int):
            r.values = t.values[lo:hi:step]
        return r

    def setitem(self, I, t, k, v):
        for x in (k.items if isinstance(k, TupV) else [k]):
            if isinstance(x, TensorV) and isinstance(x.device, DeviceV) and isinstance(t.device, DeviceV):
                if x.device != t.device and x.device != CPU:
                    I.raise_("RuntimeError", "indices should be either on cpu or on the same device as the indexed tensor")
        if isinstance(v, TensorV) and isinstance(v.device, DeviceV) and isinstance(t.device, DeviceV) and v.device != t.device and v.dims != ():
            pass  # copies across devices are allowed by item assignment
        self.mutated(I, t, "item assignment")
        t.cont = None
        t.values = None
        t.op = None
        t.d = t.d | I.deps(v) | I.deps(k)
        for x in (k.items if isinstance(k, TupV) else [k]):
            if isinstance(x, TensorV):
                self.taint(I, t, "nonlinear", "assignment at positions chosen by data", self.names(I, x))
        if isinstance(v, TensorV) and I.grad_enabled:
            t.g = t.g | v.g

    # ----- creation ------------------------------------------------------------------------
    def opt_dtype(self, I, A, default, name="dtype"):
        d = A.k.get(name)
        if d is None:
            return default
        return d

    def opt_device(self, I, A, default=CPU):
        d = A.k.get("device")
        if d is None:
            return default
        return self.to_device(I, d)

    def to_device(self, I, d):
        if isinstance(d, DeviceV):
            return d
        if isinstance(d, str):
            return DeviceV(d)
        if isinstance(d, SymStr):
            return DeviceV("<%s>" % d.name)
        if isinstance(d, int):
            return DeviceV("cuda:%d" % d)
        return TOP

    def f_tensor(self, I, args, kwargs, copy=True):
        A = Args(args, kwargs)
        data = A.get(0, "data")
        dt = A.get(1, "dtype") if not copy else A.k.get("dtype")
        dev = A.k.get("device")
        if not copy and len(args) > 2:
            dev = args[2]
        req = A.k.get("requires_grad", False)
        if isinstance(data, TensorV):
            ndt = dt if dt is not None else data.dtype
            ndev = self.to_device(I, dev) if dev is not None else data.device
            if copy:
                r = self.new(I, data.dims, self.cont(data), ndt, ndev, [])
                r.d = data.d
                r.values = data.values
                r.reqgrad = bool(req)
                return r
            return self.cast(I, data, ndt, ndev)
        ndev = self.to_device(I, dev) if dev is not None else CPU
        if isinstance(data, SeqV):
            r = TensorV((data.length,), L.single("", "L", [("flt", data.slot, data.flipped, data.length)]), dt if dt is not None else I.dflt, ndev, None, frozenset(), frozenset(["wavelet"]))
            if isinstance(r.dtype, DTypeV):
                self.taint(I, r, "narrow", r.dtype.name, ["wavelet"])
            return r
        if isinstance(data, NdV):
            r = TensorV(data.dims, None, dt if dt is not None else data.dtype, ndev, None, frozenset(), data.d)
            if not copy and dt is None and ndev == CPU and data.owner:
                r.store.owner = data.owner
            return r
        if isinstance(data, (ListV, TupV, RangeV)):
            items, star = I.iter_spec(data)
            items = list(items)
            src = items + ([star] if star is not None else [])
            d = frozenset()
            for x in src:
                d |= I.deps(x)
            sub = None
            if items and isinstance(items[0], (ListV, TupV)):
                sub = self.f_tensor(I, [items[0]], {}, True).dims
            dims = (len(items) if star is None else TOP,) + (sub or ())
            inferred = LONG if src and all(V.is_int(x) for x in src) else TOP
            if any(isinstance(x, float) for x in src):
                inferred = I.dflt
            if any(isinstance(x, TopV) and x.kind == "index" for x in src):
                inferred = LONG
            if not src:
                inferred = I.dflt
            r = TensorV(dims, None, dt if dt is not None else inferred, ndev, None, frozenset(), d)
            if star is None and all(V.is_int(x) for x in items):
                r.values = list(items)
            return r
        if V.is_num(data) or isinstance(data, bool):
            inf = BOOL if isinstance(data, bool) else LONG if V.is_int(data) else I.dflt
            r = TensorV((), None, dt if dt is not None else inf, ndev)
            if V.is_int(data):
                r.values = data
            return r
        r = TensorV((), None, dt if dt is not None else TOP, ndev, None, frozenset(), I.deps(data))
        if isinstance(data, TopV):
            r.dims = None
        return r

    def f_as_tensor(self, I, args, kwargs):
        return self.f_tensor(I, args, kwargs, copy=False)

    f_asarray = f_as_tensor

    def f_from_numpy(self, I, args, kwargs):
        return self.f_tensor(I, args, {}, copy=False)

    def _filled(self, I, args, kwargs, fill):
        A = Args(args, kwargs)
        if "size" in A.k:
            dims = self.as_dims(I, A.k["size"])
        else:
            dims = self.as_dims(I, TupV(args))
        r = TensorV(tuple(dims) if dims is not None else None, None, self.opt_dtype(I, A, I.dflt), self.opt_device(I, A))
        return r

    def f_zeros(self, I, args, kwargs):
        r = self._filled(I, args, kwargs, 0)
        if r.dims is not None:
            r.note = ("zeros",)
        return r

    def f_ones(self, I, args, kwargs):
        return self._filled(I, args, kwargs, 1)

    def f_empty(self, I, args, kwargs):
        return self._filled(I, args, kwargs, None)

    def f_full(self, I, args, kwargs):
        A = Args(args, kwargs)
        dims = self.as_dims(I, A.get(0, "size"))
        fv = A.get(1, "fill_value")
        r = TensorV(tuple(dims) if dims is not None else None, None, self.opt_dtype(I, A, LONG if V.is_int(fv) else I.dflt), self.opt_device(I, A))
        r.d = I.deps(fv)
        return r

    def f_eye(self, I, args, kwargs):
        A = Args(args, kwargs)
        n = self.as_int(I, A.get(0, "n"))
        m = A.get(1, "m")
        return TensorV((n, n if m is None else self.as_int(I, m)), None, self.opt_dtype(I, A, I.dflt), self.opt_device(I, A))

    def _random(self, I, args, kwargs):
        I.effect("nondeterminism", "random number generation")
        return self._filled(I, args, kwargs, None)

    f_rand = f_randn = _random

    def f_new(self, I, kind, args, kwargs):
        t = args[0]
        kw = dict(kwargs)
        kw.setdefault("dtype", t.dtype)
        kw.setdefault("device", t.device)
        if kind == "tensor":
            return self.f_tensor(I, args[1:], kw)
        if kind == "full":
            return self.f_full(I, args[1:], kw)
        return self._filled(I, args[1:], kw, 0)

    def _like(self, I, args, kwargs):
        t = args[0]
        A = Args(args, kwargs)
        if not isinstance(t, TensorV):
            return self.unk(I, "like", [t])
        r = TensorV(t.dims, None, self.opt_dtype(I, A, t.dtype), self.opt_device(I, A, t.device))
        r.layout = t.layout
        return r

    f_ones_like = f_empty_like = f_full_like = _like

    def f_zeros_like(self, I, args, kwargs):
        r = self._like(I, args, kwargs)
        r.note = ("zeros",)
        return r

    def _rand_like(self, I, args, kwargs):
        I.effect("nondeterminism", "random number generation")
        return self._like(I, args, kwargs)

    f_rand_like = f_randn_like = _rand_like

    def fresh_len(self, I):
        """An unknown but fixed extent, named after its program point."""
        k = I.loc().split(" ")[0].rsplit("/", 1)[-1]
        I.fresh[k] = I.fresh.get(k, 0) + 1
        return I.cell.sym("len@%s#%d" % (k, I.fresh[k]), 0)

    def f_arange(self, I, args, kwargs):
        A = Args(args, kwargs)
        if len(args) == 1:
            lo, hi, st = 0, args[0], 1
        elif not args:
            lo, hi, st = kwargs.get("start", 0), kwargs.get("end"), kwargs.get("step", 1)
        else:
            lo, hi, st = args[0], args[1], args[2] if len(args) > 2 else kwargs.get("step", 1)
        n = TOP
        vals = None
        if all(V.is_int(x) for x in (lo, hi, st)):
            n = I.cell.floordiv(P.add(P.sub(hi, lo), P.sub(st, 1)), st)
            if isinstance(lo, int) and isinstance(hi, int) and isinstance(st, int) and n <= 64:
                vals = list(range(lo, hi, st))
            inf = LONG
        else:
            inf = I.dflt if any(isinstance(x, float) for x in (lo, hi, st)) else TOP
            n = self.fresh_len(I)
        r = TensorV((n,), None, self.opt_dtype(I, A, inf), self.opt_device(I, A))
        r.values = vals
        for x in (lo, hi, st):
            r.d = r.d | I.deps(x)
            if isinstance(x, TopV) and x.kind == "data" or isinstance(x, TensorV) and x.d:
                I.datactl.append({"loc": I.loc(), "deps": sorted(I.deps(x)), "why": "size of a tensor computed from tensor data"})
        return r

    def f_linspace(self, I, args, kwargs):
        A = Args(args, kwargs)
        return TensorV((self.as_int(I, A.get(2, "steps")),), None, self.opt_dtype(I, A, I.dflt), self.opt_device(I, A))

    def f_device(self, I, args, kwargs):
        return self.to_device(I, args[0] if args else kwargs.get("type"))

    def f_is_tensor(self, I, args, kwargs):
        return isinstance(args[0], TensorV) if not isinstance(args[0], TopV) else TOP

    def dtype_attr(self, I, o, name):
        if name == "is_floating_point":
            return o.name in FLOATS
        if name == "is_complex":
            return o.name in COMPLEX
        if name == "is_signed":
            return not o.name.startswith("uint") and o.name != "bool"
        if name == "itemsize":
            n = "".join(c for c in o.name if c.isdigit())
            return int(n) // 8 if n and "float8" not in o.name else 1
        if name in ("to_real", "to_complex"):
            m = {"complex64": "float32", "complex128": "float64", "complex32": "float16"}
            if name == "to_complex":
                m = {v: k for k, v in m.items()}
            return NativeV(name, lambda i, a, k: DTypeV(m.get(o.name, o.name)))
        return TOP

    def f_is_floating_point(self, I, args, kwargs):
        t = args[0]
        return t.dtype.name in FLOATS if isinstance(t, TensorV) and isinstance(t.dtype, DTypeV) else TOP

    def f_is_complex(self, I, args, kwargs):
        t = args[0]
        return t.dtype.name in COMPLEX if isinstance(t, TensorV) and isinstance(t.dtype, DTypeV) else TOP

    def f_finfo(self, I, args, kwargs):
        dt = args[0] if args else kwargs.get("type", I.dflt)
        if not isinstance(dt, DTypeV) or dt.name not in FINFO:
            return TOP
        o = InstV(Ext("torch.finfo"))
        bits, eps, tiny, mx = FINFO[dt.name]
        o.attrs.update(bits=bits, eps=eps, tiny=tiny, smallest_normal=tiny, max=mx, min=-mx, resolution=eps, dtype=dt.name)
        return o

    def f_iinfo(self, I, args, kwargs):
        return TOP

    def f_result_type(self, I, args, kwargs):
        return self.promote(args)

    f_promote_types = f_iinfo

    def f_get_default_dtype(self, I, args, kwargs):
        return I.dflt

    # ----- casts -----------------------------------------------------------------------------
    def cast(self, I, t, dt, dev):
        if (dt == t.dtype or isinstance(dt, TopV) and isinstance(t.dtype, TopV)) and dev == t.device:
            return t
        r = self.new(I, t.dims, self.cont(t), dt, dev, [t])
        r.layout, r.op, r.values, r.idt, r.note = t.layout, t.op, t.values, t.idt, t.note
        if isinstance(dt, DTypeV) and dt.name in INTS:
            r.g = frozenset()
            if isinstance(t.dtype, DTypeV) and t.dtype.name in ("float32", "float16", "bfloat16"):
                r.d = r.d | {"!viafloat|%s|%s" % (t.dtype.name, I.loc())}
            r.cont = r.cont if isinstance(t.dtype, DTypeV) and t.dtype.name in INTS else None
            r.op = None
        elif isinstance(dt, DTypeV) and isinstance(t.dtype, DTypeV):
            # narrowing the number format loses the values
            if FLOATS.get(dt.name, 9) < FLOATS.get(t.dtype.name, 0):
                r.note = ("narrowed",)
        if isinstance(dt, DTypeV) and isinstance(t.dtype, DTypeV) and t.dtype.name in FLOATS and (dt.name in INTS or FLOATS.get(dt.name, 9) < FLOATS[t.dtype.name]):
            self.taint(I, r, "narrow", dt.name, self.names(I, t))
        return r

    def f_to(self, I, args, kwargs):
        t = args[0]
        if not isinstance(t, TensorV):
            return self.module_to(I, t, args, kwargs)
        dt, dev = t.dtype, t.device
        for x in list(args[1:]) + [kwargs.get("dtype"), kwargs.get("device"), kwargs.get("other")]:
            if isinstance(x, DTypeV):
                dt = x
            elif isinstance(x, (DeviceV, str, SymStr)):
                dev = self.to_device(I, x)
            elif isinstance(x, TensorV):
                dt, dev = x.dtype, x.device
            elif isinstance(x, TopV):
                dt, dev = TOP, TOP
        return self.cast(I, t, dt, dev)

    def module_to(self, I, t, args, kwargs):
        return t

    def f_type(self, I, args, kwargs):
        t = args[0]
        A = Args(args, kwargs)
        d = A.get(1, "dtype")
        if d is None:
            return SymStr("torch type")
        if isinstance(d, Ext):
            d = {"torch.LongTensor": LONG, "torch.FloatTensor": F32, "torch.DoubleTensor": DTypeV("float64")}.get(d.path, TOP)
        return self.cast(I, t, d if isinstance(d, DTypeV) else TOP, t.device)

    def f_type_as(self, I, args, kwargs):
        return self.cast(I, args[0], args[1].dtype, args[1].device)

    def f_float(self, I, args, kwargs):
        return self.cast(I, args[0], F32, args[0].device)

    def f_double(self, I, args, kwargs):
        return self.cast(I, args[0], DTypeV("float64"), args[0].device)

    def f_half(self, I, args, kwargs):
        return self.cast(I, args[0], DTypeV("float16"), args[0].device)

    def f_long(self, I, args, kwargs):
        return self.cast(I, args[0], LONG, args[0].device)

    def f_int(self, I, args, kwargs):
        return self.cast(I, args[0], DTypeV("int32"), args[0].device)

    def f_bool(self, I, args, kwargs):
        return self.cast(I, args[0], BOOL, args[0].device)

    def f_cpu(self, I, args, kwargs):
        return self.cast(I, args[0], args[0].dtype, CPU)

    def f_cuda(self, I, args, kwargs):
        return self.cast(I, args[0], args[0].dtype, DeviceV("dev"))

    def f_numpy(self, I, args, kwargs):
        t = args[0]
        if isinstance(t.device, DeviceV) and t.device != CPU:
            I.raise_("TypeError", "can't convert a non-CPU tensor to numpy")
        if t.g:
            I.raise_("RuntimeError", "Can't call numpy() on Tensor that requires grad")
        return NdV(t.dims, t.d, owner=t.store.owner, dtype=t.dtype)

    def f_item(self, I, args, kwargs):
        t = args[0]
        sh = t.ex.shape if getattr(t, "ex", None) is not None else t.dims
        if sh is not None and len(sh) and all(isinstance(n, int) for n in sh) and any(n > 1 for n in sh) and all(n >= 1 for n in sh):
            I.raise_("RuntimeError", "a Tensor with %s elements cannot be converted to Scalar" % "x".join(map(str, sh)))
        if t.values is not None and not isinstance(t.values, list):
            return t.values
        if isinstance(t.values, list) and len(t.values) == 1:
            return t.values[0]
        return TopV(t.d, "data" if t.d else "")

    def f_tolist(self, I, args, kwargs):
        t = args[0]
        if t.values is not None:
            return ListV(t.values) if isinstance(t.values, list) else t.values
        x = TopV(t.d, "data" if t.d else "")
        if t.dims is not None and len(t.dims) == 1 and isinstance(t.dims[0], int):
            return ListV([x] * t.dims[0])
        return ListV([], star=x)

    # ----- shape queries -------------------------------------------------------------------
    def f_dim(self, I, args, kwargs):
        return len(args[0].dims) if args[0].dims is not None else TOP

    f_ndimension = f_dim

    def f_size(self, I, args, kwargs):
        t = args[0]
        A = Args(args, kwargs)
        d = A.get(1, "dim")
        if d is None:
            return self.shape(t)
        if t.dims is None:
            return TOP
        return t.dims[self.nd(I, t, d)]

    def f_numel(self, I, args, kwargs):
        return self.prod(args[0].dims) if args[0].dims is not None else TOP

    f_nelement = f_numel

    def f_is_contiguous(self, I, args, kwargs):
        return TOP

    def f_stride(self, I, args, kwargs):
        return TOP

    def f_data_ptr(self, I, args, kwargs):
        return TOP

    # ----- views ----------------------------------------------------------------------------
    def f_unsqueeze(self, I, args, kwargs):
        t = args[0]
        d = Args(args, kwargs).get(1, "dim")
        if t.dims is None:
            return self.view(I, t, None, None, t.contig)
        d = self.nd(I, t, d, 1)
        c = self.cont(t)
        r = self.unsq(I, t, d, c)
        if t.values is not None and d == 0 and not isinstance(t.values, list):
            r.values = [t.values]
        return r

    def f_squeeze(self, I, args, kwargs):
        t = args[0]
        A = Args(args, kwargs)
        if t.dims is None:
            return self.view(I, t, None, None, t.contig)
        if A.has(1, "dim"):
            d = A.get(1, "dim")
            ds = [self.nd(I, t, x) for x in (d.items if isinstance(d, (TupV, ListV)) else [d])]
        else:
            ds = list(range(len(t.dims)))
        r = t
        for d in sorted(ds, reverse=True):
            n = r.dims[d]
            if isinstance(n, TopV):
                return self.view(I, t, None, None, t.contig)
            one = n == 1 if isinstance(n, int) else I.cell.decide_eq(P.sub(n, 1))
            if one:
                c = self.cont(r)
                r2 = self.view(I, r, r.dims[:d] + r.dims[d + 1:], L.squeeze(c, d) if c else None, r.contig)
                st = self.strides(r)
                if st is not None and not r2.contig:
                    r2.strides = st[:d] + st[d + 1:]
                r = r2
        if r is t:
            r = self.view(I, t, t.dims, self.cont(t), t.contig)
        return r

    def f_transpose(self, I, args, kwargs):
        t = args[0]
        A = Args(args, kwargs)
        if t.dims is None:
            return self.view(I, t, None, None, False)
        a = A.get(1, "dim0", kwargs.get("axis0"))
        b = A.get(2, "dim1", kwargs.get("axis1"))
        a, b = self.nd(I, t, a), self.nd(I, t, b)
        if a is None or b is None:
            return self.view(I, t, None, None, False)
        order = list(range(len(t.dims)))
        order[a], order[b] = order[b], order[a]
        return self.permute(I, t, order)

    def f_t(self, I, args, kwargs):
        t = args[0]
        if t.dims is None or len(t.dims) < 2:
            return t
        return self.permute(I, t, [1, 0])


    def f_permute(self, I, args, kwargs):
        t = args[0]
        A = Args(args, kwargs)
        d = A.k.get("dims")
        ds = list(args[1:]) if d is None else [d]
        if len(ds) == 1 and isinstance(ds[0], (TupV, ListV)):
            if ds[0].star is not None:
                return self.view(I, t, None, None, False)
            ds = list(ds[0].items)
        if t.dims is None:
            return self.view(I, t, None, None, False)
        order = [self.nd(I, t, x) for x in ds]
        if any(x is None for x in order):
            return self.view(I, t, None, None, False)
        if sorted(order) != list(range(len(t.dims))):
            I.raise_("RuntimeError", "permute: dims %s do not match tensor of rank %d" % (ds, len(t.dims)))
        return self.permute(I, t, order)

    def f_movedim(self, I, args, kwargs):
        t = args[0]
        A = Args(args, kwargs)
        s, d = A.get(1, "source"), A.get(2, "destination")
        if t.dims is None:
            return self.view(I, t, None, None, False)
        ss = [self.nd(I, t, x) for x in (s.items if isinstance(s, (TupV, ListV)) else [s])]
        dd = [self.nd(I, t, x) for x in (d.items if isinstance(d, (TupV, ListV)) else [d])]
        n = len(t.dims)
        order = [None] * n
        for a, b in zip(ss, dd):
            order[b] = a
        rest = [i for i in range(n) if i not in ss]
        for i in range(n):
            if order[i] is None:
                order[i] = rest.pop(0)
        return self.permute(I, t, order)

    def f_contiguous(self, I, args, kwargs):
        t = args[0]
        if t.contig:
            return t
        r = self.new(I, t.dims, self.cont(t), t.dtype, t.device, [t])
        r.layout, r.op, r.values = t.layout, t.op, t.values
        return r

    def f_clone(self, I, args, kwargs):
        t = args[0]
        if not isinstance(t, TensorV):
            return TOP
        r = self.new(I, t.dims, self.cont(t), t.dtype, t.device, [t])
        r.layout, r.op, r.values, r.idt, r.note = t.layout, t.op, t.values, t.idt, t.note
        return r

    def f_detach(self, I, args, kwargs):
        t = args[0]
        r = self.view(I, t, t.dims, self.cont(t), t.contig)
        r.g = frozenset()
        r.reqgrad = False
        r.op, r.values, r.note = t.op, t.values, t.note
        return r

    def f_requires_grad(self, I, args, kwargs):
        t = args[0]
        A = Args(args, kwargs)
        if t.store.owner:
            I.effect("mutate", "requires_grad_ on caller-owned %s" % t.store.owner, target=t.store.owner)
        t.reqgrad = A.get(1, "requires_grad", True)
        return t

    def f_flatten(self, I, args, kwargs):
        t = args[0]
        A = Args(args, kwargs)
        s, e = A.get(1, "start_dim", 0), A.get(2, "end_dim", -1)
        if t.dims is None:
            return self.view(I, t, None, None, t.contig)
        if not t.dims:
            return self.reshape(I, t, [1])
        s, e = self.nd(I, t, s), self.nd(I, t, e)
        return self.reshape(I, t, list(t.dims[:s]) + [self.prod(t.dims[s:e + 1])] + list(t.dims[e + 1:]))

    f_ravel = f_flatten

    def f_unflatten(self, I, args, kwargs):
        t = args[0]
        A = Args(args, kwargs)
        if t.dims is None:
            return self.view(I, t, None, None, t.contig)
        d = self.nd(I, t, A.get(1, "dim"))
        sz = self.as_dims(I, A.get(2, "sizes"))
        if sz is None:
            return self.view(I, t, None, None, t.contig)
        if -1 in [x for x in sz if isinstance(x, int)]:
            i = sz.index(-1)
            o = self.prod([x for j, x in enumerate(sz) if j != i])
            q = P.div_exact(t.dims[d], o) if not isinstance(o, TopV) and not isinstance(t.dims[d], TopV) else None
            sz[i] = q if q is not None else TOP
        return self.reshape(I, t, list(t.dims[:d]) + sz + list(t.dims[d + 1:]))

    def f_reshape(self, I, args, kwargs):
        t = args[0]
        if "shape" in kwargs:
            dims = self.as_dims(I, kwargs["shape"])
        elif len(args) == 2 and isinstance(args[1], DTypeV):
            return self.unk(I, "view(dtype)", [t], dtype=args[1])
        else:
            dims = self.as_dims(I, TupV(args[1:]))
        if dims is None:
            return self.view(I, t, None, None, t.contig)
        return self.reshape(I, t, dims)

    def f_view(self, I, args, kwargs):
        return self.as_view(I, args[0], self.f_reshape, args, kwargs)

    def as_view(self, I, t, f, args, kwargs):
        """reshape which must not copy."""
        if t.contig or (len(args) == 2 and isinstance(args[1], DTypeV)):
            return f(I, args, kwargs)
        r = f(I, args, kwargs)
        if r.dims is None:
            return r
        st = self.view_strides(I, t, r.dims, True)
        if st is False:
            I.raise_("RuntimeError", "view size is not compatible with input tensor's size and stride (at least one dimension spans across two contiguous subspaces)")
        r.store, r.ver, r.contig, r.strides = t.store, t.ver, False, st
        return r

    def f_reshape_as(self, I, args, kwargs):
        return self.reshape(I, args[0], list(args[1].dims)) if args[1].dims is not None else self.unk(I, "reshape_as", args)

    def f_view_as(self, I, args, kwargs):
        return self.as_view(I, args[0], self.f_reshape_as, args, kwargs)

    def reshape(self, I, t, dims):
        old = t.dims
        dims = list(dims)
        if any(isinstance(x, TopV) for x in dims) or old is None or any(isinstance(x, TopV) for x in old):
            r = self.view(I, t, [TOP if isinstance(x, int) and x == -1 else x for x in dims], None, True)
            if old is not None and -1 in [x for x in dims if isinstance(x, int)] and not any(isinstance(x, TopV) for x in dims):
                # cancel equal factors to infer the missing extent
                rest_old = list(old)
                ok = True
                for x in dims:
                    if isinstance(x, int) and x == -1:
                        continue
                    if x in rest_old:
                        rest_old.remove(x)
                    elif x != 1:
                        ok = False
                if ok:
                    m = self.prod(rest_old)
                    r.dims = tuple(m if isinstance(x, int) and x == -1 else x for x in dims)
            if not t.contig:
                r.store = Storage()
                r.ver = 0
            return r
        tot = self.prod(old)
        if any(isinstance(x, int) and x == -1 for x in dims):
            i = [j for j, x in enumerate(dims) if isinstance(x, int) and x == -1][0]
            o = self.prod([x for j, x in enumerate(dims) if j != i])
            q = P.div_exact(tot, o) if o != 0 else None
            if q is None:
                # cancel structurally equal factors
                rest = list(old)
                ok = True
                for j, x in enumerate(dims):
                    if j == i:
                        continue
                    if x in rest:
                        rest.remove(x)
                    elif x != 1:
                        ok = False
                q = self.prod(rest) if ok else None
            if q is None and isinstance(o, (int, Poly)):
                wit = I.cell.witness([tot, o], lambda e: P.evalp(o, e) and P.evalp(tot, e) % P.evalp(o, e) != 0)
                if wit is not None and I.cell.witness([tot, o], lambda e: P.evalp(o, e) and P.evalp(tot, e) % P.evalp(o, e) == 0, limit=300) is None:
                    I.raise_("RuntimeError", "shape is invalid for input size %s" % P.show(tot))
            dims[i] = q if q is not None else TOP
        else:
            q = I.cell.eq0(P.sub(self.prod(dims), tot))
            if q is None:
                q = I.cell.decide_eq(P.sub(self.prod(dims), tot))
            if not q:
                I.raise_("RuntimeError", "shape %s is invalid for input of size %s" % ([P.show(x) for x in dims], P.show(tot)))
        c = self.cont(t)
        nc = self.reshape_cont(I, c, list(old), dims) if c is not None and not any(isinstance(x, TopV) for x in dims) else None
        r = self.view(I, t, dims, nc, True)
        if not t.contig:
            st = self.view_strides(I, t, dims, False)
            if st:
                r.contig, r.strides = False, st
            else:
                r.store = Storage()
                r.ver = 0
        if isinstance(t.values, list) and len(dims) == 1:
            r.values = t.values
        if tuple(dims) == tuple(old):
            r.op, r.note, r.values = t.op, t.note, t.values
        return r

    def reshape_cont(self, I, c, old, new):
        """Align old and new extents into groups with equal products."""
        groups = []
        i = j = 0
        eq = lambda a, b: a == b or I.cell.known_eq(P.sub(a, b))
        while i < len(old) or j < len(new):
            # equal single dims first
            if i < len(old) and j < len(new) and eq(old[i], new[j]):
                groups.append(([i], [j]))
                i += 1
                j += 1
                continue
            if i < len(old) and old[i] == 1 and c.kinds[i] == "E":
                groups.append(([i], []))
                i += 1
                continue
            if j < len(new) and new[j] == 1:
                groups.append(([], [j]))
                j += 1
                continue
            if i >= len(old) or j >= len(new):
                return None
            # grow
            best = None
            for a in range(1, len(old) - i + 1):
                for b in range(1, len(new) - j + 1):
                    if (a, b) == (1, 1):
                        continue
                    if eq(self.prod(old[i:i + a]), self.prod(new[j:j + b])):
                        if best is None or a + b < sum(best):
                            best = (a, b)
            if best is None:
                return None
            a, b = best
            groups.append((list(range(i, i + a)), list(range(j, j + b))))
            i += a
            j += b
        # apply groups from the right so that positions stay valid
        for og, ng in reversed(groups):
            if len(og) == 1 and len(ng) == 1:
                continue
            if not og:
                # insertion: position = number of old dims before
                at = self._before(groups, (og, ng))
                c = L.unsqueeze(c, at)
                continue
            if not ng:
                c = L.squeeze(c, og[0])
                if c is None:
                    return None
                continue
            c = self._regroup(I, c, og, [old[x] for x in og], [new[x] for x in ng])
            if c is None:
                return None
        return c

    def _before(self, groups, g):
        n = 0
        for x in groups:
            if x is g or x == g:
                return n
            n += len(x[0])
        return n

    def _regroup(self, I, c, og, osz, nsz):
        """Merge old dims og (contiguous), then split into nsz."""
        d0 = og[0]
        # drop size-1 enumerated dims
        for x in reversed(og):
            if c.kinds[x] == "E" and osz[x - d0] == 1 and len(osz) > 1:
                c = L.squeeze(c, x)
                osz = osz[:x - d0] + osz[x - d0 + 1:]
        k = len(osz)
        kinds = c.kinds[d0:d0 + k]
        if k > 1:
            if all(q == "E" for q in kinds):
                p = L.epos(c, d0)
                ent = {}
                for key, v in c.ent.items():
                    idx = 0
                    for q in range(k):
                        idx = idx * osz[q] + key[p + q]
                    ent[key[:p] + (idx,) + key[p + k:]] = v
                c = L.Cont(c.kinds[:d0] + ("E",) + c.kinds[d0 + k:], ent)
            elif kinds[0] == "E" and all(q == "L" for q in kinds[1:]):
                # channel-major merge: blocks
                inner = self.prod(osz[1:])
                c2 = c
                if k > 2:
                    c2 = self._fold_l(c, d0 + 1, k - 1)
                p = L.epos(c2, d0)
                lp = L.lpos(c2, d0)
                tot = P.mul(osz[0], inner)
                ent = {}
                for key, lin in c2.ent.items():
                    kk = key[:p] + key[p + 1:]
                    r = ent.get(kk, {})
                    for (s, ls), v in lin.items():
                        e = ("emb", P.mul(key[p], inner), ls[lp], tot)
                        r = L.lin_add(r, {(s, ls[:lp] + (e,) + ls[lp + 1:]): v})
                    ent[kk] = L.simplify(I.cell, r)
                c = L.Cont(c2.kinds[:d0] + c2.kinds[d0 + 1:], ent)
            elif all(q == "L" for q in kinds):
                c = self._fold_l(c, d0, k)
            else:
                return None
        if len(nsz) == 1:
            return c
        # split one dim into nsz
        if c.kinds[d0] == "E":
            if not all(isinstance(x, int) for x in nsz):
                return None
            p = L.epos(c, d0)
            ent = {}
            for key, v in c.ent.items():
                q = key[p]
                idx = []
                for n in reversed(nsz):
                    idx.append(q % n)
                    q //= n
                ent[key[:p] + tuple(reversed(idx)) + key[p + 1:]] = v
            return L.Cont(c.kinds[:d0] + ("E",) * len(nsz) + c.kinds[d0 + 1:], ent)
        # labelled: leading concrete 1s become enumerated
        ones = [q for q, n in enumerate(nsz) if n == 1]
        core = [n for n in nsz if n != 1]
        p = L.lpos(c, d0)
        if core and isinstance(core[0], int) and core[0] <= 16 and (len(nsz) > 2 or any(isinstance(x, Poly) for x in core)) and any(self._unsplit(I, ls[p], core) for lin in c.ent.values() for _, ls in lin):
            # a leading dimension of known extent: blocks of the flat dimension
            inner = self.prod(core[1:])
            e = L.epos(c, d0)
            ent = {}
            for q in range(core[0]):
                cq = L.narrow_dim(I.cell, c, d0, P.mul(q, inner), inner, self.prod(core))
                if cq is None or cq.kinds[d0] != "L":
                    return None
                for key, lin in cq.ent.items():
                    ent[key[:e] + (q,) + key[e:]] = lin
            c = L.Cont(c.kinds[:d0] + ("E", "L") + c.kinds[d0 + 1:], ent)
            if len(core) > 2:
                c = self._regroup(I, c, [d0 + 1], [inner], core[1:])
            if c is not None:
                for q in ones:
                    c = L.unsqueeze(c, d0 + q)
            return c
        ent = {}
        for key, lin in c.ent.items():
            r = {}
            for (s, ls), v in lin.items():
                parts = self._split_label(I, ls[p], core)
                if parts is None:
                    return None
                r = L.lin_add(r, {(s, ls[:p] + tuple(parts) + ls[p + 1:]): v})
            ent[key] = r
        c = L.Cont(c.kinds[:d0] + ("L",) * len(core) + c.kinds[d0 + 1:], ent)
        for q in ones:
            c = L.unsqueeze(c, d0 + q)
        return c

    def _fold_l(self, c, d0, k):
        p = L.lpos(c, d0)
        ent = {}
        for key, lin in c.ent.items():
            r = {}
            for (s, ls), v in lin.items():
                comps = []
                for x in ls[p:p + k]:
                    comps.extend(x[1] if x[0] == "fold" else [x])
                lab = ("fold", tuple(comps))
                # refolding the unfoldings of one label gives the label back
                if all(x[0] == "u" for x in comps):
                    y, sz = comps[0][2], comps[0][3]
                    if [x[1] for x in comps] == list(range(len(sz))) and all(x[2] == y and x[3] == sz for x in comps):
                        lab = y
                r = L.lin_add(r, {(s, ls[:p] + (lab,) + ls[p + k:]): v})
            ent[key] = r
        return L.Cont(c.kinds[:d0] + ("L",) + c.kinds[d0 + k:], ent)

    def _unsplit(self, I, lab, sizes):
        """The label has no factors for these sizes."""
        return len(sizes) > 1 and any(x[0] == "u" for x in self._split_label(I, lab, sizes))

    def _split_label(self, I, lab, sizes):
        if len(sizes) == 1:
            return [lab]
        eq = lambda a, b: a == b or I.cell.known_eq(P.sub(a, b))
        if lab[0] == "fold":
            comps = list(lab[1])
            out = []
            for n in sizes:
                grp = []
                prod = 1
                while comps and not (grp and eq(prod, n)):
                    grp.append(comps.pop(0))
                    prod = P.mul(prod, L.size(grp[-1]))
                    if eq(prod, n):
                        break
                if not grp or not eq(prod, n):
                    out = None
                    break
                out.append(grp[0] if len(grp) == 1 else ("fold", tuple(grp)))
            if out is not None and not comps:
                return out
        return [("u", q, lab, tuple(sizes)) for q in range(len(sizes))]

    def f_expand(self, I, args, kwargs):
        t = args[0]
        dims = self.as_dims(I, TupV(args[1:]) if len(args) > 1 else kwargs.get("size"))
        if t.dims is None or dims is None:
            return self.view(I, t, None, None, False)
        pad = len(dims) - len(t.dims)
        out = []
        for i, x in enumerate(dims):
            if isinstance(x, int) and x == -1:
                out.append(t.dims[i - pad])
            else:
                out.append(x)
        c = self.cont(t)
        if c is not None:
            for _ in range(pad):
                c = L.unsqueeze(c, 0)
            od = (1,) * pad + tuple(t.dims)
            for i, (a, b) in enumerate(zip(od, out)):
                if a == b:
                    continue
                if a == 1 and c.kinds[i] == "E" and isinstance(b, int):
                    p = L.epos(c, i)
                    c = L.Cont(c.kinds, {k[:p] + (q,) + k[p + 1:]: v for k, v in c.ent.items() for q in range(b)})
                else:
                    c = None
                    break
        return self.view(I, t, out, c, False)

    def f_expand_as(self, I, args, kwargs):
        return self.f_expand(I, [args[0], self.shape(args[1])], {})

    def f_broadcast_to(self, I, args, kwargs):
        return self.f_expand(I, args, kwargs)

    def f_select(self, I, args, kwargs):
        t = args[0]
        A = Args(args, kwargs)
        if t.dims is None:
            return self.view(I, t, None, None, False)
        d = self.nd(I, t, A.get(1, "dim"))
        i = A.get(2, "index")
        if d is None:
            return self.unk(I, "select along an unknown dimension", [t], (TOP,) * (len(t.dims) - 1), t.dtype, t.device)
        if isinstance(i, int) and isinstance(t.dims[d], int) and not -t.dims[d] <= i < t.dims[d]:
            I.raise_("IndexError", "select(): index %d out of range for tensor of size %s at dimension %d" % (i, [str(x) for x in t.dims], d))
        return self.select(I, t, d, i if isinstance(i, int) else TOP)

    def f_narrow(self, I, args, kwargs):
        t = args[0]
        A = Args(args, kwargs)
        if t.dims is None:
            return self.view(I, t, None, None, False)
        d = self.nd(I, t, A.get(1, "dim"))
        s, ln = self.as_int(I, A.get(2, "start")), self.as_int(I, A.get(3, "length"))
        if isinstance(s, TopV) or isinstance(ln, TopV) or isinstance(t.dims[d], TopV):
            return self.view(I, t, t.dims[:d] + (ln,) + t.dims[d + 1:], None, False)
        if not I.cell.decide_ge(s):
            s = P.add(s, t.dims[d])
        if not I.cell.decide_ge(P.sub(t.dims[d], P.add(s, ln))) or not I.cell.decide_ge(ln):
            I.raise_("RuntimeError", "narrow: start+length exceeds dimension size")
        return self.narrow(I, t, d, s, ln)

    def f_index_select(self, I, args, kwargs):
        t = args[0]
        A = Args(args, kwargs)
        d = self.nd(I, t, A.get(1, "dim"))
        idx = A.get(2, "index")
        self.same_device(I, [t, idx], "index_select")
        r = self.new(I, t.dims[:d] + ((idx.dims[0],) if idx.dims else (1,)) + t.dims[d + 1:], None, t.dtype, t.device, [t])
        r.d = r.d | idx.d
        return r

    def f_split(self, I, args, kwargs):
        t = args[0]
        A = Args(args, kwargs)
        sz = A.get(1, "split_size_or_sections", kwargs.get("split_size"))
        d = A.get(2, "dim", 0)
        if t.dims is None:
            return TupV([], star=self.view(I, t, None, None, False))
        d = self.nd(I, t, d)
        n = t.dims[d]
        if isinstance(sz, (ListV, TupV)):
            if sz.star is not None:
                return TupV([], star=self.view(I, t, None, None, False))
            parts = [self.as_int(I, x) for x in sz.items]
            tot = self.prod([1])
            tot = 0
            for x in parts:
                if isinstance(x, TopV):
                    return TupV([self.view(I, t, t.dims[:d] + (x,) + t.dims[d + 1:], None, False) for x in parts])
                tot = P.add(tot, x)
            if not isinstance(n, TopV) and not I.cell.decide_eq(P.sub(tot, n)):
                I.raise_("RuntimeError", "split sizes do not sum to the dimension size")
        else:
            sz = self.as_int(I, sz)
            if isinstance(sz, TopV) or isinstance(n, TopV):
                return TupV([], star=self.view(I, t, t.dims[:d] + (TOP,) + t.dims[d + 1:], None, False))
            if I.cell.decide_eq(sz):
                if I.cell.decide_eq(n):
                    parts = [0]
                else:
                    I.raise_("RuntimeError", "split_size can only be 0 if dimension size is 0")
            else:
                parts = []
                rem = n
                while True:
                    if not parts and I.cell.decide_eq(rem):
                        parts.append(0)
                        break
                    if len(parts) > 70:
                        return TupV([], star=self.view(I, t, t.dims[:d] + (TOP,) + t.dims[d + 1:], None, False))
                    if I.cell.decide_ge(P.sub(rem, P.add(sz, 1))):
                        parts.append(sz)
                        rem = P.sub(rem, sz)
                        if len(parts) > 12 and isinstance(rem, Poly):
                            return TupV([], star=self.view(I, t, t.dims[:d] + (sz,) + t.dims[d + 1:], None, False))
                    else:
                        parts.append(rem)
                        break
        out = []
        at = 0
        for p in parts:
            out.append(self.narrow(I, t, d, at, p))
            at = P.add(at, p)
        return TupV(out)

    def f_split_with_sizes(self, I, args, kwargs):
        return self.f_split(I, args, kwargs)

    def f_tensor_split(self, I, args, kwargs):
        t = args[0]
        A = Args(args, kwargs)
        n = A.get(1, "indices_or_sections", kwargs.get("sections"))
        d = A.get(2, "dim", 0)
        if isinstance(n, int) and t.dims is not None:
            return self.f_chunk(I, [t, n, d], {})
        return TupV([], star=self.view(I, t, None, None, False))

    def f_chunk(self, I, args, kwargs):
        t = args[0]
        A = Args(args, kwargs)
        n, d = A.get(1, "chunks"), A.get(2, "dim", 0)
        if t.dims is None or not isinstance(n, int):
            return TupV([], star=self.view(I, t, None, None, False))
        d = self.nd(I, t, d)
        if isinstance(t.dims[d], TopV):
            return TupV([self.view(I, t, t.dims[:d] + (TOP,) + t.dims[d + 1:], None, False) for _ in range(n)])
        sz = I.cell.floordiv(P.add(t.dims[d], n - 1), n)
        return self.f_split(I, [t, sz, d], {})

    def f_unbind(self, I, args, kwargs):
        t = args[0]
        d = Args(args, kwargs).get(1, "dim", 0)
        if t.dims is None:
            return TupV([], star=self.view(I, t, None, None, False))
        d = self.nd(I, t, d)
        n = t.dims[d]
        if isinstance(n, int) and n <= 256:
            return TupV([self.select(I, t, d, i) for i in range(n)])
        return TupV([], star=self.select(I, t, d, TOP))

    def f_flip(self, I, args, kwargs):
        t = args[0]
        A = Args(args, kwargs)
        ds = args[1:] if "dims" not in kwargs else [kwargs["dims"]]
        flat = []
        for x in ds:
            flat.extend(x.items if isinstance(x, (TupV, ListV)) else [x])
        c = self.cont(t)
        if t.dims is None:
            return self.new(I, None, None, t.dtype, t.device, [t])
        for x in flat:
            d = self.nd(I, t, x)
            if d is None:
                c = None
                break
            if c is not None:
                c = L.flip_dim(c, d, t.dims[d])
        r = self.new(I, t.dims, c, t.dtype, t.device, [t])
        if isinstance(t.values, list) and len(t.dims) == 1:
            r.values = t.values[::-1]
        return r

    def f_fliplr(self, I, args, kwargs):
        return self.f_flip(I, [args[0], 1], {})

    def f_flipud(self, I, args, kwargs):
        return self.f_flip(I, [args[0], 0], {})

    def f_roll(self, I, args, kwargs):
        t = args[0]
        A = Args(args, kwargs)
        s, d = A.get(1, "shifts"), A.get(2, "dims")
        c = self.cont(t)
        nc = None
        if c is not None and t.dims is not None and d is not None:
            ss = list(s.items) if isinstance(s, (TupV, ListV)) else [s]
            dd = list(d.items) if isinstance(d, (TupV, ListV)) else [d]
            nc = c
            for x, y in zip(ss, dd):
                y = self.nd(I, t, y)
                if y is None or not V.is_int(x) or nc is None or nc.kinds[y] != "L":
                    nc = None
                    break
                nc = L.map_label(nc, y, lambda l: ("ext", "periodic", P.neg(x), L.size(l), l) if l[0] != "emb" else None)
        return self.new(I, t.dims, nc, t.dtype, t.device, [t])

    # ----- joins ------------------------------------------------------------------------
    def seq(self, I, v):
        items, star = I.iter_spec(v)
        return list(items), star

    def f_stack(self, I, args, kwargs):
        A = Args(args, kwargs)
        ts, star = self.seq(I, A.get(0, "tensors"))
        d = A.get(1, "dim", 0)
        if star is not None or any(not isinstance(t, TensorV) for t in ts):
            src = ts + ([star] if star is not None else [])
            el = next((t for t in src if isinstance(t, TensorV)), None)
            r = self.new(I, None, None, el.dtype if el else TOP, el.device if el else TOP, src)
            if el is not None and el.dims is not None and isinstance(d, int):
                dd = d % (len(el.dims) + 1)
                r.dims = el.dims[:dd] + (TOP,) + el.dims[dd:]
            return r
        if not ts:
            I.raise_("RuntimeError", "stack expects a non-empty TensorList")
        dev = self.same_device(I, ts, "stack")
        dt = self.promote(ts)
        if any(t.dims is None for t in ts):
            return self.new(I, None, None, dt, dev, ts)
        r0 = ts[0].dims
        for t in ts[1:]:
            if len(t.dims) != len(r0):
                I.raise_("RuntimeError", "stack expects each tensor to be equal size")
            for x, y in zip(r0, t.dims):
                if isinstance(x, TopV) or isinstance(y, TopV):
                    continue
                if x != y and not I.cell.decide_eq(P.sub(x, y)):
                    I.raise_("RuntimeError", "stack expects each tensor to be equal size, got %s and %s" % (P.show(x), P.show(y)))
        d = self.nd(I, ts[0], d, 1)
        cs = [self.cont(t) for t in ts]
        c = L.stack(cs, d) if all(x is not None for x in cs) else None
        r = self.new(I, r0[:d] + (len(ts),) + r0[d:], c, dt, dev, ts)
        if all(t.values is not None and not isinstance(t.values, list) for t in ts):
            r.values = [t.values for t in ts]
        if len(ts) == 2 and all(t.note and t.note[0] == "idxrow" for t in ts) and ts[0].note[1] == ts[1].note[1]:
            ks = (ts[0].note[2], ts[1].note[2])
            if ks == (1, 0):
                r.note = ("indices", L.op_T(ts[0].note[1]))
            elif ks == (0, 1):
                r.note = ("indices", ts[0].note[1])
        return r

    def f_vstack(self, I, args, kwargs):
        ts, star = self.seq(I, args[0])
        if star is None and all(isinstance(t, TensorV) and t.dims is not None for t in ts):
            ts = [self.f_unsqueeze(I, [t, 0], {}) if len(t.dims) == 1 else t for t in ts]
        return self.f_cat(I, [ListV(ts, star), 0], {})

    def f_hstack(self, I, args, kwargs):
        ts, star = self.seq(I, args[0])
        d = 0 if star is None and ts and isinstance(ts[0], TensorV) and ts[0].dims is not None and len(ts[0].dims) == 1 else 1
        return self.f_cat(I, [ListV(ts, star), d], {})

    def f_cat(self, I, args, kwargs):
        A = Args(args, kwargs)
        ts, star = self.seq(I, A.get(0, "tensors"))
        d = A.get(1, "dim", kwargs.get("axis", 0))
        if star is not None or any(not isinstance(t, TensorV) for t in ts):
            src = ts + ([star] if star is not None else [])
            el = next((t for t in src if isinstance(t, TensorV)), None)
            return self.new(I, None, None, el.dtype if el else TOP, el.device if el else TOP, src)
        if not ts:
            I.raise_("RuntimeError", "cat expects a non-empty list")
        dev = self.same_device(I, ts, "cat")
        dt = self.promote(ts)
        lay = "sparse" if all(t.layout == "sparse" for t in ts) else "strided"
        if any(t.dims is None for t in ts):
            r = self.new(I, None, None, dt, dev, ts)
            r.layout = lay
            return r
        r0 = ts[0].dims
        d = self.nd(I, ts[0], d)
        if d is None:
            return self.new(I, None, None, dt, dev, ts)
        tot = 0
        for t in ts:
            if len(t.dims) != len(r0):
                I.raise_("RuntimeError", "cat: tensors must have the same number of dimensions")
            for q, (x, y) in enumerate(zip(r0, t.dims)):
                if q == d or isinstance(x, TopV) or isinstance(y, TopV):
                    continue
                if x != y and not I.cell.decide_eq(P.sub(x, y)):
                    I.raise_("RuntimeError", "cat: sizes of tensors must match except in dimension %d (%s vs %s)" % (d, P.show(x), P.show(y)))
            tot = TOP if isinstance(tot, TopV) or isinstance(t.dims[d], TopV) else P.add(tot, t.dims[d])
        cs = [self.cont(t) for t in ts]
        c = None
        if all(x is not None for x in cs) and not isinstance(tot, TopV):
            c = L.cat(I.cell, cs, d, [t.dims[d] for t in ts])
        r = self.new(I, r0[:d] + (tot,) + r0[d + 1:], c, dt, dev, ts)
        r.layout = lay
        if lay == "sparse":
            if all(t.op is not None for t in ts) and d == 0:
                r.op = ("cat", tuple(t.op for t in ts))
            r.idt = ts[0].idt if all(t.idt == ts[0].idt for t in ts) else None
        if all(isinstance(t.values, list) for t in ts) and len(r0) == 1:
            r.values = [x for t in ts for x in t.values]
        return r

    def f_repeat(self, I, args, kwargs):
        t = args[0]
        reps = self.as_dims(I, TupV(args[1:]) if len(args) > 1 else kwargs.get("sizes", TupV([])))
        if t.dims is None or reps is None:
            return self.new(I, None, None, t.dtype, t.device, [t])
        dims = (1,) * (len(reps) - len(t.dims)) + tuple(t.dims)
        out = tuple(TOP if isinstance(a, TopV) or isinstance(b, TopV) else P.mul(a, b) for a, b in zip(dims, reps))
        c = self.cont(t)
        for _ in range(len(reps) - len(t.dims)):
            c = L.unsqueeze(c, 0) if c is not None else None
        for i, (n, k) in enumerate(zip(dims, reps)):
            if c is None or k == 1:
                continue
            if c.kinds[i] == "L" and V.is_int(k):
                m = P.mul(n, k) if V.is_int(n) else None
                c = L.map_label(c, i, lambda l: ("ext", "periodic", 0, m, l) if l[0] != "emb" else None) if m is not None else None
            elif c.kinds[i] == "E" and isinstance(k, int) and isinstance(n, int) and 0 < k <= 64:
                p = sum(x == "E" for x in c.kinds[:i])
                c = L.Cont(c.kinds, {e[:p] + (e[p] + j * n,) + e[p + 1:]: v for e, v in c.ent.items() for j in range(k)})
            else:
                c = None
        return self.new(I, out, c, t.dtype, t.device, [t])

    f_tile = f_repeat

    def f_repeat_interleave(self, I, args, kwargs):
        t = args[0]
        return self.new(I, (TOP,), None, t.dtype, t.device, [t])

    # ----- products -------------------------------------------------------------------------
    def f_matmul(self, I, args, kwargs):
        A = Args(args, kwargs)
        a, b = A.get(0, "input"), A.get(1, "other", kwargs.get("mat2"))
        if not isinstance(a, TensorV) or not isinstance(b, TensorV):
            return self.unk(I, "matmul", [a, b])
        dev = self.same_device(I, [a, b], "mm")
        dt = self.same_dtype(I, [a, b], "mm")
        dims = None
        if a.dims is not None and b.dims is not None and len(a.dims) >= 1 and len(b.dims) >= 1:
            ka = a.dims[-1]
            kb = b.dims[-2] if len(b.dims) > 1 else b.dims[0]
            if not isinstance(ka, TopV) and not isinstance(kb, TopV) and ka != kb:
                if not I.cell.decide_eq(P.sub(ka, kb)):
                    I.raise_("RuntimeError", "mat1 and mat2 shapes cannot be multiplied (inner %s vs %s)" % (P.show(ka), P.show(kb)))
            if len(a.dims) > 1 and len(b.dims) > 1:
                batch = self.broadcast(I, a.dims[:-2], b.dims[:-2])
                dims = tuple(batch) + (a.dims[-2], b.dims[-1])
            elif len(a.dims) == 1 and len(b.dims) > 1:
                dims = b.dims[:-2] + (b.dims[-1],)
            elif len(b.dims) == 1 and len(a.dims) > 1:
                dims = a.dims[:-1]
            else:
                dims = ()
        r = self.new(I, dims, None, dt, dev, [a, b])
        if a.layout == "sparse" and b.layout == "sparse":
            r.layout = "sparse"
            r.idt = LONG if a.idt == LONG and b.idt == LONG else None
            if a.op is not None and b.op is not None:
                r.op = ("P", a.op, b.op)
            return r
        if a.op is not None and b.dims is not None and len(b.dims) >= 2 and dims is not None and len(a.dims) == 2:
            c = self.cont(b)
            k = len(b.dims) - 2
            if c is not None and c.kinds[k] == "L":
                c2 = L.map_label(c, k, lambda l: L.mm_apply(I.cell, a.op, l, a.dims[0]))
                if c2 is not None:
                    r.cont = L.Cont(c2.kinds, {q: L.simplify(I.cell, v) for q, v in c2.ent.items()})
        elif b.op is not None and a.dims is not None and len(b.dims) == 2 and dims is not None:
            c = self.cont(a)
            k = len(a.dims) - 1
            if c is not None and c.kinds[k] == "L":
                c2 = L.map_label(c, k, lambda l: L.mm_apply(I.cell, L.op_T(b.op), l, b.dims[1]))
                if c2 is not None:
                    r.cont = L.Cont(c2.kinds, {q: L.simplify(I.cell, v) for q, v in c2.ent.items()})
        return r

    def f_einsum(self, I, args, kwargs):
        ts = [a for a in args[1:] if isinstance(a, TensorV)]
        if len(args) == 2 and isinstance(args[1], (ListV, TupV)):
            ts = [x for x in args[1].items if isinstance(x, TensorV)]
        dev = self.same_device(I, ts, "einsum")
        dims = None
        eq = args[0]
        c = None
        if isinstance(eq, str) and "->" in eq and "." not in eq:
            ins, out = eq.replace(" ", "").split("->")
            mp = {}
            for s, t in zip(ins.split(","), ts):
                if t.dims is not None and len(s) == len(t.dims):
                    for ch, n in zip(s, t.dims):
                        mp[ch] = n
            if all(ch in mp for ch in out):
                dims = tuple(mp[ch] for ch in out)
            parts = ins.split(",")
            cs = [self.cont(t) for t in ts]
            if all(x is not None for x in cs) and sorted("".join(parts)) == sorted(out) and len(set(out)) == len(out):
                # pure outer product
                cur = cs[0]
                names = list(parts[0])
                cd = list(ts[0].dims)
                for s, t, cc in zip(parts[1:], ts[1:], cs[1:]):
                    x = cur
                    for _ in s:
                        x = L.unsqueeze(x, len(x.kinds))
                    cur = L.product(x, cc, cd + [1] * len(s), list(t.dims))
                    if cur is None:
                        break
                    names += list(s)
                    cd += list(t.dims)
                if cur is not None:
                    c = L.permute(cur, [names.index(ch) for ch in out])
        return self.new(I, dims, c, self.promote(ts), dev, ts)

    def f_outer(self, I, args, kwargs):
        a, b = args[0], Args(args, kwargs).get(1, "vec2")
        x = self.f_unsqueeze(I, [a, -1], {})
        y = self.f_unsqueeze(I, [b, 0], {})
        return self.binary(I, "Mult", x, y)

    f_ger = f_outer

    def f_kron(self, I, args, kwargs):
        a, b = args[0], args[1]
        dev = self.same_device(I, [a, b], "kron")
        dims = None
        if a.dims is not None and b.dims is not None and len(a.dims) == len(b.dims):
            dims = tuple(TOP if isinstance(x, TopV) or isinstance(y, TopV) else P.mul(x, y) for x, y in zip(a.dims, b.dims))
        return self.new(I, dims, None, self.promote([a, b]), dev, [a, b])

    def f_dot(self, I, args, kwargs):
        return self.new(I, (), None, self.promote(args[:2]), self.same_device(I, args[:2], "dot"), args[:2])

    # ----- elementwise -------------------------------------------------------------------------
    def _elementwise(self, I, args, kwargs):
        ts = [x for x in args if isinstance(x, TensorV)]
        if not ts:
            return TOP
        r = self.new(I, ts[0].dims, None, ts[0].dtype, ts[0].device, ts)
        if isinstance(r.dtype, DTypeV) and r.dtype.name in INTS:
            r.dtype = TOP
        return r

    def _nograd_elementwise(self, I, args, kwargs):
        r = self._elementwise(I, args, kwargs)
        if isinstance(r, TensorV):
            r.g = frozenset()
            r.dtype = args[0].dtype
        return r

    def _boolwise(self, I, args, kwargs):
        r = self._elementwise(I, args, kwargs)
        if isinstance(r, TensorV):
            r.g = frozenset()
            r.dtype = BOOL
        return r

    def _bin(op):
        def f(self, I, args, kwargs):
            A = Args(args, kwargs)
            a, b = args[0], A.get(1, "other", kwargs.get("exponent"))
            al = kwargs.get("alpha")
            if al is not None and isinstance(b, TensorV):
                b = self.binary(I, "Mult", b, al)
            if isinstance(a, TensorV) or isinstance(b, TensorV):
                return self.binary(I, op, a, b)
            return TOP

        return f

    f_add = _bin("Add")
    f_sub = _bin("Sub")
    f_mul = _bin("Mult")
    f_div = _bin("Div")
    f_pow = _bin("Pow")
    f_remainder = _bin("Mod")
    f_floor_divide = _bin("FloorDiv")
    f_bitwise_and = _bin("BitAnd")
    f_bitwise_or = _bin("BitOr")
    f_maximum = _bin("Max")
    f_minimum = _bin("Min")
    f_fmod = _bin("Mod")

    def f_neg(self, I, args, kwargs):
        return self.unary(I, args[0], "USub")

    def f_where(self, I, args, kwargs):
        if len(args) == 1:
            return TupV([], star=self.new(I, (TOP,), None, LONG, args[0].device, []))
        ts = [x for x in args[1:] if isinstance(x, TensorV)]
        dims = args[0].dims if isinstance(args[0], TensorV) else None
        for t in ts:
            dims = self.broadcast(I, dims, t.dims)
        r = self.new(I, dims, None, self.promote(ts), self.same_device(I, list(args), "where"), ts)
        r.d = r.d | I.deps(args[0])
        return r

    def f_masked_select(self, I, args, kwargs):
        t = args[0]
        m = args[1] if len(args) > 1 else kwargs.get("mask")
        if isinstance(m, TensorV):
            self.data_size(I, m, "masked_select")
        r = self.new(I, (self.fresh_len(I),), None, t.dtype, t.device, [t])
        r.d = r.d | I.deps(m)
        return r

    def f_masked_fill(self, I, args, kwargs):
        t = args[0]
        return self.new(I, t.dims, None, t.dtype, t.device, [x for x in args if isinstance(x, TensorV)])

    f_index_fill = f_index_copy = f_index_add = f_scatter = f_scatter_add = f_masked_fill

    def f_gather(self, I, args, kwargs):
        A = Args(args, kwargs)
        idx = A.get(2, "index")
        return self.new(I, idx.dims, None, args[0].dtype, args[0].device, [args[0]])

    def f_take_along_dim(self, I, args, kwargs):
        return self.new(I, None, None, args[0].dtype, args[0].device, [args[0]])

    def f_copy(self, I, args, kwargs):
        return self.f_clone(I, [args[1]] if len(args) > 1 and isinstance(args[1], TensorV) else args[:1], {})

    def f_fill(self, I, args, kwargs):
        t = args[0]
        r = self.new(I, t.dims, None, t.dtype, t.device, [])
        r.d = I.deps(args[1]) if len(args) > 1 else frozenset()
        return r

    def f_zero(self, I, args, kwargs):
        t = args[0]
        return self.new(I, t.dims, None, t.dtype, t.device, [])

    # ----- reductions ----------------------------------------------------------------------------
    def _reduce_dims(self, I, t, A):
        d = A.get(1, "dim", A.k.get("axis"))
        keep = A.get(2, "keepdim", False)
        if t.dims is None:
            return None, None, keep
        if d is None:
            return list(range(len(t.dims))), True, keep
        ds = [self.nd(I, t, x) for x in (d.items if isinstance(d, (TupV, ListV)) else [d])]
        return ds, False, keep

    def reduce_raw(self, I, args, kwargs, mean=False):
        t = args[0]
        A = Args(args, kwargs)
        if not isinstance(t, TensorV):
            return TOP
        ds, full, keep = self._reduce_dims(I, t, A)
        dt = A.k.get("dtype") or t.dtype
        if isinstance(dt, DTypeV) and dt.name in INTS and not mean:
            dt = LONG
        if ds is None:
            return self.new(I, None, None, dt, t.device, [t])
        dims = [n for i, n in enumerate(t.dims) if i not in ds] if keep is not True else [1 if i in ds else n for i, n in enumerate(t.dims)]
        return self.new(I, dims, None, dt, t.device, [t])

    def _linear_reduce(self, I, args, kwargs, mean):
        t = args[0]
        r = self.reduce_raw(I, args, kwargs, mean)
        if not isinstance(t, TensorV) or t.dims is None or not isinstance(r, TensorV):
            return r
        A = Args(args, kwargs)
        ds, full, keep = self._reduce_dims(I, t, A)
        c = self.cont(t)
        if c is None or any(x is None for x in ds):
            return r
        dims = list(t.dims)
        for d in sorted(ds, reverse=True):
            if c is None or c.kinds[d] != "E" or not isinstance(dims[d], int):
                return r
            f = Fraction(1, dims[d]) if mean else Fraction(1)
            c = L.sum_dim(I.cell, c, d, keep is True, f)
        r.cont = c
        return r

    def f_sum(self, I, args, kwargs):
        return self._linear_reduce(I, args, kwargs, False)

    def f_mean(self, I, args, kwargs):
        return self._linear_reduce(I, args, kwargs, True)

    def f_norm(self, I, args, kwargs):
        return self.reduce_raw(I, args[:1], {k: v for k, v in kwargs.items() if k in ("dim", "keepdim")})

    def f_native_norm(self, I, args, kwargs):
        return self.new(I, (), None, args[0].dtype, args[0].device, [args[0]])

    def f_max(self, I, args, kwargs):
        t = args[0]
        A = Args(args, kwargs)
        if len(args) > 1 and isinstance(args[1], TensorV):
            return self.binary(I, "Max", args[0], args[1])
        if A.has(1, "dim"):
            r = self.reduce_raw(I, args, kwargs)
            r.dtype = t.dtype
            i = self.new(I, r.dims, None, LONG, t.device, [])
            i.d = t.d
            return TupV([r, i])
        return self.new(I, (), None, t.dtype, t.device, [t])

    f_min = f_max

    def f_any(self, I, args, kwargs):
        r = self.reduce_raw(I, args, kwargs)
        if isinstance(r, TensorV):
            r.dtype = BOOL
            r.g = frozenset()
        return r

    f_all = f_any

    def f_argmax(self, I, args, kwargs):
        r = self.reduce_raw(I, args, kwargs)
        r.dtype = LONG
        r.g = frozenset()
        return r

    f_argmin = f_count_nonzero = f_argmax

    def f_argsort(self, I, args, kwargs):
        t = args[0]
        r = self.new(I, t.dims, None, LONG, t.device, [])
        r.d = t.d
        if isinstance(t.values, list) and all(isinstance(x, int) for x in t.values) and not kwargs.get("descending"):
            r.values = sorted(range(len(t.values)), key=lambda i: t.values[i])
        return r

    def f_sort(self, I, args, kwargs):
        t = args[0]
        v = self.new(I, t.dims, None, t.dtype, t.device, [t])
        return TupV([v, self.f_argsort(I, args, kwargs)])

    def f_nonzero(self, I, args, kwargs):
        t = args[0]
        self.data_size(I, t, "nonzero")
        r = self.new(I, (TOP, len(t.dims) if t.dims is not None else TOP), None, LONG, t.device, [])
        r.d = t.d
        return r

    def f_unique_consecutive(self, I, args, kwargs):
        t = args[0]
        u = self.new(I, (TOP,), None, t.dtype, t.device, [])
        u.d = t.d
        cnt = self.new(I, (TOP,), None, LONG, t.device, [])
        cnt.d = t.d
        outs = [u]
        if kwargs.get("return_inverse"):
            outs.append(cnt)
        if kwargs.get("return_counts"):
            outs.append(cnt)
        return TupV(outs) if len(outs) > 1 else u

    f_unique = f_unique_consecutive

    def f_bincount(self, I, args, kwargs):
        r = self.new(I, (TOP,), None, LONG, args[0].device, [])
        r.d = args[0].d
        return r

    def f_cumsum(self, I, args, kwargs):
        t = args[0]
        return self.new(I, t.dims, None, t.dtype, t.device, [t])

    f_cumprod = f_cumsum

    def f_diff(self, I, args, kwargs):
        t = args[0]
        A = Args(args, kwargs)
        d = A.get(2, "dim", -1)
        n = A.get(1, "n", 1)
        if t.dims is None or not isinstance(n, int):
            return self.new(I, None, None, t.dtype, t.device, [t])
        d = self.nd(I, t, d)
        x = t.dims[d]
        return self.new(I, t.dims[:d] + (TOP if isinstance(x, TopV) else P.sub(x, n),) + t.dims[d + 1:], None, t.dtype, t.device, [t])

    def f_equal(self, I, args, kwargs):
        return TopV(I.deps(args[0]) | I.deps(args[1]), "data")

    f_allclose = f_equal

    # ----- sparse ------------------------------------------------------------------------------------
    def f_sparse_coo_tensor(self, I, args, kwargs):
        A = Args(args, kwargs)
        idx, vals, size = A.get(0, "indices"), A.get(1, "values"), A.get(2, "size")
        if isinstance(vals, (TupV, ListV)) and not isinstance(idx, (TensorV,)):
            size = vals
            vals = None
        dt = A.k.get("dtype")
        if dt is None:
            dt = vals.dtype if isinstance(vals, TensorV) else TOP
        dev = self.opt_device(I, A, vals.device if isinstance(vals, TensorV) else CPU)
        dims = self.as_dims(I, size) if size is not None else None
        if isinstance(idx, TensorV):
            if "device" not in A.k and isinstance(vals, TensorV):
                if isinstance(idx.device, DeviceV) and isinstance(vals.device, DeviceV) and idx.device != vals.device:
                    I.notes.append("sparse_coo_tensor without device argument mixes devices at " + I.loc())
            if isinstance(idx.dtype, DTypeV) and idx.dtype.name not in INTS:
                I.effect("float-index", "sparse index tensor of dtype %s" % idx.dtype)
            elif any(x.startswith("!viafloat") for x in idx.d):
                v = [x for x in idx.d if x.startswith("!viafloat")][0].split("|")
                I.effect("float-index", "sparse index tensor computed through %s at %s" % (v[1], v[2]))
            elif isinstance(idx.dtype, DTypeV) and idx.dtype.name not in ("int64",):
                I.effect("narrow-index", "sparse index tensor of dtype %s" % idx.dtype)
        if isinstance(idx, TensorV) and idx.dims is not None and len(idx.dims) != 2 and isinstance(vals, TensorV) and vals.dims is not None and len(vals.dims):
            I.raise_("RuntimeError", "indices must be sparse_dim x nnz, but got %d dimensions" % len(idx.dims))
        if isinstance(idx, TensorV) and idx.dims is not None and dims is not None and isinstance(vals, TensorV) and vals.dims is not None and len(idx.dims) == 2 and len(vals.dims):
            if isinstance(idx.dims[0], int) and idx.dims[0] + len(vals.dims) - 1 != len(dims):
                I.raise_("RuntimeError", "number of dimensions must be sparse_dim (%d) + dense_dim (%d), but got %d" % (idx.dims[0], len(vals.dims) - 1, len(dims)))
            if isinstance(idx.dims[1], int) and isinstance(vals.dims[0], int) and idx.dims[1] != vals.dims[0]:
                I.raise_("RuntimeError", "indices and values must have the same number of entries, got %d and %d" % (idx.dims[1], vals.dims[0]))
        r = self.new(I, dims, None, dt, dev, [vals])
        r.d = r.d | I.deps(idx)
        r.layout = "sparse"
        r.idt = idx.dtype if isinstance(idx, TensorV) else None
        if r.dims is None and isinstance(idx, TensorV) and idx.dims is not None:
            if isinstance(idx.dims[0], int):
                r.dims = (TOP,) * idx.dims[0]
        if isinstance(idx, TensorV) and isinstance(vals, TensorV) and idx.note and vals.note:
            if idx.note[0] == "indices" and vals.note[0] == "values" and (idx.note[1] == vals.note[1] or idx.note[1] == L.op_T(vals.note[1])):
                r.op = idx.note[1]
        if size is None:
            I.effect("sizeless-sparse", "sparse matrix built without an explicit size")
        return r

    def f_coalesce(self, I, args, kwargs):
        t = args[0]
        r = self.view(I, t, t.dims, self.cont(t), True)
        r.op, r.idt = t.op, t.idt
        r.store = Storage()
        r.ver = 0
        return r

    def f_indices(self, I, args, kwargs):
        t = args[0]
        r = TensorV((len(t.dims) if t.dims is not None else TOP, TOP), None, LONG, t.device, None, frozenset(), frozenset(x for x in t.d if x.startswith("!")))
        if t.op is not None:
            r.note = ("indices", t.op)
        return r

    f__indices = f_indices

    def f_values(self, I, args, kwargs):
        t = args[0]
        r = self.new(I, (TOP,), None, t.dtype, t.device, [t])
        if t.op is not None:
            r.note = ("values", t.op)
        return r

    f__values = f_values

    def f_to_dense(self, I, args, kwargs):
        t = args[0]
        r = self.new(I, t.dims, self.cont(t), t.dtype, t.device, [t])
        r.op = t.op
        return r

    def f_to_sparse(self, I, args, kwargs):
        t = args[0]
        r = self.new(I, t.dims, self.cont(t), t.dtype, t.device, [t])
        r.layout = "sparse"
        r.idt = LONG
        r.op = t.op
        return r

    f_to_sparse_coo = f_to_sparse_csr = f_to_sparse

    def f_is_coalesced(self, I, args, kwargs):
        return TOP

    def f__nnz(self, I, args, kwargs):
        return TopV(args[0].d)

    def f_sparse_dim(self, I, args, kwargs):
        return 2

    # ----- padding, convolutions ------------------------------------------------------------------------
    def f_pad(self, I, args, kwargs):
        A = Args(args, kwargs)
        t, pad, mode, val = A.get(0, "input"), A.get(1, "pad"), A.get(2, "mode", "constant"), A.get(3, "value")
        if not isinstance(t, TensorV):
            return self.unk(I, "pad", [t])
        pads = self.as_dims(I, pad)
        if t.dims is None or pads is None or any(isinstance(x, TopV) for x in pads):
            return self.new(I, None, None, t.dtype, t.device, [t])
        if len(pads) % 2:
            I.raise_("RuntimeError", "padding length must be divisible by 2")
        k = len(pads) // 2
        if k > len(t.dims):
            I.raise_("RuntimeError", "padding length too large for the tensor rank")
        lm = {"constant": "zero", "replicate": "constant", "circular": "periodic", "reflect": "reflect"}.get(mode)
        if isinstance(mode, (TopV, SymStr)):
            lm = None
        elif lm is None:
            I.raise_("NotImplementedError", "Unrecognised padding mode %s" % (mode,))
        if lm == "zero" and val is not None and not (V.is_num(val) and not isinstance(val, Poly) and val == 0):
            lm = None
        if mode != "constant" and lm is not None:
            # torch supports non-constant padding of the last k dims of rank k+1 / k+2 tensors only
            if len(t.dims) not in (k + 1, k + 2):
                I.raise_("NotImplementedError", "%s padding of %d dims needs a rank %d or %d tensor, got rank %d" % (mode, k, k + 1, k + 2, len(t.dims)))
        dims = list(t.dims)
        c = self.cont(t)
        for q in range(k):
            d = len(dims) - 1 - q
            pl, pr = pads[2 * q], pads[2 * q + 1]
            if pl == 0 and pr == 0:
                continue
            n = dims[d]
            if isinstance(n, TopV):
                c = None
                continue
            if lm == "reflect":
                for p in (pl, pr):
                    if p != 0 and not I.cell.assume_ge(P.sub(P.sub(n, 1), p), "reflect padding smaller than the axis (torch precondition)"):
                        I.raise_("RuntimeError", "reflect padding size should be less than the corresponding input dimension")
            if lm == "periodic":
                for p in (pl, pr):
                    if p != 0 and not I.cell.assume_ge(P.sub(n, p), "circular padding at most the axis length (torch precondition)"):
                        I.raise_("RuntimeError", "padding value causes wrapping around more than once")
            new = P.add(n, P.add(pl, pr))
            dims[d] = new
            if c is not None:
                if lm is None or c.kinds[d] != "L":
                    c = None
                else:
                    c = L.map_label(c, d, lambda l: self._pad_label(I, l, lm, pl, new))
        r = self.new(I, dims, c, t.dtype, t.device, [t])
        return r

    def _pad_label(self, I, l, lm, pl, new):
        if l[0] == "emb":
            if lm == "zero":
                return ("emb", P.add(l[1], pl), l[2], new)
            return None
        return L.ext(I.cell, lm, P.neg(pl), new, l)

    def _conv_args(self, I, args, kwargs, nd, transposed):
        A = Args(args, kwargs)
        if transposed:
            names = ["input", "weight", "bias", "stride", "padding", "output_padding", "groups", "dilation"]
        else:
            names = ["input", "weight", "bias", "stride", "padding", "dilation", "groups"]
        defaults = {"bias": None, "stride": 1, "padding": 0, "output_padding": 0, "groups": 1, "dilation": 1}
        g = {n: A.get(i, n, defaults.get(n)) for i, n in enumerate(names)}

        def lst(v):
            if isinstance(v, (TupV, ListV)):
                if len(v.items) == 1:
                    return list(v.items) * nd
                return list(v.items)
            return [v] * nd

        for n in ("stride", "padding", "dilation") + (("output_padding",) if transposed else ()):
            g[n] = [x if isinstance(x, str) else self.as_int(I, x) for x in lst(g[n])]
        return g

    def _conv(self, I, args, kwargs, nd, transposed):
        g = self._conv_args(I, args, kwargs, nd, transposed)
        x, w = g["input"], g["weight"]
        what = "conv%s%dd" % ("_transpose" if transposed else "", nd)
        if not isinstance(x, TensorV) or not isinstance(w, TensorV):
            return self.unk(I, what, [x, w])
        ts = [x, w] + ([g["bias"]] if isinstance(g["bias"], TensorV) else [])
        dev = self.same_device(I, ts, what)
        dt = self.same_dtype(I, ts, what)
        if x.dims is None or w.dims is None:
            return self.new(I, None, None, dt, dev, ts)
        if len(w.dims) != nd + 2:
            I.raise_("RuntimeError", "%s: expected a %d-dimensional weight, got rank %d" % (what, nd + 2, len(w.dims)))
        if len(x.dims) == nd + 1:
            r = self._conv(I, [self.f_unsqueeze(I, [x, 0], {})] + list(args[1:]), {k: v for k, v in kwargs.items() if k != "input"}, nd, transposed)
            return self.f_squeeze(I, [r, 0], {}) if r.dims is not None else r
        if len(x.dims) != nd + 2:
            I.raise_("RuntimeError", "%s: expected a %d- or %d-dimensional input, got rank %d" % (what, nd + 1, nd + 2, len(x.dims)))
        groups = g["groups"]
        cin = x.dims[1]
        wc = w.dims[0] if transposed else w.dims[1]
        if isinstance(groups, int) and not isinstance(cin, TopV) and not isinstance(wc, TopV):
            need = wc if transposed else P.mul(wc, groups)
            if not I.cell.decide_eq(P.sub(cin, need)):
                I.raise_("RuntimeError", "%s: input has %s channels but the weight expects %s" % (what, P.show(cin), P.show(need)))
        cout = P.mul(w.dims[1], groups) if transposed and isinstance(groups, int) and not isinstance(w.dims[1], TopV) else w.dims[0] if not transposed else TOP
        outs = []
        pads = g["padding"]
        for i in range(nd):
            n, k = x.dims[2 + i], w.dims[2 + i]
            s, d, p = g["stride"][i], g["dilation"][i], pads[i]
            if isinstance(p, str):
                if p == "valid":
                    p = 0
                else:
                    outs.append(n if s == 1 else TOP)
                    pads[i] = TOP
                    continue
            pads[i] = p
            if any(isinstance(q, TopV) for q in (n, k, s, d, p)):
                outs.append(TOP)
                continue
            span = P.mul(d, P.sub(k, 1))
            if transposed:
                o = P.add(P.add(P.sub(P.mul(P.sub(n, 1), s), P.mul(2, p)), P.add(span, 1)), g["output_padding"][i])
            else:
                room = P.sub(P.sub(P.add(n, P.mul(2, p)), span), 1)
                if not I.cell.assume_ge(room, "convolution input at least as long as the filter (torch precondition)"):
                    I.raise_("RuntimeError", "%s: kernel size can't be greater than actual input size" % what)
                o = P.add(I.cell.floordiv(room, s), 1)
            outs.append(o)
        r = self.new(I, (x.dims[0], cout) + tuple(outs), None, dt, dev, ts)
        r.cont = self._conv_cont(I, x, w, g, nd, transposed, outs, cout, groups)
        return r

    def _conv_cont(self, I, x, w, g, nd, transposed, outs, cout, groups):
        cx, cw = self.cont(x), self.cont(w)
        if cx is None or cw is None or g["bias"] is not None:
            return None
        if any(isinstance(o, TopV) for o in outs) or not isinstance(cout, int) or not isinstance(groups, int):
            return None
        if cx.kinds[1] != "E" or any(k != "L" for k in cx.kinds[2:]):
            return None
        if cw.kinds[:2] != ("E", "E") or any(k != "L" for k in cw.kinds[2:]):
            return None
        if transposed and any(x0 != 0 for x0 in g["output_padding"]):
            return None
        b_is_e = cx.kinds[0] == "E"
        ent = {}
        cin = x.dims[1]
        if not isinstance(cin, int):
            return None
        bkeys = sorted({k[0] for k in cx.ent}) if b_is_e else [None]
        ipg = cin // groups
        opg = cout // groups
        for b in bkeys:
            for o in range(cout):
                grp = o // opg
                acc = {}
                for ci in range(ipg):
                    c = grp * ipg + ci
                    xl = cx.ent.get((b, c) if b_is_e else (c,), {})
                    wl = cw.ent.get((c, o % opg) if transposed else (o, ci), {})
                    for (sx, lx), vx in xl.items():
                        blab, axl = (lx[:1], lx[1:]) if not b_is_e else ((), lx)
                        for (sw, lw), vw in wl.items():
                            labs = []
                            for i in range(nd):
                                if lw[i][0] != "flt" or axl[i][0] == "emb":
                                    return None
                                if transposed:
                                    labs.append(L.tconv(I.cell, axl[i], lw[i], g["stride"][i], g["dilation"][i], g["padding"][i], outs[i]))
                                else:
                                    labs.append(L.corr(I.cell, axl[i], lw[i], g["stride"][i], g["dilation"][i], g["padding"][i], outs[i]))
                            acc = L.lin_add(acc, {(L.mulsrc(sx, sw), tuple(blab) + tuple(labs)): vx * vw})
                            if len(acc) > L.MAX_TERMS:
                                return None
                ent[(b, o) if b_is_e else (o,)] = L.simplify(I.cell, acc)
        return L.Cont((cx.kinds[0], "E") + ("L",) * nd, ent)

    def f_conv1d(self, I, a, k):
        return self._conv(I, a, k, 1, False)

    def f_conv2d(self, I, a, k):
        return self._conv(I, a, k, 2, False)

    def f_conv3d(self, I, a, k):
        return self._conv(I, a, k, 3, False)

    def f_conv_transpose1d(self, I, a, k):
        return self._conv(I, a, k, 1, True)

    def f_conv_transpose2d(self, I, a, k):
        return self._conv(I, a, k, 2, True)

    def f_conv_transpose3d(self, I, a, k):
        return self._conv(I, a, k, 3, True)

    # ----- misc -----------------------------------------------------------------------------------------
    def f_fft(self, I, args, kwargs):
        t = args[0]
        A = Args(args, kwargs)
        n = A.get(1, "n")
        d = A.get(2, "dim", -1)
        dt = t.dtype
        if isinstance(dt, DTypeV):
            dt = DTypeV("complex128" if dt.name in ("float64", "complex128") else "complex64" if dt.name in ("float32", "complex64") else "complex64")
        dims = None
        if t.dims is not None:
            d = self.nd(I, t, d)
            nn = t.dims[d] if n is None else self.as_int(I, n)
            dims = t.dims[:d] + (nn,) + t.dims[d + 1:]
        return self.new(I, dims, None, dt, t.device, [t])

    f_ifft = f_fft

    def f_rfft(self, I, args, kwargs):
        r = self.f_fft(I, args, kwargs)
        r.dims = None
        return r

    def f_irfft(self, I, args, kwargs):
        r = self.f_fft(I, args, kwargs)
        r.dims = None
        if isinstance(r.dtype, DTypeV):
            r.dtype = DTypeV({"complex128": "float64", "complex64": "float32"}.get(r.dtype.name, r.dtype.name))
        return r

    def f_qr(self, I, args, kwargs):
        t = args[0]
        if t.layout == "sparse":
            I.raise_("NotImplementedError", "qr of a sparse tensor")
        dims = None
        q = self.new(I, None, None, t.dtype, t.device, [t])
        r = self.new(I, None, None, t.dtype, t.device, [t])
        if t.dims is not None and len(t.dims) == 2:
            q.dims = (t.dims[0], TOP)
            r.dims = (TOP, t.dims[1])
        return TupV([q, r])

    def f_broadcast_tensors(self, I, args, kwargs):
        dims = ()
        for t in args:
            dims = self.broadcast(I, dims, t.dims)
        return TupV([self.f_expand(I, [t, TupV(dims)], {}) if dims is not None else t for t in args])

    def f_meshgrid(self, I, args, kwargs):
        return TupV([], star=self.unk(I, "meshgrid", list(args)))

    def f_atleast_1d(self, I, args, kwargs):
        t = args[0]
        return self.f_unsqueeze(I, [t, 0], {}) if t.dims == () else t

    def f___len__(self, I, args, kwargs):
        t = args[0]
        if t.dims is None:
            return TopV(t.d)
        if not t.dims:
            I.raise_("TypeError", "len() of a 0-d tensor")
        n = t.dims[0]
        return TopV(frozenset(), "") if isinstance(n, TopV) else n

    def f_backward(self, I, args, kwargs):
        I.effect("mutate", "backward() accumulates gradients", target="gradients")
        return None

    def f_register_hook(self, I, args, kwargs):
        return TOP

    def f_storage(self, I, args, kwargs):
        return TOP

    def f_dense_dim(self, I, args, kwargs):
        return 0

    def f_get_device(self, I, args, kwargs):
        return TOP

    def f_share_memory(self, I, args, kwargs):
        return args[0]

    def f_element_size(self, I, args, kwargs):
        return TOP


def is_ellipsis(x):
    return x is ELL or (isinstance(x, type(Ellipsis))) or (isinstance(x, Ext) and x.path == "builtins.Ellipsis")


ELL = Ellipsis
