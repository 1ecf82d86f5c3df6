"""Transfer functions for builtins, the standard library, numpy and pywt."""

from __future__ import annotations

import math
import re
from fractions import Fraction

from . import expr as E
from . import poly as P
from . import values as V
from .poly import Poly
from .values import *
from .interp import AbsRaise, BUILTIN_TYPES, EXC_PARENT, builtin, canon, hkey
from .cell import Excluded
from .models_torch import Args, CPU, CREATORS_NEED_NO_TENSOR

MATH_CONST = {"pi": math.pi, "e": math.e, "inf": math.inf, "tau": math.tau}


def alldeps(I, args, kwargs=None):
    d = frozenset()
    for a in list(args) + list((kwargs or {}).values()):
        d |= I.deps(a)
    return d


# --------------------------------------------------------------------------- numbers
def as_level(I, x):
    """int(log2(n / (F - 1))) in normal form."""
    c = I.cell
    if not isinstance(x, Poly) or len(x.t) != 1:
        return None
    (m, k), = x.t.items()
    if k != 1 or len(m) != 1 or m[0][0] != "f":
        return None
    a = m[0]
    if a[1] in ("maxlev", "swtlev"):
        return x
    if a[1] in ("floor", "trunc"):
        return x
    if a[1] == "log2":
        q = a[2][0]
        num = den = None
        if isinstance(q, Poly):
            if len(q.t) == 1:
                (mm, kk), = q.t.items()
                if kk == 1 and len(mm) == 1 and mm[0][0] == "f" and mm[0][1] == "truediv":
                    num, den = mm[0][2]
            if num is None:
                d = P.denominators(q)
                num, den = P.scale(q, d), d
        if num is None:
            return None
        f = P.add(den, 1)
        # below one half the truncated logarithm would be negative: such inputs are
        # shorter than half the filter
        if not c.assume_ge(P.sub(P.scale(num, 2), f), "log2(n/(F-1)) > -1"):
            return None
        return c.fn("maxlev", (num, f))
    if a[1] in ("min", "max"):
        xs = [as_level(I, y) if isinstance(y, Poly) else int(y) for y in a[2]]
        if any(y is None for y in xs):
            return None
        return c.fn(a[1], tuple(xs))
    return None


def to_int(I, x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, float):
        if x != x or abs(x) == math.inf:
            I.raise_("ValueError", "cannot convert float to integer")
        return int(x)
    if isinstance(x, Fraction):
        return int(x)
    if isinstance(x, Poly):
        x = I.cell.norm(x)
        if not isinstance(x, Poly):
            return to_int(I, x)
        lv = as_level(I, x)
        if lv is not None:
            return lv
        if P.denominators(x) != 1:
            g = I.cell.ge0(x)
            if g is True:
                d = P.denominators(x)
                return I.cell.floordiv(P.scale(x, d), d)
            return TOP
        for a in P.atoms(x):
            if a[0] == "f" and a[1] in ("log2", "truediv", "log"):
                return TOP
        return x
    if isinstance(x, str):
        try:
            return int(x)
        except ValueError:
            I.raise_("ValueError", "invalid literal for int()")
    if isinstance(x, TensorV):
        if x.values is not None and not isinstance(x.values, list):
            return to_int(I, x.values)
        return TopV(x.d, "data")
    if isinstance(x, NdV):
        return TopV(x.d, "data" if x.d else "")
    if isinstance(x, TopV):
        return TopV(x.deps, x.kind)
    if x is None or isinstance(x, (ListV, TupV, DictV)):
        I.raise_("TypeError", "int() argument must be a number")
    return TOP


def to_float(I, x):
    if isinstance(x, bool):
        return float(x)
    if isinstance(x, int):
        return float(x)
    if isinstance(x, (float, Fraction, Poly)):
        return x
    if isinstance(x, str):
        return TOP
    return TopV(I.deps(x), "data" if I.deps(x) else "")


def num_floor(I, x, up):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, (int,)):
        return x
    if isinstance(x, (float, Fraction)):
        return math.ceil(x) if up else math.floor(x)
    if isinstance(x, Poly):
        x = I.cell.norm(x)
        if not isinstance(x, Poly):
            return num_floor(I, x, up)
        d = P.denominators(x)
        if any(a[0] == "f" and a[1] in ("log2", "truediv", "log", "sqrt") for a in P.atoms(x)):
            # ceil(log2(n)): the exponent of the next power of two
            if up and len(x.t) == 1:
                (m, k), = x.t.items()
                if k == 1 and len(m) == 1 and m[0][0] == "f" and m[0][1] == "log2":
                    return I.cell.fn("clog2", m[0][2])
            lv = as_level(I, x) if not up else None
            return lv if lv is not None else TOP
        if d == 1:
            return x
        if up:
            return P.neg(I.cell.floordiv(P.neg(P.scale(x, d)), d))
        return I.cell.floordiv(P.scale(x, d), d)
    return TopV(I.deps(x), getattr(x, "kind", "") if isinstance(x, TopV) else "")


def num_log2(I, x):
    if isinstance(x, (int, float, Fraction)) and not isinstance(x, bool):
        if x <= 0:
            return -math.inf if x == 0 else TOP
        r = math.log2(x)
        return r
    if isinstance(x, Poly):
        return I.cell.fn("log2", (x,))
    return TopV(I.deps(x))


def minmax(I, which, xs):
    if not xs:
        I.raise_("ValueError", "%s() of an empty sequence" % which)
    if any(isinstance(x, (TensorV,)) for x in xs):
        return TopV(alldeps(I, xs), "data")
    if any(not V.is_num(x) and not isinstance(x, bool) for x in xs):
        if all(isinstance(x, str) for x in xs):
            return (min if which == "min" else max)(xs)
        return TopV(alldeps(I, xs))
    if all(P.is_const(x) for x in xs):
        return (min if which == "min" else max)(xs)
    if any(isinstance(x, float) for x in xs):
        if not all(x == x and abs(x) != math.inf for x in xs if isinstance(x, float)):
            return TOP
        xs = [(int(x) if float(x).is_integer() else Fraction(x)) if isinstance(x, float) else x for x in xs]
    return I.cell.fn(which, tuple(I.cell.norm(x) for x in xs))


# --------------------------------------------------------------------------- builtins
class Builtins:
    def __init__(self):
        self.fns = {n[2:]: getattr(self, n) for n in dir(self) if n.startswith("b_")}

    def __contains__(self, name):
        return name in self.fns or name in BUILTIN_TYPES or name in EXC_PARENT or name in (
            "Ellipsis", "NotImplemented", "print", "super", "memoryview", "bytearray", "__import__", "open", "input", "exec", "eval", "globals", "locals", "breakpoint", "compile", "EncodingWarning", "BaseExceptionGroup")

    def b_len(self, I, a, k):
        x = a[0]
        if isinstance(x, (TupV, ListV, DictV, SetV)):
            if x.star is not None:
                return TopV()
            return len(x.items)
        if isinstance(x, str):
            return len(x)
        if isinstance(x, TensorV):
            if x.dims is None:
                return TOP
            if not x.dims:
                I.raise_("TypeError", "len() of a 0-d tensor")
            return x.dims[0]
        if isinstance(x, SeqV):
            return x.length
        if isinstance(x, RangeV):
            n = P.sub(x.hi, x.lo)
            if x.step == 1:
                return n if I.cell.decide_ge(n) else 0
            return TOP
        if isinstance(x, NdV):
            return x.dims[0] if x.dims else TOP
        if isinstance(x, InstV):
            m = I.find_method(x, "__len__")
            if m:
                return I.call(m, [], {})
            v = I.ext_inst_attr(x, x.cls, "__len__") if isinstance(x.cls, Ext) else None
            if v is not None:
                return I.call(v, [], {})
            if isinstance(x.cls, ClassV) and not any(isinstance(b, Ext) for b in x.cls.mro):
                I.raise_("TypeError", "object has no len()")
            for b in getattr(x.cls, "mro", ()):
                if isinstance(b, Ext):
                    v = I.ext_inst_attr(x, b, "__len__")
                    if v is not None:
                        return I.call(v, [], {})
            return TOP
        if x is None or V.is_num(x) or isinstance(x, bool):
            I.raise_("TypeError", "object has no len()")
        return TopV(I.deps(x))

    def b_isinstance(self, I, a, k):
        return I.isinstance_(a[0], a[1])

    def b_issubclass(self, I, a, k):
        if isinstance(a[0], (ClassV, Ext)):
            return I.issub(a[0], a[1]) is True
        return TOP

    def b_hasattr(self, I, a, k):
        if isinstance(a[0], TopV):
            return TOP
        try:
            r = I.getattr(a[0], a[1])
            if isinstance(r, TopV) and isinstance(a[0], (InstV, Ext)):
                return TOP
            return True
        except AbsRaise as e:
            if e.name() == "AttributeError":
                return False
            raise

    def b_getattr(self, I, a, k):
        if not isinstance(a[1], str):
            return TOP
        try:
            return I.getattr(a[0], a[1])
        except AbsRaise as e:
            if len(a) > 2 and e.name() == "AttributeError":
                return a[2]
            raise

    def b_setattr(self, I, a, k):
        if isinstance(a[1], str):
            I.setattr(a[0], a[1], a[2])

    def b_delattr(self, I, a, k):
        if isinstance(a[0], InstV) and isinstance(a[1], str):
            I.touch(a[0], "delattr")
            a[0].attrs.pop(a[1], None)

    def b_callable(self, I, a, k):
        x = a[0]
        if isinstance(x, (FuncV, BoundV, NativeV, PartialV, ClassV)):
            return True
        if isinstance(x, InstV):
            return I.find_method(x, "__call__") is not None or TOP
        if x is None or V.is_num(x) or isinstance(x, (str, TupV, ListV, DictV, TensorV)):
            return False
        return TOP

    def b_abs(self, I, a, k):
        x = a[0]
        if isinstance(x, (int, float, Fraction)):
            return abs(x)
        if isinstance(x, Poly):
            return x if I.cell.decide_ge(x) else P.neg(x)
        if isinstance(x, TensorV):
            return I.T.fns["abs"](I, a, k)
        if isinstance(x, TopV) and isinstance(x.key, tuple) and x.key and x.key[0] == "ex":
            return TopV(I.deps(x), "data", ("ex", E.func("abs", x.key[1])))
        return TopV(I.deps(x), "data" if I.deps(x) else "")

    def b_round(self, I, a, k):
        if isinstance(a[0], (int, float)) and len(a) == 1:
            return round(a[0])
        return TopV(I.deps(a[0]))

    def b_divmod(self, I, a, k):
        return TupV([I.binop("FloorDiv", a[0], a[1]), I.binop("Mod", a[0], a[1])])

    def b_pow(self, I, a, k):
        return I.binop("Pow", a[0], a[1])

    def b_sum(self, I, a, k):
        items, star = I.iter_spec(a[0])
        r = a[1] if len(a) > 1 else k.get("start", 0)
        for x in items:
            r = I.binop("Add", r, x)
        if star is not None:
            return I.join(r, TopV(I.deps(star)))
        return r

    def _mm(self, I, which, a, k):
        if len(a) > 1:
            xs, star = list(a), None
        else:
            items, star = I.iter_spec(a[0])
            xs = list(items)
        if k.get("key") is not None or star is not None:
            if not xs and star is None and "default" in k:
                return k["default"]
            return TopV(alldeps(I, xs))
        if not xs and "default" in k:
            return k["default"]
        return minmax(I, which, xs)

    def b_min(self, I, a, k):
        return self._mm(I, "min", a, k)

    def b_max(self, I, a, k):
        return self._mm(I, "max", a, k)

    def _quant(self, I, a, anyp):
        items, star = I.iter_spec(a[0])
        unk = False
        for x in items:
            if I.truth(x) == anyp:
                return anyp
        if star is not None:
            return TopV(I.deps(star), getattr(star, "kind", "") if isinstance(star, TopV) else "")
        return not anyp

    def b_any(self, I, a, k):
        return self._quant(I, a, True)

    def b_all(self, I, a, k):
        return self._quant(I, a, False)

    def b_enumerate(self, I, a, k):
        items, star = I.iter_spec(a[0])
        s = a[1] if len(a) > 1 else k.get("start", 0)

        def gen():
            i = s
            for x in items:
                yield TupV([i, x])
                i = P.add(i, 1)

        return IterV(gen(), TupV([TOP, star]) if star is not None else None)

    def b_zip(self, I, a, k):
        specs = [I.iter_spec(x) for x in a]
        if any(st is not None for _, st in specs):
            pre = [list(p) for p, _ in specs]
            n = min([len(p) for p in pre]) if pre else 0
            if any(st is None and len(p) == n for (_, st), p in zip(specs, pre)):
                return IterV(iter([TupV(x) for x in zip(*pre)]))
            st = []
            for (_, s), p in zip(specs, pre):
                v = s
                for x in p[n:]:
                    v = x if v is None else I.join(v, x)
                st.append(v if v is not None else TOP)
            return IterV(iter([TupV(x) for x in zip(*[p[:n] for p in pre])]), TupV(st))
        its = [iter(p) for p, _ in specs]
        strict = k.get("strict") is True

        def gen():
            if not its:
                return
            while True:
                row = []
                for j, it in enumerate(its):
                    try:
                        row.append(next(it))
                    except StopIteration:
                        if strict:
                            if j:
                                I.raise_("ValueError", "zip() arguments of different length")
                            for o in its[1:]:
                                if next(o, None) is not None:
                                    I.raise_("ValueError", "zip() arguments of different length")
                        return
                yield TupV(row)

        return IterV(gen())

    def b_map(self, I, a, k):
        f = a[0]
        if len(a) > 2:
            it = self.b_zip(I, a[1:], {})
            star = it.star
            return IterV((I.call(f, list(x.items), {}) for x in it.gen), I.call(f, list(star.items), {}) if star is not None else None)
        items, star = I.iter_spec(a[1])
        return IterV((I.call(f, [x], {}) for x in items), I.call(f, [star], {}) if star is not None else None)

    def b_filter(self, I, a, k):
        f = a[0]
        items, star = I.iter_spec(a[1])
        return IterV((x for x in items if I.truth(x if f is None else I.call(f, [x], {}))), star)

    def b_reversed(self, I, a, k):
        if isinstance(a[0], InstV):
            m = I.find_method(a[0], "__reversed__")
            if m:
                return I.call(m, [], {})
        items, star = I.iter_spec(a[0])
        xs = list(items)
        if star is not None:
            st = star
            for x in xs:
                st = I.join(st, x)
            return IterV(iter([]), st)
        return IterV(iter(xs[::-1]))

    def b_sorted(self, I, a, k):
        items, star = I.iter_spec(a[0])
        xs = list(items)
        key = k.get("key")
        ks = [I.call(key, [x], {}) if key is not None else x for x in xs]
        if star is not None:
            return ListV([], star=I.join(star, xs[0]) if xs else star)

        def cc(v):
            if isinstance(v, TupV):
                return tuple(cc(y) for y in v.items)
            if isinstance(v, (int, float, Fraction, str)):
                return v
            raise TypeError

        try:
            o = sorted(range(len(xs)), key=lambda i: cc(ks[i]), reverse=I.truth(k.get("reverse", False)))
            return ListV([xs[i] for i in o])
        except TypeError:
            if all(V.is_int(x) for x in ks):
                out = []
                for i, x in enumerate(ks):
                    j = len(out)
                    while j > 0 and not I.cell.decide_ge(P.sub(x, ks[out[j - 1]])):
                        j -= 1
                    out.insert(j, i)
                if I.truth(k.get("reverse", False)):
                    out.reverse()
                return ListV([xs[i] for i in out])
            st = None
            for x in xs:
                st = x if st is None else I.join(st, x)
            if any(kk.kind == "data" for kk in ks if isinstance(kk, TopV)):
                I.datactl.append({"loc": I.loc(), "deps": sorted(alldeps(I, ks)), "why": "ordering by values computed from tensor data"})
            return ListV([], star=st)

    def b_iter(self, I, a, k):
        items, star = I.iter_spec(a[0])
        return a[0] if isinstance(a[0], IterV) else IterV(iter(items), star)

    def b_next(self, I, a, k):
        it = a[0]
        if isinstance(it, IterV):
            try:
                return next(it.gen)
            except StopIteration:
                if it.star is not None:
                    return it.star
                if len(a) > 1:
                    return a[1]
                I.raise_("StopIteration")
        return TOP

    def b_id(self, I, a, k):
        return TopV()

    def b_hash(self, I, a, k):
        h = hkey(a[0])
        return TopV(I.deps(a[0]), key="hash:%r" % (h,))

    def b_repr(self, I, a, k):
        return I.strings(*I.text(a[0], True))

    def b_format(self, I, a, k):
        return SymStr("format", anon=True)

    def b_chr(self, I, a, k):
        return chr(a[0]) if isinstance(a[0], int) else SymStr("chr", anon=True)

    def b_ord(self, I, a, k):
        return ord(a[0]) if isinstance(a[0], str) and len(a[0]) == 1 else TOP

    def b_bin(self, I, a, k):
        return bin(a[0]) if isinstance(a[0], int) else SymStr("bin", anon=True)

    def b_vars(self, I, a, k):
        return I.getattr(a[0], "__dict__") if a else TOP

    def b_dir(self, I, a, k):
        return TOP

    def b_print(self, I, a, k):
        I.effect("output", "print()")

    def b_open(self, I, a, k):
        I.effect("process-global", "opens a file")
        return TOP

    def b_int(self, I, a, k):
        if not a:
            return 0
        if len(a) == 2 and isinstance(a[0], str) and isinstance(a[1], int):
            return int(a[0], a[1])
        return to_int(I, a[0])

    def b_float(self, I, a, k):
        return to_float(I, a[0]) if a else 0.0

    def b_complex(self, I, a, k):
        return TopV(kind="complex")

    def b_bool(self, I, a, k):
        return I.truth(a[0]) if a else False

    def b_str(self, I, a, k):
        if not a:
            return ""
        x = a[0]
        if isinstance(x, (str, SymStr)):
            return x
        return I.strings(x)

    def b_bytes(self, I, a, k):
        return TOP

    def b_list(self, I, a, k):
        if not a:
            return ListV([])
        items, star = I.iter_spec(a[0])
        return ListV(list(items), star=star)

    def b_tuple(self, I, a, k):
        if not a:
            return TupV([])
        if isinstance(a[0], TupV) and a[0].cls is None and a[0].tname == "tuple":
            return a[0]
        items, star = I.iter_spec(a[0])
        return TupV(list(items), star=star)

    def b_dict(self, I, a, k):
        d = DictV()
        if a:
            I.dict_update(d, a[0])
        for n, v in k.items():
            I.dict_set(d, n, v)
        return d

    def b_set(self, I, a, k, frozen=False):
        s = SetV(frozen=frozen)
        if a:
            items, star = I.iter_spec(a[0])
            for x in items:
                I.set_add(s, x)
            if star is not None:
                s.star = star
        return s

    def b_frozenset(self, I, a, k):
        return self.b_set(I, a, k, True)

    def b_slice(self, I, a, k):
        if len(a) == 1:
            return SliceV(None, a[0], None)
        return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)

    def b_range(self, I, a, k):
        a = [I.cell.norm(x) if isinstance(x, Poly) else x for x in a]
        for x in a:
            if isinstance(x, TensorV) and isinstance(x.values, (int, Poly)):
                continue
            if isinstance(x, (float, Fraction)) or x is None or isinstance(x, (str, ListV, TupV)):
                I.raise_("TypeError", "range() argument must be an integer")
        a = [x.values if isinstance(x, TensorV) and isinstance(x.values, (int, Poly)) else x for x in a]
        if any(not V.is_int(x) and not isinstance(x, bool) for x in a):
            return ListV([], star=TopV(alldeps(I, a), "data" if any(isinstance(x, TopV) and x.kind == "data" for x in a) else ""))
        a = [int(x) if isinstance(x, bool) else x for x in a]
        if len(a) == 1:
            return RangeV(0, a[0], 1)
        return RangeV(a[0], a[1], a[2] if len(a) > 2 else 1)

    def b_type(self, I, a, k):
        if len(a) == 1:
            return I.type_of(a[0])
        return TOP

    def b_object(self, I, a, k):
        return InstV(builtin("object"))

    def b_property(self, I, a, k):
        return PropV(a[0], a[1] if len(a) > 1 else None)

    def b_staticmethod(self, I, a, k):
        return StaticV(a[0])

    def b_classmethod(self, I, a, k):
        return ClassMV(a[0])


# --------------------------------------------------------------------------- methods
def value_method(I, o, name):
    """Attribute of str / list / dict / set / tuple / number values."""
    if isinstance(o, (str, SymStr)):
        def f(i, a, k):
            if isinstance(o, str) and all(isinstance(x, (str, int)) for x in a) and hasattr(o, name) and name != "join" and name != "format":
                try:
                    r = getattr(o, name)(*a)
                except Exception as e:
                    i.raise_(type(e).__name__, str(e))
                return conv(r)
            if name == "join":
                items, star = i.iter_spec(a[0])
                xs = list(items)
                if star is None and isinstance(o, str) and all(isinstance(x, str) for x in xs):
                    return o.join(xs)
                if star is None and all(isinstance(x, (str, SymStr)) for x in xs):
                    return i.strings(*[y for n, x in enumerate(xs) for y in ([o] if n else []) + [x]])
                return SymStr("join@%s" % i.loc(), anon=True)
            if name in ("split", "rsplit", "splitlines"):
                return ListV([], star=SymStr("part", anon=True))
            if name in ("startswith", "endswith", "isdigit", "isalpha"):
                return TOP
            if name in ("find", "count", "index"):
                return TOP
            return SymStr("%s@%s" % (name, i.loc()), anon=True)
        if isinstance(o, str) and not hasattr(o, name):
            I.raise_("AttributeError", "'str' object has no attribute '%s'" % name)
        return NativeV("str." + name, f)
    if isinstance(o, ListV):
        f = LIST.get(name)
        if f is None:
            if name.startswith("__"):
                return TOP
            if not hasattr([], name) and not (o.kind == "deque" and name in ("popleft", "appendleft", "rotate", "extendleft", "maxlen")):
                I.raise_("AttributeError", "'list' object has no attribute '%s'" % name)
            return NativeV("list." + name, lambda i, a, k: TOP)
        return NativeV("list." + name, lambda i, a, k: f(i, o, a, k))
    if isinstance(o, DictV):
        f = DICT.get(name)
        if f is None:
            if name.startswith("__"):
                return TOP
            if not hasattr({}, name):
                I.raise_("AttributeError", "'dict' object has no attribute '%s'" % name)
            return NativeV("dict." + name, lambda i, a, k: TOP)
        return NativeV("dict." + name, lambda i, a, k: f(i, o, a, k))
    if isinstance(o, SetV):
        return NativeV("set." + name, lambda i, a, k: set_method(i, o, name, a, k))
    if isinstance(o, TupV):
        if name in ("index", "count"):
            return NativeV("tuple." + name, lambda i, a, k: LIST[name](i, ListV(o.items, star=o.star), a, k))
        if name == "numel":
            return NativeV("numel", lambda i, a, k: i.T.prod(o.items))
        if o.tname in ("Literal", "Union") and name in ("__args__",):
            return TupV(o.items)
        if name.startswith("__"):
            return TOP
        I.raise_("AttributeError", "'tuple' object has no attribute '%s'" % name)
    if V.is_num(o) or isinstance(o, bool):
        if name in ("real", "numerator"):
            return o
        if name == "imag":
            return 0
        if name in ("is_integer", "bit_length"):
            def g(i, a, k):
                if isinstance(o, (int, float)):
                    return getattr(o, name)()
                if isinstance(o, Poly) and name == "is_integer":
                    return True if P.denominators(o) == 1 and not any(x[0] == "f" for x in P.atoms(o)) else TOP
                return TOP
            return NativeV(name, g)
        if name in ("item", "__index__", "__int__", "astype", "conjugate"):
            return NativeV(name, lambda i, a, k: o)
        if name.startswith("__"):
            return TOP
        I.raise_("AttributeError", "number has no attribute '%s'" % name)
    if isinstance(o, IterV):
        return NativeV("iter." + name, lambda i, a, k: TOP)
    if isinstance(o, (SeqV, RangeV)):
        if name == "index" or name == "count":
            return NativeV(name, lambda i, a, k: TOP)
        if name == "copy":
            return NativeV(name, lambda i, a, k: o)
        return TOP
    return TOP


def conv(r):
    if isinstance(r, tuple):
        return TupV([conv(x) for x in r])
    if isinstance(r, list):
        return ListV([conv(x) for x in r])
    return r


def l_append(I, l, a, k):
    I.touch(l, "append")
    if l.star is not None:
        l.star = I.join(l.star, a[0])
    else:
        l.items.append(a[0])


def l_extend(I, l, a, k):
    I.list_extend(l, a[0])


def l_insert(I, l, a, k):
    I.touch(l, "insert")
    i = I.cell.norm(a[0]) if isinstance(a[0], Poly) else a[0]
    if l.star is None and isinstance(i, int):
        l.items.insert(i, a[1])
    elif l.star is not None:
        l.star = I.join(l.star, a[1])
    else:
        st = a[1]
        for x in l.items:
            st = I.join(st, x)
        l.items, l.star = [], st


def l_pop(I, l, a, k):
    I.touch(l, "pop")
    i = a[0] if a else -1
    if l.star is None:
        if isinstance(i, int):
            if -len(l.items) <= i < len(l.items):
                return l.items.pop(i)
            I.raise_("IndexError", "pop from empty list")
        I.widen_list(l)
    if l.star is not None and l.items and i == 0:
        return l.items.pop(0)
    r = l.star
    for x in l.items:
        r = I.join(r, x)
    return r if r is not None else TOP


def l_reverse(I, l, a, k):
    I.touch(l, "reverse")
    if l.star is None:
        l.items.reverse()
    else:
        st = l.star
        for x in l.items:
            st = I.join(st, x)
        l.items, l.star = [], st


def l_sort(I, l, a, k):
    I.touch(l, "sort")
    r = I.B.b_sorted(I, [l], k)
    l.items, l.star = list(r.items), r.star


def l_copy(I, l, a, k):
    return ListV(list(l.items), star=l.star, kind=l.kind)


def l_clear(I, l, a, k):
    I.touch(l, "clear")
    l.items, l.star = [], None


def l_index(I, l, a, k):
    for i, x in enumerate(l.items):
        q = I.eq(x, a[0])
        if q is True or (not isinstance(q, bool) and I.truth(q)):
            return i
    if l.star is not None:
        return TOP
    I.raise_("ValueError", "not in list")


def l_count(I, l, a, k):
    if l.star is not None:
        return TOP
    return sum(1 for x in l.items if I.truth(I.eq(x, a[0])))


def l_remove(I, l, a, k):
    I.touch(l, "remove")
    if l.star is None:
        for i, x in enumerate(l.items):
            if I.truth(I.eq(x, a[0])):
                del l.items[i]
                return None
        I.raise_("ValueError", "list.remove(x): x not in list")


LIST = {
    "append": l_append, "extend": l_extend, "insert": l_insert, "pop": l_pop, "reverse": l_reverse, "sort": l_sort,
    "copy": l_copy, "clear": l_clear, "index": l_index, "count": l_count, "remove": l_remove,
    "popleft": lambda I, l, a, k: l_pop(I, l, [0], {}),
    "appendleft": lambda I, l, a, k: l_insert(I, l, [0, a[0]], {}),
    "extendleft": lambda I, l, a, k: [l_insert(I, l, [0, x], {}) for x in I.iterate(a[0])] and None,
    "__len__": lambda I, l, a, k: I.B.b_len(I, [l], {}),
    "__getitem__": lambda I, l, a, k: I.getitem(l, a[0]),
    "__contains__": lambda I, l, a, k: I.contains(l, a[0]),
}


def d_get(I, d, a, k):
    hk = I.dict_find(d, a[0])
    if hk is not None and hk in d.items:
        return d.items[hk][1]
    dv = a[1] if len(a) > 1 else k.get("default")
    if d.star is not None:
        return I.join(d.star, dv)
    return dv


def d_setdefault(I, d, a, k):
    hk = I.dict_find(d, a[0])
    if hk is not None and hk in d.items:
        return d.items[hk][1]
    I.touch(d, "setdefault")
    dv = a[1] if len(a) > 1 else None
    I.dict_set(d, a[0], dv)
    return dv


def d_pop(I, d, a, k):
    hk = I.dict_find(d, a[0])
    if hk is not None and hk in d.items:
        I.touch(d, "pop")
        return d.items.pop(hk)[1]
    if d.star is not None:
        return d.star
    if len(a) > 1:
        return a[1]
    I.raise_("KeyError", repr(a[0]))


def d_clear(I, d, a, k):
    I.touch(d, "clear")
    d.items.clear()
    d.star = None


def d_update(I, d, a, k):
    if a:
        I.dict_update(d, a[0])
    else:
        I.touch(d, "update")
    for n, v in k.items():
        I.dict_set(d, n, v)


def d_popitem(I, d, a, k):
    I.touch(d, "popitem")
    if d.items and d.star is None:
        h = list(d.items)[-1]
        return TupV(d.items.pop(h))
    return TOP


class _LiveDict:
    def __init__(self, d, what):
        self.d, self.what = d, what

    def __iter__(self):
        for h in list(self.d.items):
            if h in self.d.items:
                k, v = self.d.items[h]
                yield k if self.what == "k" else v if self.what == "v" else TupV([k, v])


def d_iter(what):
    def f(I, d, a, k):
        st = None
        if d.star is not None:
            st = TOP if what == "k" else d.star if what == "v" else TupV([TOP, d.star])
        return ListV(list(_LiveDict(d, what)), star=st)
    return f


DICT = {
    "get": d_get, "setdefault": d_setdefault, "pop": d_pop, "clear": d_clear, "update": d_update, "popitem": d_popitem,
    "keys": d_iter("k"), "values": d_iter("v"), "items": d_iter("i"),
    "copy": lambda I, d, a, k: DictV(d.items, d.star),
    "__contains__": lambda I, d, a, k: I.contains(d, a[0]),
    "__getitem__": lambda I, d, a, k: I.getitem(d, a[0]),
    "__len__": lambda I, d, a, k: I.B.b_len(I, [d], {}),
}


def set_method(I, s, name, a, k):
    if name == "add":
        I.touch(s, "add")
        I.set_add(s, a[0])
        return None
    if name in ("discard", "remove", "pop", "clear"):
        I.touch(s, name)
        if name == "clear":
            s.items.clear()
        elif name == "pop":
            return TOP
        else:
            s.items.pop(hkey(a[0]), None)
        return None
    if name == "update":
        I.touch(s, "update")
        for x in a:
            for y in I.iterate(x):
                I.set_add(s, y)
        return None
    ops = {"union": "BitOr", "intersection": "BitAnd", "difference": "Sub", "symmetric_difference": "BitXor"}
    if name in ops:
        r = s
        for x in a:
            if not isinstance(x, SetV):
                x = I.B.b_set(I, [x], {})
            r = I.set_op(ops[name], r, x)
        return r
    if name == "copy":
        return SetV(s.items, s.star, s.frozen)
    if name in ("issubset", "issuperset", "isdisjoint"):
        o = a[0] if isinstance(a[0], SetV) else I.B.b_set(I, [a[0]], {})
        if s.star is None and o.star is None:
            p, q = set(s.items), set(o.items)
            return {"issubset": p <= q, "issuperset": p >= q, "isdisjoint": not (p & q)}[name]
        return TOP
    return TOP


# --------------------------------------------------------------------------- numpy
class Numpy:
    def nd(self, dims=None, d=frozenset()):
        return NdV(dims, d)

    def binary(self, I, op, a, b):
        d = I.deps(a) | I.deps(b)
        dims = None
        for x in (a, b):
            if isinstance(x, NdV) and x.dims is not None:
                if dims is None or len(x.dims) > len(dims):
                    dims = x.dims
        if isinstance(a, TensorV) or isinstance(b, TensorV):
            t = a if isinstance(a, TensorV) else b
            return I.T.new(I, None, None, TOP, t.device, [t])
        if isinstance(a, NdV) and isinstance(b, NdV) and (a.dims is None or b.dims is None):
            dims = None
        return NdV(dims, d)

    def inplace(self, I, op, old, val):
        if old.owner:
            I.effect("mutate", "in-place arithmetic on caller-owned %s" % old.owner, target=old.owner)
        r = I.binop(op, old, val)
        if isinstance(r, NdV):
            r.owner = old.owner
        return r

    def unary(self, I, v, op):
        return NdV(v.dims, v.d, kind=v.kind, dtype=v.dtype)

    def complex_lit(self, v):
        return TopV(kind="complex")

    def complex_op(self, op, *a):
        d = frozenset()
        for x in a:
            d |= getattr(x, "deps", frozenset())
        if len(a) == 1:
            return TopV(d, a[0].kind)
        return TopV(d, "complex" if all(getattr(x, "kind", "") == "complex" or V.is_num(x) for x in a) else "")

    def setitem(self, I, o, k, v):
        if o.owner:
            I.effect("mutate", "item assignment to caller-owned %s" % o.owner, target=o.owner)

    def iterate(self, I, v, unpack):
        if v.dims and isinstance(v.dims[0], int) and v.dims[0] <= 64:
            return [NdV(v.dims[1:], v.d, kind="scalar") for _ in range(v.dims[0])], None
        if unpack is not None:
            return [NdV(None, v.d) for _ in range(unpack)], None
        return [], NdV(v.dims[1:] if v.dims else None, v.d, kind="scalar" if v.dims and len(v.dims) == 1 else "ndarray")

    def getattr(self, I, o, name):
        if name == "shape":
            return TupV(o.dims) if o.dims is not None else TupV([], star=TOP)
        if name == "ndim":
            return len(o.dims) if o.dims is not None else TOP
        if name == "dtype":
            return o.dtype
        if name == "size":
            return I.T.prod(o.dims) if o.dims is not None else TOP
        if name in ("real", "imag", "T"):
            return NdV(o.dims if name != "T" or o.dims is None else tuple(reversed(o.dims)), o.d, o.owner)

        def f(i, a, k):
            if name in ("sort", "fill", "put", "itemset", "resize", "partition"):
                if o.owner:
                    i.effect("mutate", "ndarray.%s on caller-owned %s" % (name, o.owner), target=o.owner)
                return None
            if name in ("copy", "astype"):
                return NdV(o.dims, o.d)
            if name == "tolist":
                its, st = i.N.iterate(i, o, None)
                return ListV(its, star=st)
            if name == "item":
                return TopV(o.d)
            if name in ("flatten", "ravel"):
                return NdV((i.T.prod(o.dims),) if o.dims is not None else None, o.d)
            return NdV(None, o.d)

        return NativeV("ndarray." + name, f)

    def getitem(self, I, o, k):
        if isinstance(k, SliceV):
            return NdV(None if o.dims is None else (TOP,) + tuple(o.dims[1:]), o.d, o.owner)
        if o.dims is not None and V.is_int(k) and len(o.dims) == 1:
            return NdV((), o.d, kind="scalar")
        return NdV(None, o.d, o.owner)

    def call(self, I, name, a, k):
        A = Args(a, k)
        x = a[0] if a else None
        if name in ("log2",):
            if isinstance(x, NdV):
                return NdV(x.dims, x.d)
            return num_log2(I, x)
        if name in ("log", "log10", "sqrt", "exp", "sin", "cos", "tan", "square", "conj", "real", "imag", "abs", "absolute"):
            if isinstance(x, TensorV):
                return I.T.new(I, x.dims, None, x.dtype, x.device, [x])
            if isinstance(x, (int, float, Fraction)) and name in ("sqrt", "abs", "absolute", "exp", "log", "square") and (x > 0 or name in ("abs", "absolute", "exp", "square")):
                return {"sqrt": math.sqrt, "exp": math.exp, "log": math.log, "square": lambda y: y * y}.get(name, abs)(x)
            if isinstance(x, NdV):
                return NdV(x.dims, x.d, kind=x.kind)
            return TopV(I.deps(x), getattr(x, "kind", ""))
        if name in ("floor", "ceil"):
            if isinstance(x, NdV):
                return NdV(x.dims, x.d, kind=x.kind)
            r = num_floor(I, x, name == "ceil")
            return float(r) if isinstance(r, int) and not isinstance(r, bool) else r
        if name in ("power", "float_power"):
            return I.binop("Pow", a[0], a[1])
        if name in ("prod", "product"):
            if isinstance(x, (TupV, ListV)):
                if x.star is not None:
                    return TOP
                r = 1.0 if not x.items else 1
                for y in x.items:
                    r = I.binop("Mult", r, y)
                return r
            return TopV(I.deps(x))
        if name in ("min", "amin", "max", "amax", "sum"):
            if isinstance(x, (TupV, ListV)):
                if name == "sum":
                    return I.B.b_sum(I, [x], {})
                items, star = I.iter_spec(x)
                if star is None:
                    return minmax(I, name[-3:], list(items))
            return TopV(I.deps(x))
        if name in ("minimum", "maximum"):
            return minmax(I, name[:3], [a[0], a[1]])
        if name == "isscalar":
            if isinstance(x, TopV):
                return TOP
            if isinstance(x, NdV):
                return x.kind == "scalar" or (TOP if x.dims is None else False)
            return V.is_num(x) or isinstance(x, (str, bool))
        if name in ("array", "asarray", "ascontiguousarray", "stack", "concatenate"):
            if isinstance(x, TensorV):
                return NdV(x.dims, x.d, x.store.owner if name != "array" else None)
            if isinstance(x, NdV):
                return NdV(x.dims, x.d, x.owner if name in ("asarray", "ascontiguousarray") else None)
            if isinstance(x, RangeV) and x.step == 1:
                return NdV((P.sub(x.hi, x.lo),))
            if isinstance(x, (ListV, TupV)) and x.star is None and name == "array":
                if all(V.is_num(y) for y in x.items):
                    return NdV((len(x.items),))
                if all(isinstance(y, NdV) and y.kind == "scalar" for y in x.items):
                    return NdV((len(x.items),), alldeps(I, x.items))
            return NdV(None, alldeps(I, a))
        if name in ("arange", "linspace", "zeros", "ones", "empty", "full"):
            n = A.get(2, "num", 50) if name == "linspace" else a[0] if len(a) == 1 or name in ("zeros", "ones", "empty", "full") else TOP
            return NdV((n,) if V.is_int(n) else None)
        if name in ("cumsum",):
            return NdV(x.dims if isinstance(x, NdV) else None, I.deps(x))
        if name.startswith("random."):
            I.effect("nondeterminism", "numpy.%s" % name)
            if name == "random.seed":
                I.effect("process-global", "seeds the global numpy generator")
            return NdV(None)
        if name in ("seterr", "set_printoptions", "setbufsize"):
            I.effect("process-global", "numpy.%s" % name)
            return TOP
        if name in ("float32", "float64", "int32", "int64", "double"):
            return to_float(I, x) if name.startswith(("float", "double")) else to_int(I, x)
        I.unknown["numpy." + name] = 1
        return NdV(None, alldeps(I, a, k))


# --------------------------------------------------------------------------- pywt
DISCRETE = re.compile(r"haar|db\d+|sym\d+|coif\d+|(bior|rbio)\d\.\d|dmey")


def make_wavelet(I, name=None, flen=None, owner=None, slots=("dec_lo", "dec_hi", "rec_lo", "rec_hi")):
    w = InstV(Ext("pywt.Wavelet"))
    F = flen if flen is not None else I.cell.filt_len
    for s in slots:
        w.attrs[s] = SeqV(s, F)
    w.attrs["filter_bank"] = TupV([w.attrs[s] for s in slots])
    w.attrs["inverse_filter_bank"] = TupV([SeqV("inv_" + s, F) for s in slots])
    w.attrs["dec_len"] = F
    w.attrs["rec_len"] = F
    w.attrs["name"] = name if name is not None else SymStr("wavelet.name")
    w.attrs["complex_cwt"] = TopV(key="complex_cwt")
    w.owner = owner
    return w


def maxlev(I, n, f):
    if isinstance(f, InstV):
        f = f.attrs.get("dec_len", TOP)
    elif isinstance(f, (str, SymStr)):
        f = I.cell.filt_len
    if isinstance(n, float) and n == int(n):
        n = int(n)
    if isinstance(n, (Fraction, float)):
        I.raise_("ValueError", "data_len must be an integer")
    if isinstance(n, Poly) and P.denominators(n) != 1:
        return TOP
    if not V.is_int(n) or not V.is_int(f):
        return TopV(I.deps(n))
    q = I.cell.ge0(P.sub(f, 2))
    if q is False:
        I.raise_("ValueError", "Wavelet filter length must be >= 2")
    return I.cell.fn("maxlev", (I.cell.norm(n), I.cell.norm(f)))


class Pywt:
    def inst_attr(self, I, o, name):
        return None

    def call(self, I, name, a, k):
        A = Args(a, k)
        if name == "Wavelet":
            n, fb = A.get(0, "name", ""), A.get(1, "filter_bank", None)
            if fb is None and isinstance(n, str) and not DISCRETE.fullmatch(n.lower()):
                I.raise_("ValueError", "Unknown wavelet name '%s', check wavelist() for the list of available builtin wavelets." % n)
            return make_wavelet(I, n)
        if name == "dwt_max_level":
            return maxlev(I, A.get(0, "data_len"), A.get(1, "filter_len"))
        if name == "dwtn_max_level":
            sh = A.get(0, "shape")
            axes = A.get(2, "axes")
            items, star = I.iter_spec(sh)
            items = list(items)
            if star is not None:
                return TOP
            if axes is not None:
                try:
                    items = [I.getitem(ListV(items), x) for x in I.iterate(axes)]
                except AbsRaise:
                    return TOP
            w = A.get(1, "wavelet")
            if isinstance(w, (TupV, ListV)):
                ws, more = I.iter_spec(w)
                ws = list(ws)
                if more is not None:
                    return TOP
                if len(ws) != len(items):
                    I.raise_("ValueError", "the number of wavelets must match the number of axes")
                xs = [maxlev(I, n, v) for n, v in zip(items, ws)]
                return minmax(I, "min", xs) if all(V.is_int(x) for x in xs) else TOP
            if isinstance(w, InstV) and not (isinstance(w.cls, Ext) and w.cls.name.startswith("pywt.")):
                I.raise_("ValueError", "wavelet must be a str, Wavelet or iterable")
            xs = [maxlev(I, n, w) for n in items]
            if any(not V.is_int(x) for x in xs):
                return TOP
            return minmax(I, "min", xs)
        if name == "swt_max_level":
            n = A.get(0, "input_len")
            if V.is_int(n):
                return I.cell.fn("swtlev", (I.cell.norm(n),))
            return TOP
        if name == "wavelist":
            return ListV([], star=SymStr("wavelet", anon=True))
        if name in ("ContinuousWavelet", "DiscreteContinuousWavelet"):
            w = InstV(Ext("pywt." + name))
            if name == "DiscreteContinuousWavelet":
                # dispatches to Wavelet or ContinuousWavelet
                if I.cell.token("wavelet string names a continuous wavelet", soft=False):
                    w = InstV(Ext("pywt.ContinuousWavelet"))
                else:
                    return make_wavelet(I, a[0] if a else None)
            return w
        if name in ("scale2frequency", "_functions.scale2frequency"):
            sc = A.get(1, "scale")
            if isinstance(sc, NdV):
                return NdV(sc.dims, sc.d, kind=sc.kind)
            if V.is_num(sc):
                return NdV((), kind="scalar")
            return NdV(None, I.deps(sc))
        I.unknown["pywt." + name] = 1
        return TopV(alldeps(I, a, k))


# --------------------------------------------------------------------------- dispatch
TORCH_GLOBAL = {
    "set_default_dtype", "set_default_tensor_type", "set_default_device", "set_grad_enabled", "manual_seed", "seed",
    "set_num_threads", "set_num_interop_threads", "use_deterministic_algorithms", "set_deterministic_debug_mode",
    "set_float32_matmul_precision", "set_flush_denormal", "set_printoptions", "set_rng_state", "set_warn_always",
    "_C._set_grad_enabled",
}
RANDOM = {"rand", "randn", "randint", "randperm", "normal", "bernoulli", "multinomial", "rand_like", "randn_like", "randint_like", "poisson"}
DTYPES = {
    "float": "float32", "float32": "float32", "double": "float64", "float64": "float64", "half": "float16", "float16": "float16",
    "bfloat16": "bfloat16", "long": "int64", "int64": "int64", "int": "int32", "int32": "int32", "short": "int16", "int16": "int16",
    "int8": "int8", "uint8": "uint8", "bool": "bool", "complex64": "complex64", "cfloat": "complex64", "complex128": "complex128", "cdouble": "complex128",
}


def ext_attr(I, m, name):
    p = canon(m.path + "." + name)
    root = p.split(".")[0]
    ec = I.loader.ext_classes.get(p)
    if ec is not None:
        return ec
    if root == "torch":
        rest = p[6:]
        if rest in DTYPES:
            return DTypeV(DTYPES[rest])
        if rest in ("pi", "e", "inf", "tau"):
            return MATH_CONST[rest]
        if rest == "nan":
            return TOP
    if root in ("math", "numpy"):
        last = p.split(".", 1)[1]
        if last in MATH_CONST:
            return MATH_CONST[last]
        if last == "nan":
            return TOP
        if root == "numpy" and last == "newaxis":
            return None
    if p == "typing.TYPE_CHECKING":
        return False
    if p == "sys.version_info":
        return TupV([3, 12, 3])
    if root == "builtins" and name in ("__name__", "__qualname__") :
        return m.path.split(".")[-1]
    if root == "collections" and p in ("collections.abc",):
        return Ext(p)
    return Ext(p)


def torch_name(path):
    """Function table key for a torch path."""
    for pre in ("torch.nn.functional.", "torch.sparse.", "torch.linalg.", "torch.fft.", "torch.special.", "torch.Tensor.", "torch.ops.aten.", "torch."):
        if path.startswith(pre):
            return pre, path[len(pre):]
    return None, None


def call_ext(I, f, args, kwargs):
    p = f.path
    root = p.split(".")[0]
    if root == "builtins":
        n = p[9:]
        fn = I.B.fns.get(n)
        if fn is not None:
            return fn(I, list(args), dict(kwargs))
        if n in EXC_PARENT:
            e = InstV(f)
            e.attrs["args"] = TupV(args)
            return e
        return TOP
    if root == "torch":
        return call_torch(I, f, args, kwargs)
    if root == "numpy":
        return I.N.call(I, p[6:], list(args), dict(kwargs))
    if root == "pywt":
        return I.PW.call(I, p[5:], list(args), dict(kwargs))
    h = STD.get(p)
    if h is not None:
        return h(I, list(args), dict(kwargs))
    if root == "math":
        n = p[5:]
        x = args[0] if args else None
        if n == "prod":
            r = kwargs.get("start", 1)
            items, star = I.iter_spec(x)
            for y in items:
                r = I.binop("Mult", r, y)
            return r if star is None else TOP
        if n == "log2":
            if isinstance(x, (int, float)) and x <= 0:
                I.raise_("ValueError", "math domain error")
            return num_log2(I, x)
        if n == "log" and len(args) == 2 and args[1] == 2:
            return num_log2(I, x)
        if n == "floor":
            return num_floor(I, x, False)
        if n == "ceil":
            return num_floor(I, x, True)
        if n == "trunc":
            return to_int(I, x)
        if all(isinstance(y, (int, float)) for y in args) and hasattr(math, n):
            try:
                return getattr(math, n)(*args)
            except Exception as e:
                I.raise_(type(e).__name__, str(e))
        return TopV(alldeps(I, args, kwargs))
    if root in ("random", "secrets", "uuid") or p.startswith(("time.", "os.urandom", "os.getpid")):
        I.effect("nondeterminism", "call of %s" % p)
        return TOP
    if p.startswith(("os.environ", "os.putenv", "os.chdir", "os.remove", "os.makedirs", "warnings.filterwarnings", "warnings.simplefilter",
                     "warnings.resetwarnings", "locale.", "sys.setrecursionlimit", "logging.basicConfig", "logging.disable", "gc.disable", "gc.enable", "subprocess.")):
        I.effect("process-global", "call of %s" % p)
        return TOP
    I.unknown["call of " + p] = I.unknown.get("call of " + p, 0) + 1
    return TopV(alldeps(I, args, kwargs))


def call_torch(I, f, args, kwargs):
    p = f.path
    args, kwargs = list(args), dict(kwargs)
    pre, name = torch_name(p)
    out = kwargs.pop("out", None)
    if "input" in kwargs and name not in ("DeviceV",):
        args.insert(0, kwargs.pop("input"))
    elif "tensors" in kwargs and not args:
        args.insert(0, kwargs.pop("tensors"))
    elif "self" in kwargs and not args:
        args.insert(0, kwargs.pop("self"))
    if p in ("torch.device",):
        return I.T.f_device(I, args, kwargs)
    if p in ("torch.Size",):
        items, star = I.iter_spec(args[0])
        return TupV(list(items), star=star, tname="torch.Size")
    if p in ("torch.nn.Parameter",):
        t = args[0] if args else kwargs.get("data")
        r = I.T.view(I, t, t.dims, I.T.cont(t), t.contig)
        r.param = True
        if getattr(t, "ex", None) is not None:
            I.T.attach(I, r, t.ex)
        r.reqgrad = kwargs.get("requires_grad", args[1] if len(args) > 1 else True)
        r.g = frozenset() if r.reqgrad is False else frozenset(["param"] + ["param:" + x for x in t.d if not x.startswith("!")])
        return r
    if p in ("torch.no_grad", "torch.inference_mode", "torch.enable_grad", "torch.set_grad_enabled", "torch.autograd.no_grad", "torch.autograd.set_grad_enabled",
             "torch.autograd.enable_grad"):
        last = p.split(".")[-1]
        v = InstV(Ext("torch.enable_grad"))
        mode = last == "enable_grad"
        if last == "set_grad_enabled":
            x = args[0] if args else kwargs.get("mode")
            mode = I.truth(x) if not isinstance(x, TopV) else True
        if last == "inference_mode" and args and args[0] is False:
            mode = True
        v.attrs["mode"] = mode
        if last == "set_grad_enabled":
            v.attrs["pending"] = True
        if len(args) == 1 and isinstance(args[0], (FuncV, BoundV)):
            return grad_deco(args[0], mode)
        return v
    if name in TORCH_GLOBAL or p.startswith(("torch.backends.", "torch.random.manual", "torch.cuda.manual", "torch.cuda.set_device")):
        I.effect("process-global", "call of %s" % p)
        return TOP
    if p in ("torch.compile", "torch.jit.script", "torch.jit.ignore", "torch.jit.export"):
        return args[0] if args else NativeV("deco", lambda i, a, k: a[0])
    if p.startswith("torch.nn.") and not p.startswith("torch.nn.functional."):
        if p.startswith("torch.nn.init."):
            I.effect("nondeterminism", "call of %s" % p)
            return args[0] if args else TOP
        return InstV(f)
    if name in ("is_grad_enabled",):
        return I.grad_enabled
    if p.startswith("torch.cuda."):
        return TOP
    if name in RANDOM:
        I.effect("nondeterminism", "random numbers from torch.%s" % name)
    if pre == "torch.fft.":
        if name in ("fft", "ifft", "rfft", "irfft"):
            r = I.T.fns[name](I, args, kwargs)
        else:
            r = I.T.unk(I, p, args)
        return r
    if pre == "torch.sparse." and name in ("mm", "sum", "addmm", "softmax"):
        if name == "addmm":
            return I.T.unk(I, p, args)
    if pre == "torch.nn.functional.":
        pass
    fn = I.T.fns.get(name)
    if fn is None and name and name.endswith("_") and name[:-1] in I.T.fns and args and isinstance(args[0], TensorV):
        return I.call(I.T.getattr(I, args[0], name), args[1:], kwargs)
    if fn is None:
        d = alldeps(I, args, kwargs)
        I.unknown["call of " + p] = I.unknown.get("call of " + p, 0) + 1
        flat = []
        for x in list(args) + list(kwargs.values()):
            if isinstance(x, (ListV, TupV)):
                flat += [y for y in x.items if isinstance(y, TensorV)]
            else:
                flat.append(x)
        if any(isinstance(x, TensorV) for x in flat):
            return I.T.unk(I, p, flat)
        return TopV(d)
    if args and not isinstance(args[0], TensorV) and name not in CREATORS_NEED_NO_TENSOR:
        # torch.f(x): a non-tensor first operand
        if isinstance(args[0], TopV):
            rest = [x for x in args if isinstance(x, TensorV)]
            if name not in ("cat", "stack", "add", "sub", "mul", "div", "where", "pow", "einsum"):
                return I.T.unk(I, p, args) if rest else TopV(alldeps(I, args, kwargs))
        elif name not in ("add", "sub", "mul", "div", "where", "pow", "cat", "stack", "concat", "concatenate", "hstack", "vstack", "row_stack", "column_stack",
                          "einsum", "broadcast_tensors", "meshgrid", "is_tensor", "result_type", "atleast_1d", "block_diag", "cartesian_prod", "as_strided", "dstack"):
            I.raise_("TypeError", "torch.%s(): argument must be a Tensor, not %s" % (name, type(args[0]).__name__))
    r = fn(I, args, kwargs)
    if isinstance(out, TensorV) and isinstance(r, TensorV):
        return I.T.inplace_result(I, out, r, "out= argument of torch.%s" % name)
    return r


def grad_deco(fn, mode):
    def w(i, a, k):
        old = i.grad_enabled
        i.grad_enabled = mode
        try:
            return i.call(fn, a, k)
        finally:
            i.grad_enabled = old
    return NativeV("grad-mode wrapper", w)


def call_ext_inst(I, f, args, kwargs):
    if f.cls.path == "torch.enable_grad" and "mode" in f.attrs:
        return grad_deco(args[0], f.attrs["mode"])
    I.unknown["call of instance of " + f.cls.path] = 1
    return TopV(alldeps(I, args, kwargs))


def moved(I, v, args, kwargs):
    """Parameter or buffer of a module after a change of device or dtype: still a leaf."""
    ge, I.grad_enabled = I.grad_enabled, True
    r = I.T.fns["to"](I, [v] + list(args), kwargs)
    I.grad_enabled = ge
    r.param, r.g, r.reqgrad = v.param, v.g, v.reqgrad
    return r


def ext_inst_attr(I, o, ext, name):
    """Attribute of an instance inherited from an external class; None if unknown."""
    p = ext.path
    if p in ("pywt.Wavelet",):
        if name == "__len__":
            return NativeV("Wavelet.__len__", lambda i, a, k: o.attrs.get("dec_len", TOP))
        return None
    if p == "torch.nn.Module":
        if name in ("to", "cuda", "cpu", "double", "float", "train", "eval", "half", "requires_grad_", "type"):
            def mv(i, a, k):
                if name in ("train", "eval"):
                    return o
                for key, v in list(o.attrs.items()):
                    if isinstance(v, TensorV):
                        if name in ("to", "cuda", "cpu", "double", "float", "half"):
                            o.attrs[key] = moved(i, v, ([CPU] if name == "cpu" else [DeviceV("dev")] if name == "cuda" else
                                                               [DTypeV({"double": "float64", "float": "float32", "half": "float16"}[name])] if name in ("double", "float", "half") else list(a)), k)
                return o
            return NativeV("Module." + name, mv)
        if name in ("parameters", "buffers", "children", "modules"):
            return NativeV(name, lambda i, a, k: ListV([v for v in o.attrs.values() if isinstance(v, TensorV) and (v.param or name != "parameters")]))
        if name == "register_buffer":
            return NativeV(name, lambda i, a, k: i.setattr(o, a[0], a[1]))
        if name == "register_parameter":
            return NativeV(name, lambda i, a, k: i.setattr(o, a[0], a[1]))
        if name == "training":
            return True
        return None
    if p in ("collections.UserDict",):
        return None
    if p.startswith("pywt."):
        if name == "wavefun":
            def wf(i, a, k):
                return TupV([NdV(None), NdV(None)])
            return NativeV("wavefun", wf)
        v = I.PW.inst_attr(I, o, name)
        if v is not None:
            return v
        if name == "complex_cwt":
            return TopV(key="complex_cwt")
    return None


def ext_super_attr(I, obj, c, name):
    if name in ("__init__", "__init_subclass__", "__setattr__", "__post_init__"):
        return NativeV(name, lambda i, a, k: None)
    if isinstance(obj, InstV):
        return ext_inst_attr(I, obj, c, name)
    return None


# --------------------------------------------------------------------------- standard library
def s_wraps(I, a, k):
    def deco(i, b, kk):
        return b[0]
    return NativeV("wraps", deco)


def s_partial(I, a, k):
    return PartialV(a[0], a[1:], k)


def s_lru(I, a, k):
    def memo(fn):
        if isinstance(fn, FuncV) and I.stack and I.stack[-1][0].startswith("<module"):
            pass
        return MemoV(fn)
    if a and isinstance(a[0], (FuncV, BoundV, NativeV)):
        return memo(a[0])
    return NativeV("lru_cache", lambda i, b, kk: memo(b[0]))


def unchangeable(vs):
    """Numbers, strings and tuples of them: sharing such results between calls has no effect."""
    return all(unchangeable(v.items) if isinstance(v, TupV) else v is None or isinstance(v, (str, bool)) or V.is_num(v) for v in vs)


def MemoV(fn):
    """A memoising wrapper: results persist between calls and are shared with callers."""
    table = DictV()

    def call(i, a, k):
        key = hkey(TupV(list(a) + [TupV([n, v]) for n, v in sorted(k.items())]))
        if any(isinstance(x, (ListV, DictV, SetV)) for x in list(a) + list(k.values())):
            i.raise_("TypeError", "unhashable argument of a cached function")
        if key is None:
            return i.call(fn, a, k)
        if key in table.items:
            return table.items[key][1]
        r = i.call(fn, a, k)
        if not (unchangeable(list(a) + list(k.values())) and unchangeable([r])):
            i.touch(table, "memo table")
            i.effect("memo", "result of %r memoised" % fn)
        table.items[key] = (TupV(a), r)
        return r

    return NativeV(getattr(fn, "name", "memo"), call)


def s_product(I, a, k):
    rep = k.get("repeat", 1)
    lists = []
    for x in a:
        items, star = I.iter_spec(x)
        if star is not None:
            return ListV([], star=TupV([], star=TOP))
        lists.append(list(items))
    if not isinstance(rep, int):
        return ListV([], star=TupV([], star=TOP))
    lists = lists * rep
    n = 1
    for l in lists:
        n *= len(l)
    if n > 5000:
        raise Excluded("cartesian product too large")
    out = [[]]
    for l in lists:
        out = [x + [y] for x in out for y in l]
    return IterV(iter([TupV(x) for x in out]))


def s_chain(I, a, k):
    out = []
    star = None
    for x in a:
        items, st = I.iter_spec(x)
        xs = list(items)
        if star is not None:
            for y in xs:
                star = I.join(star, y)
        else:
            out += xs
        if st is not None:
            star = st if star is None else I.join(star, st)
    return IterV(iter(out), star)


def s_grouper(I, a, k):
    it, n = a[0], a[1]
    items, star = I.iter_spec(it)
    xs = list(items)
    if star is not None or not isinstance(n, int):
        return ListV([], star=TupV([], star=TOP))
    out = []
    for i in range(0, len(xs), n):
        c = xs[i:i + n]
        out.append(TupV(c + [None] * (n - len(c))))
    return IterV(iter(out))


def s_chunked(I, a, k):
    r = s_grouper(I, a, k)
    return IterV((ListV([x for x in t.items if x is not None]) for t in r.gen)) if isinstance(r, IterV) else r


def s_reduce(I, a, k):
    items, star = I.iter_spec(a[1])
    xs = list(items)
    if star is not None:
        return TOP
    if len(a) > 2:
        r = a[2]
    else:
        if not xs:
            I.raise_("TypeError", "reduce() of empty iterable")
        r = xs.pop(0)
    for x in xs:
        r = I.call(a[0], [r, x], {})
    return r


def s_islice(I, a, k):
    items, star = I.iter_spec(a[0])
    xs = list(items)
    if star is None and all(x is None or isinstance(x, int) for x in a[1:]):
        return IterV(iter(xs[slice(*a[1:])]))
    st = star
    for x in xs:
        st = x if st is None else I.join(st, x)
    return IterV(iter([]), st)


def s_accumulate(I, a, k):
    items, star = I.iter_spec(a[0])
    f = a[1] if len(a) > 1 else k.get("func")
    out, cur = [], k.get("initial")
    if cur is not None:
        out.append(cur)
    for x in items:
        cur = x if cur is None else (I.call(f, [cur, x], {}) if f else I.binop("Add", cur, x))
        out.append(cur)
    return IterV(iter(out), TOP if star is not None else None)


def s_combinations(perm):
    import itertools

    def f(I, a, k):
        items, star = I.iter_spec(a[0])
        xs = list(items)
        r = a[1] if len(a) > 1 else k.get("r", len(xs))
        if star is not None or not isinstance(r, int):
            return ListV([], star=TupV([], star=TOP))
        g = itertools.permutations if perm else itertools.combinations
        return IterV(iter([TupV(c) for c in g(xs, r)]))
    return f


def s_get_args(I, a, k):
    x = a[0]

    def flat(v):
        out = []
        for y in v.items:
            if isinstance(y, TupV) and y.tname == "Literal" and v.tname == "Literal":
                out += flat(y)
            else:
                out.append(y)
        return out

    if isinstance(x, TupV) and x.tname in ("Literal", "Union"):
        return TupV(flat(x))
    return TopV()


def s_warn(I, a, k):
    A = Args(a, k)
    cat = A.get(1, "category")
    I.effect("warning", "warnings.warn", category=repr(cat.path if isinstance(cat, Ext) else cat), cat=cat, message=A.get(0, "message"))


def s_stderr(I, a, k):
    I.effect("stderr", "sys.stderr.write", message=a[0] if a else None)
    return TOP


def s_deque(I, a, k):
    r = ListV([], kind="deque")
    if a:
        items, star = I.iter_spec(a[0])
        r.items, r.star = list(items), star
    return r


def s_zip_longest(I, a, k):
    lists = []
    for x in a:
        items, star = I.iter_spec(x)
        if star is not None:
            return ListV([], star=TupV([TOP] * len(a)))
        lists.append(list(items))
    n = max([len(l) for l in lists] or [0])
    f = k.get("fillvalue")
    return IterV(iter([TupV([l[i] if i < len(l) else f for l in lists]) for i in range(n)]))


def s_deepcopy(deep):
    def f(I, a, k):
        return copy_value(I, a[0], deep, {})
    return f


def copy_value(I, x, deep, memo):
    if id(x) in memo:
        return memo[id(x)]
    rec = (lambda y: copy_value(I, y, True, memo)) if deep else (lambda y: y)
    if isinstance(x, ListV):
        r = ListV([], kind=x.kind)
        memo[id(x)] = r
        r.items = [rec(y) for y in x.items]
        r.star = rec(x.star) if x.star is not None else None
        return r
    if isinstance(x, DictV):
        r = DictV()
        memo[id(x)] = r
        r.items = {h: (kk, rec(v)) for h, (kk, v) in x.items.items()}
        r.star = x.star
        return r
    if isinstance(x, TupV):
        return TupV([rec(y) for y in x.items], cls=x.cls, star=x.star, tname=x.tname)
    if isinstance(x, TensorV) and deep:
        return I.T.f_clone(I, [x], {})
    if isinstance(x, InstV):
        r = InstV(x.cls)
        memo[id(x)] = r
        r.attrs = {n: rec(v) for n, v in x.attrs.items()}
        return r
    if isinstance(x, NdV):
        return NdV(x.dims, x.d, None, x.kind, x.dtype)
    return x


def s_attrgetter(I, a, k):
    def one(i, o, path):
        for p in path.split("."):
            o = i.getattr(o, p)
        return o
    return NativeV("attrgetter", lambda i, b, kk: one(i, b[0], a[0]) if len(a) == 1 else TupV([one(i, b[0], x) for x in a]))


def s_itemgetter(I, a, k):
    return NativeV("itemgetter", lambda i, b, kk: i.getitem(b[0], a[0]) if len(a) == 1 else TupV([i.getitem(b[0], x) for x in a]))


def _op(name):
    return lambda I, a, k: I.binop(name, a[0], a[1])


STD = {
    "functools.wraps": s_wraps, "functools.partial": s_partial, "functools.lru_cache": s_lru, "functools.cache": s_lru,
    "functools.reduce": s_reduce,
    "functools.cached_property": lambda I, a, k: PropV(a[0], cached=True),
    "functools.singledispatch": lambda I, a, k: a[0],
    "functools.update_wrapper": lambda I, a, k: a[0],
    "itertools.product": s_product, "itertools.chain": s_chain,
    "itertools.chain.from_iterable": lambda I, a, k: s_chain(I, I.iterate(a[0]), {}),
    "itertools.islice": s_islice, "itertools.accumulate": s_accumulate,
    "itertools.combinations": s_combinations(False), "itertools.permutations": s_combinations(True),
    "itertools.zip_longest": s_zip_longest,
    "itertools.repeat": lambda I, a, k: ListV([a[0]] * a[1]) if len(a) > 1 and isinstance(a[1], int) else ListV([], star=a[0]),
    "itertools.starmap": lambda I, a, k: IterV((I.call(a[0], I.iterate(x), {}) for x in I.iterate(a[1]))),
    "itertools.count": lambda I, a, k: ListV([], star=TOP),
    "itertools.pairwise": lambda I, a, k: (lambda xs: IterV(iter([TupV([x, y]) for x, y in zip(xs, xs[1:])])))(I.iterate(a[0])),
    "more_itertools.grouper": s_grouper, "more_itertools.chunked": s_chunked,
    "more_itertools.pairwise": lambda I, a, k: STD["itertools.pairwise"](I, a, k),
    "typing.cast": lambda I, a, k: a[1],
    "typing.get_args": s_get_args,
    "typing.overload": lambda I, a, k: a[0],
    "typing.final": lambda I, a, k: a[0],
    "typing.runtime_checkable": lambda I, a, k: a[0],
    "typing.TypeVar": lambda I, a, k: TOP, "typing.ParamSpec": lambda I, a, k: TOP, "typing.NewType": lambda I, a, k: NativeV("NewType", lambda i, b, kk: b[0]),
    "typing.NamedTuple": lambda I, a, k: TOP,
    "abc.abstractmethod": lambda I, a, k: a[0],
    "warnings.warn": s_warn,
    "sys.stderr.write": s_stderr, "sys.stderr.flush": lambda I, a, k: None,
    "sys.stdout.write": lambda I, a, k: I.effect("output", "sys.stdout.write"),
    "collections.deque": s_deque,
    "collections.OrderedDict": lambda I, a, k: I.B.b_dict(I, a, k),
    "copy.copy": s_deepcopy(False), "copy.deepcopy": s_deepcopy(True),
    "operator.attrgetter": s_attrgetter, "operator.itemgetter": s_itemgetter,
    "operator.mul": _op("Mult"), "operator.add": _op("Add"), "operator.sub": _op("Sub"), "operator.floordiv": _op("FloorDiv"), "operator.matmul": _op("MatMult"),
    "contextlib.suppress": lambda I, a, k: TOP,
    "dataclasses.dataclass": lambda I, a, k: a[0] if a else NativeV("dataclass", lambda i, b, kk: b[0]),
    "subprocess.check_output": lambda I, a, k: TOP,
    "logging.getLogger": lambda I, a, k: TOP,
}
