"""Continuous transform: exact comparison with the documented formula at enumerated sizes.

The wavelet is abstract: its integral, sampled at a few points of a grid, is a list of opaque
(real or complex) numbers, so the comparison holds for every wavelet function.
"""

from __future__ import annotations

import math
from fractions import Fraction

from . import builders as B
from . import expr as E
from . import judge as J
from .calls import put
from .exact import Dn, NoEx, exact_tensor
from .harness import *
from .models_torch import Args, COMPLEX, CPU, LONG
from .xnum import NdX, nd_array

H = Fraction(1, 2)
GRIDS = {
    "mexh": (list(range(-4, 5)), False, False),
    "morl": ([0, 1, 2, 3], False, False),
    "gaus": ([-1, -H, 0, H, 1, 3 * H, 2], False, False),
    "cgau": ([-2 + H * i for i in range(9)], True, False),
    "cmor": ([-3 + i for i in range(7)], True, False),
    "db": ([H * i for i in range(7)], False, True),
}
ENTRY = "continuous_transform.cwt"


def psi(name, level):
    x, cplx, _ = GRIDS[name]
    r = []
    for i in range(len(x)):
        v = B.named("psi(%s)" % level, i)
        if cplx:
            v = E.add(v, E.mul(E.imag_unit(), B.named("im psi(%s)" % level, i)))
        r.append(v)
    return r


def cont_wavelet(I, name, owner):
    """The object pywt returns for the name."""
    if name not in GRIDS:
        I.raise_("ValueError", "unknown wavelet name")
    x, cplx, disc = GRIDS[name]
    if disc:
        w = make_wavelet(I, name, 4, owner)
        w.attrs.pop("complex_cwt", None)
    else:
        w = InstV(Ext("pywt.ContinuousWavelet"))
        w.attrs["complex_cwt"] = cplx
        w.attrs["name"] = name
    w.owner = owner

    def wavefun(i, a, k):
        A = Args(a, k)
        level = A.get(0, "level", 8)
        if A.get(1, "length") is not None or not isinstance(level, int):
            return TupV([NdV(None), NdV(None)])
        g = nd_array(Dn((len(x),), [E.num(v) for v in x]))
        p = nd_array(Dn((len(x),), psi(name, level)), DTypeV("complex128") if cplx else F64)
        return TupV([nd_array(Dn((len(x),), [B.named("phi", j) for j in range(len(x))])), p, g] if disc else [p, g])

    w.attrs["wavefun"] = NativeV("wavefun", wavefun)
    return w


def taps_of(p, x, scale):
    """Reversed samples of the integrated wavelet at the scale."""
    step = x[1] - x[0]
    s, integ = 0, []
    for v in p:
        s = E.add(s, v)
        integ.append(E.mul(s, E.num(Fraction(step))))
    n = math.ceil(scale * (x[-1] - x[0]) + 1)
    j = [math.floor(Fraction(i) / (scale * step)) for i in range(n)]
    return [integ[i] for i in j if i < len(x)][::-1]


def spec_row(sig, p, x, scale):
    h = taps_of(p, x, scale)
    n, L = len(sig), len(h)
    full = [0] * (n + L - 1)
    for i, a in enumerate(sig):
        for j, b in enumerate(h):
            full[i + j] = E.add(full[i + j], E.mul(a, b))
    c = E.neg(E.sqrt(E.num(Fraction(scale))))
    d = [E.mul(c, E.sub(full[i + 1], full[i])) for i in range(len(full) - 1)]
    if L < 2:
        return None
    lo = (L - 2) // 2
    return d[lo:lo + n]


def same_values(R, rule, t, want, what):
    where = J.where(R, t, R.entry)
    try:
        got = t.ex.vals()
    except Exception:
        R.und(rule, "%s: values not tracked" % what)
        return
    und = 0
    for ix, a, b in zip(t.ex.index(), got, want):
        q = E.equal(a, b)
        if q is None:
            und += 1
        elif not q:
            R.bad(rule, where, "%s: entry %s is %s where the documented formula gives %s" % (what, list(ix), E.show(a), E.show(b)), {})
            return
    (R.und(rule, "%s: %d entries" % (what, und)) if und else R.ok(rule))


SCALES = {
    "int array": lambda I, R, s: own_nd(R, s, LONG), "float array": lambda I, R, s: own_nd(R, s, F64), "int tensor": lambda I, R, s: own_t(I, R, s, LONG),
    "float tensor": lambda I, R, s: own_t(I, R, s, F64), "number": lambda I, R, s: s[0],
}


def own_nd(R, s, dt):
    R.srcs.append("scales")
    return nd_array(Dn((len(s),), [E.num(v) for v in s]), dt, owner="argument 'scales'")


def own_t(I, R, s, dt):
    t = tensor(I, "scales", [len(s)], dtype=dt, device=CPU, grad=False)
    t.d = frozenset()
    R.srcs.append("scales")
    return I.T.attach(I, t, Dn((len(s),), [E.num(v) for v in s]))


class Bank:
    """Names and values of the arguments of one call."""

    def __init__(self, dims, wav, scales, kind="int array", by="object", sp=None, prec=None, grad=True):
        self.dims, self.wav, self.scales, self.kind, self.by, self.sp, self.prec, self.grad = dims, wav, scales, kind, by, sp, prec, grad

    def name(self):
        return "cwt/%s/%s/scales=%s (%s)%s%s%s" % (self.wav, "x".join(map(str, self.dims)), ",".join(map(str, self.scales)), self.kind, "/by name" if self.by == "name" else "",
                                                  "" if self.sp is None else "/sampling_period=%s" % self.sp, "" if self.prec is None else "/precision=%s" % self.prec)

    def run(self, I, cell, R):
        x = tensor(I, "data", list(self.dims), dtype=R.dtype, device=R.extra_dev, grad=self.grad)
        exact_tensor(I, x, "data")
        R.srcs.append("data")
        sc = SCALES[self.kind](I, R, self.scales)
        w = self.wavelet(I, R)
        R.grad_srcs = ["data"] if self.grad else []
        k = {}
        if self.sp is not None:
            k["sampling_period"] = self.sp
        if self.prec is not None:
            k["precision"] = self.prec
        R.v = I.call(R.prog.get(ENTRY), [x, sc, w], k)
        if isinstance(R.v, TupV) and R.v.items:
            put(I, R, R.v.items[0], "coefficients")

    def wavelet(self, I, R):
        if self.by == "name":
            return self.wav
        R.srcs.append("wavelet")
        return cont_wavelet(I, self.wav, "argument 'wavelet'")

    def complex(self):
        return GRIDS[self.wav][1]

    def psi(self, level):
        return psi(self.wav, level), GRIDS[self.wav][0]

    def judge(self, R):
        rule = "cwt value"
        p, x = self.psi(12 if self.prec is None else self.prec)
        n = self.dims[-1]
        small = any(len(taps_of(p, x, Fraction(s))) < 2 for s in self.scales)
        if small:
            if R.exc is not None and R.exc.name() == "ValueError":
                R.ok("scale too small")
            elif R.exc is None:
                R.bad("scale too small", J.S_anchor(R, ENTRY), "a scale that is too small for the wavelet is not rejected with the documented ValueError", {})
            else:
                R.bad("scale too small", J.S_anchor(R, ENTRY), "a scale that is too small raises %s instead of the documented ValueError" % R.exc.name(), {})
            return
        B.judge_raise(R)
        if R.exc is not None:
            return
        v = R.v
        where = J.S_anchor(R, ENTRY)
        if not isinstance(v, TupV) or len(v.items) != 2:
            R.bad("cwt layout", where, "cwt does not return a pair (coefficients, frequencies)", {})
            return
        t, f = v.items
        if not isinstance(t, TensorV):
            R.und(rule, "no tensor returned")
            return
        want = (len(self.scales),) + tuple(self.dims)
        if t.dims is None or any(not isinstance(q, int) for q in t.dims):
            R.und("cwt shape", "not tracked")
        elif tuple(t.dims) != want:
            R.bad("cwt shape", J.where(R, t, ENTRY), "the coefficients have the shape %s where [scales, *data] = %s is documented" % (list(t.dims), list(want)), {})
            return
        else:
            R.ok("cwt shape")
        if isinstance(t.dtype, DTypeV):
            if (t.dtype.name in COMPLEX) == self.complex():
                R.ok("cwt kind")
            else:
                R.bad("cwt kind", J.where(R, t, ENTRY), "the coefficients of a %s wavelet have the dtype %s" % ("complex" if self.complex() else "real", t.dtype), {})
        else:
            R.und("cwt kind", "dtype not tracked")
        if isinstance(t.device, DeviceV):
            if t.device == R.extra_dev:
                R.ok("cwt device")
            else:
                R.bad("cwt device", J.where(R, t, ENTRY), "the coefficients are on the device %s where the data is on %s" % (t.device, R.extra_dev), {})
        else:
            R.und("cwt device", "not tracked")
        for s in R.grad_srcs:
            (R.ok("gradient") if s in t.g else R.bad("gradient", J.where(R, t, ENTRY), "the coefficients have no gradient with respect to %s" % s, {}))
        rows = 1
        for q in self.dims[:-1]:
            rows *= q
        import itertools
        lead = list(itertools.product(*map(range, self.dims[:-1])))
        if self.complex():
            p = [E.conj(q) for q in p]
        vals = []
        for s in self.scales:
            for l in lead:
                vals += spec_row([B.named("data", *(l + (i,))) for i in range(n)], p, x, Fraction(s))
        same_values(R, rule, t, vals, "coefficients")
        fc = E.atom("in", "central_frequency", ())
        if isinstance(f, NdX) and f.kind != "scalar":
            sp = Fraction(1 if self.sp is None else self.sp)
            if tuple(f.dims) != (len(self.scales),):
                R.bad("frequencies", where, "the frequencies have the shape %s for %d scales" % (list(f.dims), len(self.scales)), {})
            else:
                f.t.loc = None
                same_freq(R, f, [E.div(E.div(fc, E.num(Fraction(s))), E.num(sp)) for s in self.scales])
        else:
            R.und("frequencies", "not tracked")


def same_freq(R, f, want):
    try:
        got = f.t.ex.vals()
    except Exception:
        R.und("frequencies", "values not tracked")
        return
    for i, (a, b) in enumerate(zip(got, want)):
        q = E.equal(a, b)
        if q is None:
            R.und("frequencies", "value")
            return
        if not q:
            R.bad("frequencies", J.S_anchor(R, ENTRY), "frequency %d is %s where central frequency / scale / sampling_period = %s is documented" % (i, E.show(a), E.show(b)), {})
            return
    R.ok("frequencies")


CLASSES = {"_ShannonWavelet": "shan", "_ComplexMorletWavelet": "cmor"}


class Diff(Bank):
    """A learnable wavelet: values from its formula, gradient to both of its parameters."""

    def wavelet(self, I, R):
        w = I.call(R.prog.get("continuous_transform." + self.wav), [CLASSES[self.wav] + "3-1.5"], {})
        R.wav = w
        for a in ("bandwidth_par", "center_par"):
            t = w.attrs.get(a)
            if isinstance(t, TensorV):
                t.g = frozenset(["param:" + a])
                t.reqgrad = True
        return w

    def run(self, I, cell, R):
        super().run(I, cell, R)
        R.grad_srcs = R.grad_srcs + ["param:bandwidth_par", "param:center_par"]

    def name(self):
        return super().name() + "/learnable"

    def complex(self):
        return True

    def psi(self, level):
        lo, hi, n = Fraction(-7, 2), Fraction(7, 2), 2 ** level
        x = [lo + (hi - lo) * i / (n - 1) for i in range(n)]
        b, c, pi = Fraction(3), Fraction(3, 2), Fraction(math.pi)
        J_ = E.imag_unit()
        r = []
        for g in x:
            osc = E.func("exp", E.mul(J_, E.num(2 * pi * c * g)))
            if self.wav == "_ShannonWavelet":
                a = E.num(pi * b * g)
                v = E.mul(E.sqrt(b), E.div(E.func("sin", a), a))
            else:
                v = E.mul(E.inv(E.sqrt(E.num(pi * b))), E.func("exp", E.num(-g * g / b)))
            r.append(E.mul(v, osc))
        return r, x


def banks(tier):
    out = [
        Bank((6,), "mexh", [1, 4, 2]), Bank((7,), "mexh", [1, 1, 9]), Bank((2, 5), "morl", [1, 2, 3, 4]), Bank((5,), "morl", [3, 1, 2], "float array", "name"),
        Bank((6,), "gaus", [1, 2], "int tensor", "name", sp=0.5), Bank((5,), "gaus", [Fraction(1, 2), 2, 4], "float array"),
        Bank((6,), "cgau", [1, 2], sp=4.0), Bank((2, 4), "cgau", [1, 4], "int tensor", "name"), Bank((5,), "cmor", [2], "number", prec=5),
        Bank((6,), "mexh", [4], "number", "name", prec=10), Bank((3, 4), "db", [1, 2, 5], "int array", "object"), Bank((5,), "db", [2], "number", "name", sp=2),
        Bank((5,), "mexh", [Fraction(1, 16), 1], "float array"), Bank((5,), "mexh", [1, Fraction(1, 16)], "float array", "name"),
        Bank((1,), "morl", [1, 2]), Bank((2,), "cgau", [2, 1]), Bank((16,), "morl", [1, 2]), Bank((9,), "mexh", [2, 1, 4], "float tensor"),
        Bank((2, 2, 4), "morl", [2, 1]), Bank((6,), "db", [1, 3], "float tensor"), Bank((4,), "gaus", [Fraction(1, 4)], "number"),
        Diff((4,), "_ShannonWavelet", [1, 2], prec=3), Diff((2, 3), "_ComplexMorletWavelet", [2, 1], prec=3), Diff((5,), "_ComplexMorletWavelet", [1], "number", prec=2),
    ]
    if tier != "calls":
        for n in (1, 3, 8, 11) if tier != "thorough" else range(1, 13):
            for w in GRIDS:
                out.append(Bank((n,), w, [1, 2, 3, 4]))
                out.append(Bank((n,), w, [2, Fraction(5, 2), Fraction(11, 4), Fraction(5, 2), Fraction(9, 4)], "float array"))
                out.append(Bank((2, n), w, [Fraction(3, 2), Fraction(1, 2), Fraction(5, 4)], "float array", "name", sp=0.25, prec=7))
        for n in (6, 7) if tier == "thorough" else (6,):
            out.append(Diff((n,), "_ShannonWavelet", [1, 2, 3], prec=4))
            out.append(Diff((n,), "_ComplexMorletWavelet", [3, 1], prec=4, sp=2.0))
    return out


def scenarios(tier):
    for b in banks(tier):
        for dt, dev in ((F32, DEV), (F64, CPU)):
            def j(R, b=b):
                b.judge(R)
                J.no_effects(R, "caller data", ("mutate", "global-write", "process-global", "nondeterminism"))

            yield B.BSc(B.BCase(b.name(), ENTRY, b.run), j, None, dtype=dt, device=dev)


def calls(tier, judge):
    """The calls of cwt for the properties that hold of any call."""
    for b in banks("calls"):
        p, x = b.psi(12 if b.prec is None else b.prec)
        if any(len(taps_of(p, x, Fraction(s))) < 2 for s in b.scales):
            continue

        def j(R, b=b):
            if R.exc is None:
                R.srcs = list(R.grad_srcs)
            judge(R)

        yield B.BSc(B.BCase(b.name(), ENTRY, b.run), j, (), dtype=F32, device=DEV)
