"""Learnable wavelets: the losses as exact polynomials of the filter taps (enumerated lengths)."""

from __future__ import annotations

from . import builders as B
from . import expr as E
from . import judge as J
from .calls import put
from .harness import *
from .models_torch import CPU

MOD = "wavelets_learnable."
NAMES = ("dec_lo", "dec_hi", "rec_lo", "rec_hi")


def conv(a, b):
    out = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            out[i + j] = E.add(out[i + j], E.mul(x, y))
    return out


def squares(v):
    r = 0
    for x in v:
        r = E.add(r, E.mul(x, x))
    return r


def sgn(F):
    return [(-1) ** (F - 1 - j) for j in range(F)]


def plus(a, b):
    return [E.add(x, y) for x, y in zip(a, b)]


def pr(h0, h1, f0, f1):
    F = len(h0)
    p = plus(conv(h0, f0), conv(h1, f1))
    return squares([E.sub(x, 2 if k == F - 1 else 0) for k, x in enumerate(p)])


def ac(h0, h1, f0, f1):
    m = sgn(len(h0))
    mul = lambda h: [E.mul(s, x) for s, x in zip(m, h)]
    return squares(plus(conv(mul(h0), f0), conv(mul(h1), f1)))


def pfac(h0, h1, f0, f1):
    m = sgn(len(h0))
    return E.add(squares([E.sub(f, E.mul(s, h)) for f, s, h in zip(f0, m, h1)]), squares([E.add(f, E.mul(s, h)) for f, s, h in zip(f1, m, h0)]))


def fbo(h0, h1, f0, f1):
    return E.add(squares([E.sub(a, b) for a, b in zip(h0, f0[::-1])]), squares([E.sub(a, b) for a, b in zip(h1, f1[::-1])]))


def rlo(h0, h1, f0, f1):
    F = len(h0)
    r = []
    for k in range(F // 2 + 1):
        s = -1 if k == 0 else 0
        for j in range(F - 2 * k):
            s = E.add(s, E.mul(h0[j], h0[j + 2 * k]))
        r.append(s)
    return squares(r)


ALL = frozenset(NAMES)
LOSSES = {
    "perfect_reconstruction_loss": (pr, True, ALL), "alias_cancellation_loss": (ac, True, ALL), "pf_alias_cancellation_loss": (pfac, True, ALL),
    "product_filter_loss": (lambda *f: E.add(pr(*f), ac(*f)), False, ALL),
}
CLASSES = {
    "ProductFilter": dict(LOSSES, wavelet_loss=(LOSSES["product_filter_loss"][0], False, ALL)),
    "SoftOrthogonalWavelet": dict(LOSSES, rec_lo_orthogonality_loss=(rlo, False, frozenset(["dec_lo"])), filt_bank_orthogonality_loss=(fbo, False, ALL),
                                  wavelet_loss=(lambda *f: E.add(E.add(pr(*f), ac(*f)), fbo(*f)), False, ALL)),
}


def same_scalar(R, rule, got, want, what, need):
    where = J.where(R, got, R.entry) if isinstance(got, TensorV) else J.S_anchor(R, R.entry)
    if not isinstance(got, TensorV):
        R.und(rule, "%s: not a tensor" % what)
        return
    if tuple(got.dims) != ():
        if all(isinstance(d, int) for d in got.dims):
            R.bad(rule, where, "%s has the shape %s where a scalar is documented" % (what, list(got.dims)), {})
        else:
            R.und(rule, "%s: shape" % what)
        return
    miss = sorted(n for n in need if "param:" + n not in got.g)
    (R.bad("loss gradient", where, "%s has no gradient with respect to %s" % (what, ", ".join(miss)), {}) if miss else R.ok("loss gradient"))
    for attr, w in (("dtype", R.dtype), ("device", R.extra_dev)):
        g = getattr(got, attr)
        if isinstance(g, TopV):
            R.und("loss " + attr, "not tracked")
        elif g == w:
            R.ok("loss " + attr)
        else:
            R.bad("loss " + attr, where, "%s of %s is %s where the filters have %s" % (attr, what, g, w), {})
    try:
        v = got.ex.vals()[0]
    except Exception:
        R.und(rule, "%s: value not tracked" % what)
        return
    q = E.equal(v, want)
    if q is None:
        R.und(rule, "%s" % what)
    elif q:
        R.ok(rule)
    else:
        R.bad(rule, where, "%s is not the documented polynomial of the filter taps (a sum of squares of the deviations)" % what, {})


def setup(I, cell, R, cls, F):
    fs = []
    ts = []
    for n in NAMES:
        ts.append(B.taps(I, R, n, (F,)))
        fs.append([B.named(n, i) for i in range(F)])
    return I.call(R.prog.get(MOD + cls), ts, {}), fs


def cases(tier):
    out = []
    for cls, losses in CLASSES.items():
        for F in (2, 4, 6) if tier != "thorough" else (2, 4, 6, 8, 10, 12):
            for loss, (spec, tup, need) in losses.items():
                def run(I, cell, R, cls=cls, F=F, loss=loss, spec=spec, tup=tup, need=need):
                    o, fs = setup(I, cell, R, cls, F)
                    v = I.call(I.getattr(o, loss), [], {})
                    R.want = True
                    if tup:
                        if not isinstance(v, TupV) or len(v.items) != 3:
                            R.bad("loss value", J.S_anchor(R, R.entry), "%s.%s does not return the loss and its two components" % (cls, loss), {})
                            return
                        v = v.items[0]
                    same_scalar(R, "loss value", v, spec(*fs), "%s.%s" % (cls, loss), need)

                out.append(B.BCase("%s.%s/F=%d" % (cls, loss, F), MOD + cls + "." + loss, run))

            def bank(I, cell, R, cls=cls, F=F):
                o, fs = setup(I, cell, R, cls, F)
                v = I.getattr(o, "filter_bank")
                n = I.call_builtin("len", [o]) if hasattr(I, "call_builtin") else None
                where = J.S_anchor(R, R.entry)
                items = v.items if isinstance(v, TupV) else []
                if len(items) != 4:
                    R.und("filter bank", "no 4-tuple")
                    return
                for nme, t, f in zip(NAMES, items, fs):
                    B.same_matrix(R, "filter bank", t, (F,), {(i,): x for i, x in enumerate(f)}, "filter_bank.%s" % nme)
                    if "param:" + nme not in t.g:
                        R.bad("filter bank", where, "filter_bank.%s is not the learnable parameter" % nme, {})
                if isinstance(n, int) and n != F:
                    R.bad("filter bank", where, "len() of the wavelet is %d for filters of length %d" % (n, F), {})

            out.append(B.BCase("%s.filter_bank/F=%d" % (cls, F), MOD + cls + ".filter_bank", bank))
    return out


def judge(R):
    B.judge_raise(R)
    if R.exc is None and not R.verdicts:
        R.und("loss value", "nothing compared")
    J.no_effects(R, "caller data", ("mutate", "global-write", "process-global", "nondeterminism"))


def scenarios(tier):
    for dt, df in ((F32, F32), (F64, F32), (F32, F64)):
        for c in cases(tier):
            yield B.BSc(c, judge, None, dtype=dt, **({"default": df} if df is not F32 else {}))
