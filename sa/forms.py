"""The form in which the wavelet is given does not matter."""

from __future__ import annotations

from . import calls as C
from . import judge as J
from . import more as M
from .harness import *
from .interp import AbsRaise
from .scen import Sc

FORMS = ("name", "tensors", "user object", "learnable")


def accepts(form, case):
    # the learnable modules have no dec_len and are documented for the convolution transforms
    return form != "learnable" or ("packet" not in case.tags and "mat" not in case.tags)


SIZES = {"wavedec": [40], "wavedec2": [33, 40], "wavedec3": [24, 21, 25], "fswavedec2": [40, 33], "fswavedec3": [21, 24, 25],
         "MatrixWavedec": [40], "MatrixWavedec2-sep": [33, 40], "MatrixWavedec2-nonsep": [24, 21], "MatrixWavedec3": [21, 24, 25]}


def cases(tier):
    out = C.universal(tier)
    for t, ds in SIZES.items():
        for F in (6, 8) if tier == "thorough" else (6,):
            out.append(C.dec_case(t, None, None, dims=["b"] + ds, F=F))
    return out


def heavy(case):
    return "wavedec3" in case.name.lower() + case.entry.lower().replace("rec", "dec") and "level=2" in case.name or "maxlevel=2" in case.name and "2D" in case.name


def scenarios(prog, tier):
    for case in cases(tier):
        for form in FORMS:
            if accepts(form, case) and not (tier == "quick" and heavy(case)):
                yield scenario(prog, case, form)
        if not (tier == "quick" and heavy(case)):
            yield scenario(prog, case, "tensors", filter_dtype=F64, filter_device=M.DEV2, filter_grad=False)
    for nd in (1, 2):
        for form in FORMS[:-1]:
            for dims in ([40, 33], [8, 12], [5, 64]) if nd == 2 else ([40], [8], [3]):
                for F in (2, 4, 6):
                    yield default_level(prog, nd, form, dims, F)


def default_level(prog, nd, form, dims, F):
    cls = "WaveletPacket" if nd == 1 else "WaveletPacket2D"

    def body(I, cell, R):
        R.prog, R.dtype, R.extra_dev, R.srcs = prog, F32, DEV, []
        filt(cell, F)
        R.F = F
        R.first = True
        for k in ("object", form):
            R.opt = {"wavelet": k}
            o = I.call(prog.get(cls), [tensor(I, "x", [2] + dims), C.wave(I, R)], {"mode": "zero"})
            R.want, R.got = (I.getattr(o, "maxlevel"), None) if R.first else (R.want, I.getattr(o, "maxlevel"))
            R.first = False

    def judge(R):
        what = "%s of data with the shape %s, filters of length %d and a wavelet given as %s" % (cls, [2] + dims, F, form)
        if R.exc is not None:
            if R.first:
                R.und("wavelet form", "raises")
            else:
                R.bad("wavelet form", "%s raised at %s" % (J.S_anchor(R, cls), R.exc.loc), "%s raises %s" % (what, R.exc.name()), {})
        elif not isinstance(R.got, int) or not isinstance(R.want, int):
            R.und("wavelet form", "level not tracked")
        elif R.got == R.want:
            R.ok("wavelet form")
        else:
            R.bad("wavelet form", J.S_anchor(R, cls), "%s has the default maxlevel %s where a pywt.Wavelet gives %s" % (what, R.got, R.want), {})

    return Sc("%s/default maxlevel/%s/F=%d/wavelet as %s" % (cls, "x".join(map(str, dims)), F, form), body, judge, 50)


def scenario(prog, case, form, **opt):
    def body(I, cell, R):
        R.prog, R.entry, R.srcs = prog, case.entry, []
        R.dtype, R.extra_dev = F32, DEV
        R.opt, R.out, R.first = {"wavelet": "object"}, [], True
        case.run(I, cell, R, prog)
        R.want = R.out
        R.opt, R.out, R.first, R.srcs = dict(opt, wavelet=form), [], False, []
        case.run(I, cell, R, prog)
        R.stage = "done"

    def judge(R):
        what = "a wavelet given as %s" % form
        if R.exc is not None:
            if R.first:
                R.und("wavelet form", "the call raises %s" % R.exc.name())
            else:
                R.bad("wavelet form", "%s raised at %s" % (J.S_anchor(R, R.entry), R.exc.loc), "%s raises %s (%s)" % (what, R.exc.name(), str(R.exc.why)[:100]))
            return
        if [p for p, _ in R.out] != [p for p, _ in R.want]:
            R.bad("wavelet form", J.S_anchor(R, R.entry), "%s gives %d tensors where a pywt.Wavelet gives %d" % (what, len(R.out), len(R.want)))
            return
        for (p, x), (_, y) in zip(R.out, R.want):
            M.same_tensor(R, "wavelet form", x, y, "%s (%s)" % (p, what), R.entry, "a pywt.Wavelet gives")

    return Sc("%s/wavelet as %s%s" % (case.name, form, " elsewhere" if opt else ""), body, judge, case.mc)
