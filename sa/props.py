"""The properties: which scenarios are analysed and which predicates must hold."""

from __future__ import annotations

import itertools

from . import judge as J
from . import spec as S
from .harness import *
from .scen import Cfg, Rec, Sc, roundtrip

MODES = ("zero", "constant", "symmetric", "reflect", "periodic")


def signed_axes(nd, k):
    """(axes, first of its ordering) for every ordering of k of nd axes and every choice of signs; the orderings start with different mixtures of signs."""
    out = []
    for j, p in enumerate(itertools.permutations(range(nd), k)):
        signs = list(itertools.product((0, 1), repeat=k))
        mixed = [x for x in signs if len(set(x)) > 1]
        first = mixed[j % len(mixed)]
        for g in [first] + [x for x in signs if x != first]:
            out.append((tuple(a - nd if m else a for a, m in zip(p, g)), g == first))
    return out


def rt_configs(thorough=False, rec=True):
    """Analysis/synthesis configurations: every family, levels, modes, axes, batches."""
    out = []
    A = lambda *a, th=False, mc=200, **k: out.append((Cfg(*a, **k), th, mc))
    for m in MODES:
        A("wavedec", 1, m)
        A("wavedec", 2, m)
        A("wavedec2", 1, m)
        A("fswavedec2", 1, m)
        A("wavedec", 3, m)
        A("wavedec2", 2, m)
        A("fswavedec2", 2, m)
        A("wavedec3", 1, m)
        A("fswavedec3", 1, m)
    A("wavedec2", 2, "reflect")
    A("fswavedec2", 2, "constant")
    A("wavedec", 1, None)
    A("wavedec2", 1, None)
    A("wavedec3", 1, None)
    A("fswavedec2", 1, None)
    # shapes of the batch and choices of axes
    A("wavedec", 2, "zero", dims=["n"])
    A("wavedec", 1, "reflect", dims=["b", "c", "n"])
    A("wavedec", 2, "constant", dims=["n", "b", "c"], axes=0)
    A("wavedec", 1, "symmetric", dims=["b", "n", "c"], axes=-2)
    A("wavedec2", 1, "zero", dims=["h", "w"])
    A("wavedec2", 1, "reflect", dims=["b", "c", "h", "w"])
    A("wavedec2", 1, "constant", dims=["h", "b", "w"], axes=(0, 2))
    A("wavedec2", 1, "zero", dims=["w", "b", "h"], axes=(-1, 0))
    A("wavedec3", 1, "zero", dims=["d", "h", "w"])
    A("wavedec3", 1, "zero", dims=["d", "b", "h", "w"], axes=(0, 2, 3))
    A("wavedec3", 1, "periodic", dims=["w", "h", "b", "d"], axes=(3, 1, 0))
    A("fswavedec2", 1, "zero", dims=["h", "w"])
    A("fswavedec2", 1, "reflect", dims=["b", "h", "c", "w"], axes=(1, 3))
    A("fswavedec2", 1, "zero", dims=["w", "b", "h"], axes=(2, 0))
    A("fswavedec3", 1, "zero", dims=["d", "h", "w", "b"], axes=(0, 1, 2))
    A("fswavedec3", 1, "zero", dims=["h", "d", "w"], axes=(1, 0, 2))
    A("swt", 1)
    A("swt", 2)
    A("swt", 3)
    A("swt", 1, dims=["n"])
    A("swt", 2, dims=["n", "b"], axes=0)
    A("swt", 1, dims=["b", "c", "n"])
    for o in ("qr", "gramschmidt"):
        A("MatrixWavedec", 1, extra={"orthogonalization": o})
    A("MatrixWavedec", 2)
    A("MatrixWavedec", 3)
    A("MatrixWavedec", 1, dims=["n"])
    A("MatrixWavedec", 2, dims=["n", "b", "c"], axes=0)
    A("MatrixWavedec", 1, dims=["b", "n", "c"], axes=1)
    for k in ("sep", "nonsep"):
        t = "MatrixWavedec2-" + k
        A(t, 1)
        A(t, 2)
        A(t, 1, extra={"orthogonalization": "gramschmidt"})
        A(t, 1, dims=["h", "w"])
        A(t, 1, dims=["h", "b", "w"], axes=(0, 2))
        A(t, 1, dims=["b", "c", "h", "w"])
        A(t, 1, dims=["w", "h", "b"], axes=(1, 0))
    A("MatrixWavedec3", 1)
    A("MatrixWavedec3", 2)
    A("MatrixWavedec3", 1, extra={"orthogonalization": "gramschmidt"})
    A("MatrixWavedec3", 1, dims=["d", "h", "w"])
    A("MatrixWavedec3", 1, dims=["d", "b", "h", "w"], axes=(0, 2, 3))
    # every ordering of the axes, named from the front, from the back and mixed
    for t in ("wavedec", "swt", "MatrixWavedec"):
        for a in range(-3, 3):
            A(t, 1, "zero" if t == "wavedec" else None, dims=["p", "q", "r"], axes=a, th=a not in (0, -2))
    for t in ("wavedec2", "fswavedec2", "MatrixWavedec2-sep", "MatrixWavedec2-nonsep"):
        for i, (ax, q) in enumerate(signed_axes(3, 2)):
            A(t, 1, None if t.startswith("M") else "zero", dims=["p", "q", "r"], axes=ax, th=not q)
    for t in ("wavedec3", "fswavedec3", "MatrixWavedec3"):
        for i, (ax, q) in enumerate(signed_axes(4, 3)):
            A(t, 1, None if t.startswith("M") else "zero", dims=["p", "q", "r", "s"], axes=ax, th=not q or i % 5 > 0)
    return [(c, th, mc) for c, th, mc in out if thorough or not th]


def rt_scenarios(prog, tier, judge, rec, sel=None, prefix=""):
    for cfg, th, mc in rt_configs(tier == "thorough"):
        if sel is not None and not sel(cfg):
            continue
        yield mk(prog, cfg, judge, rec, mc, prefix)


def mk(prog, cfg, judge, rec=True, mc=200, prefix=""):
    def body(I, cell, R):
        R.prog = prog
        roundtrip(prog, cfg, rec)(I, cell, R)

    return Sc(prefix + cfg.id(), body, judge, mc)


# small concrete sizes: signals shorter than the padding, every number of levels
def concrete_configs(thorough):
    out = []
    Fs = (2, 4, 6) if not thorough else (2, 4, 6, 8)
    top = 9 if not thorough else 17
    for F in Fs:
        for n in range(1, top):
            for m in ("zero", "constant", "symmetric"):
                out.append(Cfg("wavedec", 1, m, dims=["b", n], F=F, pre=False))
            for m in ("reflect", "periodic"):
                # torch extends by less than the signal only; a longer extension is right or rejected
                out.append(Cfg("wavedec", 1, m, dims=["b", n], F=F, pre=False, may_raise=("RuntimeError", "ValueError")))
    for F in Fs if thorough else (4,):
        for m in MODES:
            may = ("RuntimeError", "ValueError") if m in ("reflect", "periodic") else ()
            for h, w in ((1, 2), (2, 5), (3, 3), (5, 1), (4, 6)):
                for t in ("wavedec2", "fswavedec2") if min(h, w) > 1 else ("wavedec2",):
                    out.append(Cfg(t, 1, m, dims=["b", h, w], F=F, pre=False, may_raise=may))
            for d in ((1, 2, 3), (3, 1, 2), (2, 3, 5), (3, 4, 6)) if thorough else ((1, 2, 3), (2, 3, 5), (3, 4, 6)):
                for t in ("wavedec3", "fswavedec3") if min(d) > 1 else ("wavedec3",):
                    out.append(Cfg(t, 1, m, dims=["b"] + list(d), F=F, pre=False, may_raise=may))
    return out


def clamp_configs(thorough):
    """Boundary matrices on inputs too small for the requested number of levels."""
    out = []
    for F in (2, 4, 6) if not thorough else (2, 4, 6, 8, 10):
        for n in (1, 2, 3, 4, 5, 6, 7, 9, 12):
            for lv in (1, 2, 3) if thorough or F == 4 else (2,):
                out.append(Cfg("MatrixWavedec", lv, dims=["b", n], F=F, pre=False))
        for h, w in ((1, 5), (3, 4), (4, 3), (5, 7), (8, 6), (12, 5)):
            for k in ("sep", "nonsep"):
                out.append(Cfg("MatrixWavedec2-" + k, 2, dims=["b", h, w], F=F, pre=False))
        for d in ((3, 8, 8), (8, 3, 8), (8, 8, 3), (5, 6, 7), (4, 4, 9)):
            out.append(Cfg("MatrixWavedec3", 2, dims=["b"] + list(d), F=F, pre=False))
    return out


def level_configs(thorough):
    """level=None and level=0 at enumerated sizes (symbolic batch)."""
    out = []
    sizes = {1: [[n] for n in (1, 2, 3, 5, 8, 9, 12, 13, 16, 31)], 2: [[9, 16], [16, 5], [1, 4], [3, 12], [24, 24]], 3: [[9, 8, 16], [4, 9, 9], [16, 12, 5], [8, 8, 8]]}
    for t in S.TRANSFORMS.values():
        for ds in sizes[t.nd]:
            for F in (2, 4, 6) if thorough or t.nd == 1 else (2, 4):
                out.append(Cfg(t.key, None, "zero" if t.kind == "conv" else None, dims=["b"] + ds, F=F, pre=False))
        nd = t.nd
        ax = {1: 0, 2: (2, 0), 3: (1, 3, 0)}[nd]
        out.append(Cfg(t.key, None, "zero" if t.kind == "conv" else None, dims={1: [16, 3], 2: [8, 3, 32], 3: [12, 8, 3, 32]}[nd], axes=ax, F=4, pre=False))
        if t.kind != "mat":
            dims = {1: ["b", "n"], 2: ["b", "h", "w"], 3: ["b", "d", "h", "w"]}[nd]
            out.append(Cfg(t.key, 0, "zero" if t.kind == "conv" else None, dims=dims, pre=False))
            out.append(Cfg(t.key, 0, "zero" if t.kind == "conv" else None, dims=dims[1:], pre=False))
            out.append(Cfg(t.key, 0, "zero" if t.kind == "conv" else None, dims=["c"] + dims, pre=False))
    return out


def strided_configs(thorough):
    """Data which are views of larger storages: no two dimensions can be merged without a copy."""
    out = []
    for t in S.TRANSFORMS.values():
        m = "zero" if t.kind == "conv" else None
        core = {1: ["n"], 2: ["h", "w"], 3: ["d", "h", "w"]}[t.nd]
        for lv in (1, 2) if thorough else (1,):
            for dims in (core, ["b"] + core, ["b", "c"] + core):
                out.append(Cfg(t.key, lv, m, dims=dims, strided=True))
            out.append(Cfg(t.key, lv, m, dims=core + ["b", "c"], axes=tuple(range(t.nd)) if t.nd > 1 else 0, strided=True))
    return out


def deep_configs(thorough):
    """Many levels, at enumerated sizes."""
    out = []
    for t in S.TRANSFORMS.values():
        m = "zero" if t.kind == "conv" else None
        for F, dims, lv in {
            1: ((2, [5001], 12), (4, [777], 7), (20, [9000], 8)),
            2: ((2, [257, 300], 8), (6, [200, 177], 5)),
            3: ((2, [65, 130, 260], 6), (4, [65, 130, 240], 4)),
        }[t.nd]:
            if t.kind == "swt":
                dims, lv = {2: ([256], 8), 4: ([96], 5), 20: ([192], 6)}[F]
            for mode in (m,) if m is None or not thorough else MODES:
                out.append(Cfg(t.key, lv, mode, dims=["b"] + dims, F=F, pre=False))
    return out


def odd_configs(thorough):
    """Several levels with an odd length at an inner level, along every axis in turn: small enough for an exact comparison of the operators."""
    out = []
    for t in S.TRANSFORMS.values():
        if t.kind == "swt":
            continue
        for F in (2, 4):
            # an even length with an odd half after one level, and one without
            o, e = {2: (6, 8), 4: (8, 10)}[F] if t.kind == "conv" else {2: (6, 8), 4: (10, 8)}[F]
            for a in range(t.nd):
                d = [o if i == a else e for i in range(t.nd)]
                out.append(Cfg(t.key, 2, "zero" if t.kind == "conv" else None, dims=["b"] + d, F=F, pre=False))
            if t.nd < 3 or F == 2 and thorough:
                out.append(Cfg(t.key, 3, "zero" if t.kind == "conv" else None, dims=["b"] + [10 * F // 2 + 2 * i for i in range(t.nd)], F=F, pre=False))
    return out


PROPS = {}
RULES = {}
ASSUMPTIONS = [
    "torch, numpy and pywt calls behave as modelled in sa/models_torch.py and sa/models_misc.py",
    "filters have an even length F >= 2 with dec_len == rec_len and form a perfect-reconstruction bank",
    "undecided obligations are counted, never reported",
]


def prop(pid):
    def deco(f):
        PROPS[pid] = f
        RULES[pid] = " ".join((f.__doc__ or "").split())
        return f

    return deco


@prop("P06")
def p06(prog, tier):
    """Number, containers, names and sizes of the coefficients; the call succeeds."""
    yield from matrices(tier, "size")
    yield from rt_scenarios(prog, tier, J.coefficient_shapes, False)
    for c in level_configs(tier == "thorough") + strided_configs(tier == "thorough") + deep_configs(tier == "thorough"):
        yield mk(prog, c, J.coefficient_shapes, False)


@prop("P07")
def p07(prog, tier):
    """Shape of synthesis(analysis(x)) and that the synthesis succeeds."""
    yield from matrices(tier, "size")
    yield from rt_scenarios(prog, tier, J.reconstruct_shape, True)
    for c in level_configs(tier == "thorough") + strided_configs(tier == "thorough") + deep_configs(tier == "thorough") + odd_configs(tier == "thorough"):
        yield mk(prog, c, J.reconstruct_shape, True)


def matrices(tier, *keep):
    yield from B.scenarios(tier, B.judge_raise, group="matrix", keep=keep)


@prop("P08")
def p08(prog, tier):
    """Every returned band is filtered per axis with the low- or high-pass filter its name documents."""
    yield from matrices(tier, "boundary matrix")
    yield from rt_scenarios(prog, tier, J.band_names, False)
    for c in deep_configs(tier == "thorough"):
        yield mk(prog, c, J.band_names, False)


@prop("P09")
def p09(prog, tier):
    """The formal operator of synthesis(analysis(x)), rewritten with the perfect-reconstruction rule, is the identity on the samples of x."""
    yield from matrices(tier, "boundary matrix", "transposed pair", "size")
    yield from rt_scenarios(prog, tier, J.reconstruct_content, True)
    for c in deep_configs(tier == "thorough") + odd_configs(tier == "thorough"):
        yield mk(prog, c, J.reconstruct_content, True)


@prop("P10")
def p10(prog, tier):
    """Every output sample is the formal linear combination of input samples and filter taps the specification gives (filter orientation, alignment, stride, extension per mode)."""
    yield from rt_scenarios(prog, tier, J.analysis_content, False)
    for c in concrete_configs(tier == "thorough") + deep_configs(tier == "thorough"):
        yield mk(prog, c, J.analysis_content, False)


def swt_configs(thorough):
    out = []
    for lv in (1, 2, 3) + ((4,) if thorough else ()):
        out.append(Cfg("swt", lv))
        for F in (2, 4, 6, 8) if thorough or lv < 4 else (4,):
            for n in range(1, 25 if thorough else 13):
                out.append(Cfg("swt", lv, dims=["b", n], F=F, pre=False))
    out += [Cfg("swt", 2, dims=["n"]), Cfg("swt", 2, dims=["n", "b", "c"], axes=0), Cfg("swt", 1, dims=["b", "n", "c"], axes=-2)]
    for lv, F, n in ((8, 2, 256), (5, 4, 96), (6, 2, 20), (6, 8, 64), (5, 6, 3)):
        out.append(Cfg("swt", lv, dims=["b", n], F=F, pre=False))
    for n in (1, 2, 6, 8, 12, 16):
        out.append(Cfg("swt", None, dims=["b", n], F=4, pre=False))
    return out


@prop("P13")
def p13(prog, tier):
    """swt followed by iswt: structure, periodic a-trous operator of every band, and the inverse."""
    def judge(R):
        J.coefficient_shapes(R)
        J.analysis_content(R)
        J.reconstruct_shape(R)
        J.reconstruct_content(R)

    for c in swt_configs(tier == "thorough"):
        yield mk(prog, c, judge, True)


@prop("P17")
def p17(prog, tier):
    """At enumerated small sizes the matrix transform returns the feasible number of levels and its synthesis accepts them."""
    for c in clamp_configs(tier == "thorough"):
        yield mk(prog, c, J.clamped, True)


# ----- properties of any call ------------------------------------------------------------

from . import builders as B
from . import calls as C


def any_call(prog, tier, judge, builders=True, keep=(), cwt=True, **opt):
    if cwt:
        yield from C_.calls(tier, judge)
    if builders:
        yield from B.scenarios(tier, judge, keep=keep, **opt)
    for c in C.universal(tier):
        yield C.scenario(prog, c, judge, **opt)


def tensor_filters(prog, tier, judge, diff=True, **opt):
    """Calls whose wavelet is a tuple of four filter tensors of the caller."""
    from . import forms

    for c in C.universal(tier):
        if (tier == "thorough" or not forms.heavy(c)) and (not diff or forms.accepts("learnable", c) or ("packet" in c.tags and "/boundary" not in c.name)):
            yield C.scenario(prog, c, judge, wavelet="tensors", **opt)


def rejected_and_deprecated(prog, tier, judge):
    """Calls that raise (invalid arguments) and calls with deprecated keywords, under another judge."""
    for sc in itertools.chain(A_.arguments(prog, tier), A_.deprecated(prog, tier)):
        sc.judge = judge
        yield sc


@prop("P01")
def p01(prog, tier):
    """No path writes (in-place tensor operation, item assignment, container or attribute mutation) to storage or a container owned by the caller."""
    def judge(R):
        J.no_effects(R, "caller data", ("mutate",))

    yield from any_call(prog, tier, judge)
    yield from rejected_and_deprecated(prog, tier, judge)
    yield from tensor_filters(prog, tier, judge, False)


@prop("P03")
def p03(prog, tier):
    """The dtype of every returned tensor is the dtype of the data on every path, and no value on the way is rounded to a narrower format."""
    def judge(R):
        J.out_attr(R, "dtype", "dtype", R.dtype)
        J.out_precision(R)

    yield from any_call(prog, tier, judge, dtype=F32, cwt=False)
    yield from any_call(prog, tier, judge, dtype=F64, cwt=False)
    yield from any_call(prog, tier, judge, dtype=F32, cwt=False, default=F64)
    yield from tensor_filters(prog, tier, judge, False, dtype=F32, filter_dtype=F64)
    yield from tensor_filters(prog, tier, judge, False, dtype=F64, filter_dtype=F32)


@prop("P04")
def p04(prog, tier):
    """Every returned tensor is on the (uninterpreted, non-default) device of the data and no operation combines tensors of different devices."""
    def judge(R):
        J.out_attr(R, "device", "device", R.extra_dev)

    yield from any_call(prog, tier, judge)
    yield from tensor_filters(prog, tier, judge, False, filter_device=M.DEV2, filter_grad=False)


@prop("P05")
def p05(prog, tier):
    """Every returned tensor carries a gradient path to each input it is computed from (no detach, .data, .item, no_grad, numpy round trip); for filters given as tensors also, in the convolution and stationary transforms and their packets, to every filter it is computed with."""
    def judge(R):
        J.out_grad(R)

    def filters(R):
        J.out_grad(R, "filter gradient", J.filters_of)

    yield from any_call(prog, tier, judge, builders=False)
    yield from tensor_filters(prog, tier, filters)
    yield from tensor_filters(prog, tier, filters, dtype=F32, filter_dtype=F64)
    if tier == "thorough":
        yield from tensor_filters(prog, tier, filters, dtype=F64, filter_dtype=F32)
        yield from tensor_filters(prog, tier, filters, filter_device=M.DEV2)


@prop("P14")
def p14(prog, tier):
    """No path writes globals, process-wide settings, attributes of foreign objects, caches keyed by less than the arguments, prints, or uses random or time values."""
    def judge(R):
        J.no_effects(R, "process state", ("global-write", "process-global", "foreign-attr", "nondeterminism", "memo", "output"))

    yield from any_call(prog, tier, judge)
    yield from rejected_and_deprecated(prog, tier, judge)


@prop("P18")
def p18(prog, tier):
    """No branch, loop, index or size depends on tensor values."""
    yield from any_call(prog, tier, J.data_control)


@prop("P19")
def p19(prog, tier):
    """Index tensors of sparse matrices come from integer arithmetic of 64 bits; sizes of the operators are the documented ones."""
    def judge(R):
        J.no_effects(R, "sparse indices", ("float-index", "narrow-index"))

    yield from any_call(prog, tier, judge, keep=("size",))


from . import args as A_
from . import more as M


@prop("P11")
def p11(prog, tier):
    """A call with an invalid argument raises the documented exception on every path (all sizes)."""
    yield from A_.arguments(prog, tier)


@prop("P02")
def p02(prog, tier):
    """The symbolic result of a used object equals the result of a fresh object with the same arguments, for every analysed pair of earlier and later call."""
    yield from M.history_dec(prog, tier)
    yield from M.history_rec(prog, tier)
    yield from M.history_packets(prog, tier)
    yield from M.packet_maxlevel_again(prog, tier)


@prop("P12")
def p12(prog, tier):
    """Every packet node is the composition of the level-1 transforms its path names; reconstruct and lookups follow the documented tree."""
    yield from M.packets(prog, tier)


@prop("P22")
def p22(prog, tier):
    """Constant propagation of get_level for every level equals an independent Gray-code enumeration."""
    yield from M.node_orders(prog, tier)


@prop("P15")
def p15(prog, tier):
    """Two runs, with the deprecated and with the current keyword, agree; a DeprecationWarning is emitted only for the first; both together raise TypeError."""
    yield from A_.deprecated(prog, tier)


@prop("P16")
def p16(prog, tier):
    """Entries of the boundary analysis/synthesis matrices (complete filter positions kept, incomplete ones an orthonormal basis of their span, synthesis = transpose for orthogonal wavelets) and sparse_fwt_operator / sparse_ifwt_operator against the transform calls, at enumerated sizes with opaque filter taps."""
    yield from B.scenarios(tier, B.judge_entries, group="matrix")


@prop("P23")
def p23(prog, tier):
    """Shape and every entry of the results of the sparse helpers (convolution matrices, Kronecker products, diagonals, identity extension, row replacement, batch products), at enumerated sizes with opaque filter taps."""
    yield from B.scenarios(tier, B.judge_entries, group="helper")


@prop("P24")
def p24(prog, tier):
    """No non-linear operation (element-wise function, data-chosen selection, product or quotient of data, added constant, reduction to an extremum or norm) lies on a path from the data to a result."""
    yield from any_call(prog, tier, J.out_linear, builders=False)


from . import learn as L_


@prop("P21")
def p21(prog, tier):
    """Every loss of the learnable wavelets equals the documented polynomial of the filter taps, with gradient to every filter, on their device and in their dtype."""
    yield from L_.scenarios(tier)


from . import cwt as C_


@prop("P20")
def p20(prog, tier):
    """Every cwt coefficient equals the documented cropped convolution with the integrated wavelet; frequencies, shape, gradients and untouched arguments."""
    yield from C_.scenarios(tier)


from . import forms as F_


@prop("P25")
def p25(prog, tier):
    """The symbolic results for a wavelet name, filter tensors, an object of the caller or a learnable module equal those for the pywt.Wavelet with the same filters."""
    yield from F_.scenarios(prog, tier)
