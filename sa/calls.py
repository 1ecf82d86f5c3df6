"""The universal call set: every public entry point, for properties of any call."""

from __future__ import annotations

from . import poly as P
from . import spec as S
from .harness import *
from .scen import Cfg, Rec, Sc, ax_arg, make_dec, make_rec


class Case:
    """A public call.  ``setup(I, cell, R)`` performs it; R.out lists its results."""

    def __init__(self, name, entry, run, thorough=False, mc=1000, tags=()):
        self.name, self.entry, self.run, self.thorough, self.mc, self.tags = name, entry, run, thorough, mc, set(tags)


def scenario(prog, case, judge, **opt):
    def body(I, cell, R):
        R.prog = prog
        R.out = []
        R.srcs = []
        R.entry = case.entry
        R.dtype = opt.get("dtype", F32)
        I.dflt = opt.get("default", F32)
        I.strided = opt.get("strided", False)
        R.opt = opt
        R.extra_dev = opt.get("device", DEV)
        case.run(I, cell, R, prog)
        R.stage = "done"

    return Sc(case.name + "".join("/%s=%s" % (k, getattr(v, "name", v)) for k, v in sorted(opt.items()) if k != "device"), body, judge, case.mc)


def inp(I, R, name, dims):
    t = tensor(I, name, dims, dtype=R.dtype, device=R.extra_dev)
    R.srcs.append(name)
    R.inputs = getattr(R, "inputs", []) + [t]
    return t


def put(I, R, value, path="result"):
    from .judge import walk_tensors

    R.out += list(walk_tensors(value, path))


# ----- user-made coefficient containers ------------------------------------------------

def user_coeffs(I, cell, R, t, dims, axes, level, shapes=None, container=None):
    """Caller-owned coefficients of the structure the analysis would return."""

    def leaf(path, nb):
        ds = list(dims)
        for a in axes:
            ds[a] = S.len_chain(cell, t.kind, dims[a], R.F, nb)
        if shapes:
            ds = shapes(path, ds)
        nm = getattr(R, "prefix", "") + "coeffs[%s]%s" % (path[0], "" if len(path) == 1 else path[1])
        return inp(I, R, nm, ds)

    got = {path: leaf(path, len(ch)) for path, ch in S.leaves(t, level)}
    items = [got[(0,)]]
    for i in range(1, level + 1):
        if t.nd == 1:
            items.append(got[(i,)])
        elif S.uses_dict(t):
            d = DictV({hkey(b): (b, got[(i, b)]) for b in S.detail_bands(t.nd)})
            d.owner = "argument 'coeffs[%d]'" % i
            items.append(d)
        else:
            cls = R.prog.get("constants.WaveletDetailTuple2d")
            items.append(I.call(cls, [got[(i, "." + f)] for f in ("horizontal", "vertical", "diagonal")], {}))
    if t.nd == 1:
        l = ListV(items) if container != "tuple" else TupV(items)
        if isinstance(l, ListV):
            l.owner = "argument 'coeffs'"
        return l
    if container == "list":
        l = ListV(items)
        l.owner = "argument 'coeffs'"
        return l
    return TupV(items)


# ----- transforms ---------------------------------------------------------------------------

def wave(I, R):
    """The wavelet argument: a filter bank, or the option of the scenario."""
    k = R.opt.get("wavelet", "object")
    if k == "object":
        return make_wavelet(I, owner="argument 'wavelet'")
    if k == "name":
        return SymStr("wavelet name")
    if k == "tensors":
        return tensor_wavelet(I, R)
    if k == "user object":
        w = make_wavelet(I, owner="argument 'wavelet'")
        return I.call(I.loader.ext_classes["user.UserWavelet"], [w.attrs[s] for s in ("dec_lo", "dec_hi", "rec_lo", "rec_hi")], {})
    if k == "learnable":
        return I.call(R.prog.get("wavelets_learnable.ProductFilter"), list(tensor_wavelet(I, R).items), {})
    raise KeyError(k)


def tensor_wavelet(I, R):
    """WaveletTensorTuple of four caller-owned filters that require gradients."""
    from . import labels as L

    fs = []
    rg = R.opt.get("filter_grad", True)
    for s in ("dec_lo", "dec_hi", "rec_lo", "rec_hi"):
        c = L.single("", ["L"], [("flt", s, False, R.F)])
        t = TensorV((R.F,), c, R.opt.get("filter_dtype", R.dtype), R.opt.get("filter_device", R.extra_dev), Storage(owner="argument 'wavelet.%s'" % s), g=frozenset([s] if rg else []), d=frozenset([s]))
        t.reqgrad = rg
        fs.append(t)
    return I.call(R.prog.get("constants.WaveletTensorTuple"), fs, {})


def base(I, cell, R, t, level, dims, axes, F, pre=True):
    filt(cell, F)
    R.F = cell.filt_len
    R.t = t
    R.dims = [cell.sym(d, 1) if isinstance(d, str) else d for d in dims]
    nd = t.nd
    R.axes = list(range(len(dims) - nd, len(dims))) if axes is None else [x % len(dims) for x in (axes if isinstance(axes, tuple) else (axes,))]
    k = 2 ** (max(level or 1, 1) - 1) if t.kind in ("mat", "swt") else 1
    for a in R.axes:
        if pre and (isinstance(R.dims[a], Poly) or isinstance(R.F, Poly)):
            cell._add_fact(cell.norm(P.sub(R.dims[a], P.mul(k, R.F))))
    R.w = wave(I, R)


DIMS = {1: ["b", "n"], 2: ["b", "h", "w"], 3: ["b", "d", "h", "w"]}


def dec_case(t, level, mode=None, dims=None, axes=None, F=None, extra=None, **kw):
    t = S.TRANSFORMS[t]
    dims = dims or DIMS[t.nd]

    def run(I, cell, R, prog):
        base(I, cell, R, t, level, dims, axes, F)
        x = inp(I, R, "x", R.dims)
        put(I, R, make_dec(I, prog, t, R.w, level, mode, ax_arg(axes), extra)(x), "coefficients")
        R.level_of_result = len(R.out) > 1

    nm = "%s/level=%s%s/%s%s%s%s" % (t.key, level, "/" + mode if mode else "", "x".join(map(str, dims)), "" if axes is None else "/axes=%s" % (axes,),
                                    "/F=%s" % F if F else "", "".join("/%s=%s" % x for x in sorted((extra or {}).items())))
    return Case(nm, t.dec, run, tags=["dec", t.kind, t.key], **kw)


def rec_case(t, level, dims=None, axes=None, F=None, extra=None, container=None, **kw):
    t = S.TRANSFORMS[t]
    dims = dims or DIMS[t.nd]

    def run(I, cell, R, prog):
        base(I, cell, R, t, level, dims, axes, F)
        R.level = level
        c = user_coeffs(I, cell, R, t, R.dims, R.axes, level, container=container)
        R.coeffs = c
        y = make_rec(I, prog, t, R.w, ax_arg(axes), extra)(c)
        R.y = y
        put(I, R, y, "reconstruction")

    nm = "%s(user coefficients)/level=%s/%s%s%s%s%s" % (t.rec + t.key[len(t.dec):], level, "x".join(map(str, dims)), "" if axes is None else "/axes=%s" % (axes,),
                                               "/F=%s" % F if F else "", "/" + container if container else "", "".join("/%s=%s" % x for x in sorted((extra or {}).items())))
    return Case(nm, t.rec, run, tags=["rec", t.kind, t.key], **kw)


MODES = ("zero", "constant", "symmetric", "reflect", "periodic")


def transform_cases():
    out = []
    for m in MODES:
        out.append(dec_case("wavedec", 2, m))
        out.append(dec_case("wavedec2", 1, m))
        out.append(dec_case("fswavedec2", 1, m, thorough=m not in ("zero", "reflect")))
        out.append(dec_case("wavedec3", 1, m, thorough=m not in ("zero", "symmetric")))
        out.append(dec_case("fswavedec3", 1, m, thorough=m not in ("constant",)))
    out.append(dec_case("wavedec2", 2, "reflect"))
    out.append(dec_case("wavedec3", 2, "zero", thorough=True))
    out.append(dec_case("wavedec", 1, "zero", dims=["n", "b", "c"], axes=0))
    out.append(dec_case("wavedec", 1, "symmetric", dims=["n"]))
    out.append(dec_case("wavedec2", 1, "zero", dims=["h", "w"]))
    out.append(dec_case("wavedec2", 1, "zero", dims=["h", "b", "w"], axes=(0, 2)))
    out.append(dec_case("wavedec3", 1, "zero", dims=["d", "h", "w"]))
    out.append(dec_case("fswavedec2", 1, "zero", dims=["h", "b", "c", "w"], axes=(3, 0)))
    out.append(dec_case("wavedec", 0, "zero"))
    out.append(dec_case("wavedec2", 0, "zero"))
    out.append(dec_case("wavedec3", 0, "zero"))
    out.append(dec_case("fswavedec2", 0, "zero"))
    # signals shorter than the padding
    for m in ("zero", "constant", "symmetric"):
        for n in (1, 3, 4):
            out.append(dec_case("wavedec", 1, m, dims=["b", n], F=8))
        for t, ds in (("wavedec2", ["b", 3, 2]), ("fswavedec2", ["b", 2, 3]), ("wavedec3", ["b", 3, 2, 5]), ("fswavedec3", ["b", 2, 3, 4])):
            out.append(dec_case(t, 1, m, dims=ds, F=8, thorough=m != "symmetric"))
    for n in (4, 12):
        out.append(dec_case("swt", 2, dims=["b", n], F=8))
    # level computed by the transform, at fixed sizes
    for t, ds in (("wavedec", ["b", 13]), ("wavedec2", ["b", 13, 9]), ("wavedec3", ["b", 9, 8, 11]), ("fswavedec2", ["b", 9, 14]), ("fswavedec3", ["b", 8, 8, 9]),
                  ("swt", ["b", 12]), ("MatrixWavedec", ["b", 13]), ("MatrixWavedec2-sep", ["b", 13, 16]), ("MatrixWavedec2-nonsep", ["b", 13, 16]), ("MatrixWavedec3", ["b", 8, 9, 8])):
        out.append(dec_case(t, None, None, dims=ds, F=2))
        out.append(dec_case(t, None, None, dims=ds, F=4, thorough=True))
    out.append(dec_case("swt", 2))
    out.append(dec_case("swt", 1, dims=["n", "b"], axes=0))
    for o in ("qr", "gramschmidt"):
        out.append(dec_case("MatrixWavedec", 2, extra={"orthogonalization": o}))
        out.append(dec_case("MatrixWavedec2-sep", 1, extra={"orthogonalization": o}))
        out.append(dec_case("MatrixWavedec2-nonsep", 1, extra={"orthogonalization": o}))
        out.append(dec_case("MatrixWavedec3", 1, extra={"orthogonalization": o}))
    for m in ("zero", "symmetric", "periodic", "constant", "reflect"):
        out.append(dec_case("MatrixWavedec", 1, extra={"odd_coeff_padding_mode": m}))
    out.append(dec_case("MatrixWavedec2-sep", 2))
    out.append(dec_case("MatrixWavedec2-nonsep", 2))
    out.append(dec_case("MatrixWavedec3", 2, thorough=True))
    out.append(dec_case("MatrixWavedec", 1, dims=["n", "b"], axes=0))
    out.append(dec_case("MatrixWavedec2-sep", 1, dims=["h", "b", "w"], axes=(2, 0)))
    for t in ("wavedec", "wavedec2", "wavedec3", "fswavedec2", "fswavedec3", "swt", "MatrixWavedec", "MatrixWavedec2-sep", "MatrixWavedec2-nonsep", "MatrixWavedec3"):
        nd = S.TRANSFORMS[t].nd
        out.append(rec_case(t, 1))
        out.append(rec_case(t, 2))
        out.append(rec_case(t, 0))
        out.append(rec_case(t, 3, thorough=True))
        out.append(rec_case(t, 1, dims=DIMS[nd][1:]))
        ax = {1: 0, 2: (0, 2), 3: (0, 2, 3)}[nd]
        ds = DIMS[nd][1:2] + ["b"] + DIMS[nd][2:]
        out.append(rec_case(t, 1, dims=ds, axes=ax))
    # many levels, at fixed sizes
    for t in ("wavedec", "wavedec2", "wavedec3", "fswavedec2", "fswavedec3", "swt", "MatrixWavedec", "MatrixWavedec2-sep", "MatrixWavedec2-nonsep", "MatrixWavedec3"):
        nd = S.TRANSFORMS[t].nd
        ds, lv = {1: ([133], 7), 2: ([37, 80], 5), 3: ([9, 20, 36], 3)}[nd] if t != "swt" else ([64], 6)
        m = "symmetric" if S.TRANSFORMS[t].kind == "conv" else None
        out.append(dec_case(t, lv, m, dims=["b"] + ds, F=2))
        out.append(rec_case(t, lv, dims=["b"] + ds, F=2))
    out.append(rec_case("wavedec", 2, container="tuple"))
    out.append(rec_case("swt", 2, container="tuple"))
    out.append(rec_case("wavedec2", 1, container="list"))
    out.append(rec_case("wavedec3", 1, container="list"))
    for t in ("MatrixWavedec", "MatrixWavedec2-sep", "MatrixWavedec2-nonsep", "MatrixWavedec3"):
        out.append(rec_case(t, 1, extra={"orthogonalization": "gramschmidt"}))
    return out


# ----- packets -----------------------------------------------------------------------------------

def packet_keys(nd, level):
    import itertools

    al = "ad" if nd == 1 else "ahvd"
    return ["".join(p) for p in itertools.product(al, repeat=level)]


def packet_case(nd, mode, level, sep=None, rec=True, dims=None, axes=None, reuse=False, ortho=None, subset=None, F=None, **kw):
    cls = "WaveletPacket" if nd == 1 else "WaveletPacket2D"
    dims = dims or DIMS[nd]

    def run(I, cell, R, prog):
        t = S.TRANSFORMS["MatrixWavedec" if mode == "boundary" else "wavedec"]
        t = type("PT", (), {"nd": nd, "kind": t.kind, "key": cls, "dec": cls, "rec": cls})
        base(I, cell, R, t, level, dims, axes, R.opt.get("F", F))
        R.level, R.mode, R.sep, R.nd = level, mode, sep, nd
        R.method = ortho or "qr"
        x = inp(I, R, "x", R.dims)
        R.x = x
        k = {"mode": mode, "maxlevel": level}
        if sep is not None:
            k["separable"] = sep
        if ortho is not None:
            k["orthogonalization"] = ortho
        if axes is not None:
            k["axis" if nd == 1 else "axes"] = ax_arg(axes)
        o = I.call(prog.get(cls), [x, R.w], k)
        gi = I.getattr(o, "__getitem__")
        R.nodes = {}
        keys = [q for l in range(level + 1) for q in packet_keys(nd, l)]
        if subset:
            keys = subset
        for q in keys:
            R.nodes[q] = I.call(gi, [q], {})
            put(I, R, R.nodes[q], "node %r" % q)
        R.obj = o
        R.y = None
        R.stage = "reconstruct"
        if rec:
            I.call(I.getattr(o, "reconstruct"), [], {})
            R.y = I.call(gi, [""], {})
            put(I, R, R.y, "reconstruction")
            R.renodes = {q: I.call(gi, [q], {}) for q in keys}

    nm = "%s/%s/maxlevel=%d%s/%s%s%s" % (cls, mode, level, "" if sep is None else "/separable=%s" % sep, "x".join(map(str, dims)), "" if axes is None else "/axes=%s" % (axes,), "/" + ortho if ortho else "")
    return Case(nm, cls, run, tags=["packet"], **kw)


def packet_cases():
    out = []
    for m in MODES + ("boundary",):
        out.append(packet_case(1, m, 1))
        out.append(packet_case(1, m, 2, thorough=m not in ("zero", "boundary", "reflect")))
        out.append(packet_case(2, m, 1, sep=False))
        out.append(packet_case(2, m, 1, sep=True))
    out.append(packet_case(1, "zero", 3, thorough=True))
    out.append(packet_case(1, "boundary", 3, thorough=True))
    for s in (False, True):
        out.append(packet_case(2, "zero", 2, sep=s))
        out.append(packet_case(2, "boundary", 2, sep=s, thorough=True))
        out.append(packet_case(2, "boundary", 1, sep=s, ortho="gramschmidt"))
    out.append(packet_case(1, "boundary", 1, ortho="gramschmidt"))
    out.append(packet_case(1, "zero", 1, dims=["n", "b"], axes=0))
    out.append(packet_case(1, "boundary", 2, dims=["n", "b"], axes=0))
    out.append(packet_case(1, "zero", 2, dims=["n", "b", "c"], axes=0))
    out.append(packet_case(2, "zero", 1, sep=False, dims=["h", "b", "w"], axes=(0, 2)))
    out.append(packet_case(2, "zero", 2, sep=False, dims=["w", "b", "h"], axes=(2, 0)))
    out.append(packet_case(2, "boundary", 1, sep=True, dims=["h", "b", "w"], axes=(0, 2)))
    deep = lambda al, k: ["", *[("".join(al) * k)[:i] for i in range(1, k + 1)]]
    for m in ("zero", "boundary"):
        out.append(packet_case(1, m, 6, dims=["b", 133], F=2, rec=False, subset=deep("da", 6)))
        for s in (False, True):
            out.append(packet_case(2, m, 4, sep=s, dims=["b", 37, 80], F=2, rec=False, subset=deep("hvda", 4)))
    return out


def universal(tier):
    cs = transform_cases() + packet_cases()
    return [c for c in cs if tier == "thorough" or not c.thorough]
