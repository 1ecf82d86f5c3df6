"""Argument validation and deprecated keywords: calls that must raise, and calls that must agree."""

from __future__ import annotations

from . import calls as C
from . import judge as J
from . import poly as P
from . import spec as S
from .harness import *
from .models_torch import CPU, LONG
from .more import Expect, expect_sc, same_result
from .models_misc import make_wavelet
from .values import SeqV
from .scen import Sc, ax_arg, make_dec, make_rec

RULE = "argument check"
VE, NI = ("ValueError",), ("NotImplementedError",)
# no exception is documented for these: any will do, a result will not
ANY = VE + ("RuntimeError", "IndexError", "TypeError", "AttributeError", "KeyError", "AssertionError")


def other_dtype(name):
    from .values import DTypeV

    return DTypeV(name)


def world(I, cell, R, t, level=1, dims=None, axes=None, F=None, dtype=None):
    dims = dims or C.DIMS[t.nd]
    R.dtype = dtype or F32
    C.base(I, cell, R, t, level, dims, axes, F)
    R.entry = t.dec


def dec_errors(prog):
    for t in S.TRANSFORMS.values():
        def E(n, run, names, what, t=t):
            return expect_sc(prog, Expect("%s: %s" % (t.key, n), run, names, what, t.dec), RULE)

        def run_dt(I, cell, R, prog, t=t, dt=None):
            world(I, cell, R, t, dtype=other_dtype(dt))
            x = C.inp(I, R, "x", R.dims)
            f = make_dec(I, prog, t, R.w, 1)
            R.ready = True
            f(x)

        for dt in ("int64", "int32", "bool"):
            yield E("%s input" % dt, lambda I, cell, R, prog, t=t, dt=dt: run_dt(I, cell, R, prog, t, dt), VE, "an input of dtype %s" % dt)

        def run_few(I, cell, R, prog, t=t, k=0, axes=None):
            world(I, cell, R, t)
            x = C.inp(I, R, "x", R.dims[len(R.dims) - t.nd + k:])
            f = make_dec(I, prog, t, R.w, 1, axes=axes)
            R.ready = True
            f(x)

        for k in range(1, t.nd + 1):
            yield E("%d dimensions" % (t.nd - k), lambda I, cell, R, prog, t=t, k=k: run_few(I, cell, R, prog, t, k), VE, "an input with %d dimensions" % (t.nd - k))

        def run_ax(I, cell, R, prog, t=t, axes=None):
            world(I, cell, R, t)
            x = C.inp(I, R, "x", R.dims)
            R.ready = True
            make_dec(I, prog, t, R.w, 1, axes=ax_arg(axes))(x)

        if t.nd > 1:
            bad = {2: [(0, 0), (-1, -1), (1,), (0, 1, 2), (), 1, -1], 3: [(0, 1, 0), (-1, -2, -1), (0, 1), (0, 1, 2, 3), 2]}[t.nd]
            for a in bad:
                yield E("axes=%s" % (a,), lambda I, cell, R, prog, t=t, a=a: run_ax(I, cell, R, prog, t, a), VE, "axes=%s" % (a,))
            for a in {2: [(2, -1), (-3, 0)], 3: [(1, 2, -3)]}[t.nd]:
                yield E("axes=%s" % (a,), lambda I, cell, R, prog, t=t, a=a: run_ax(I, cell, R, prog, t, a), ANY, "axes=%s, which name one axis twice," % (a,))

        def run_obj(I, cell, R, prog, t=t, kind=None):
            world(I, cell, R, t)
            f = make_dec(I, prog, t, R.w, 1)
            R.ready = True
            f(ListV([1, 2, 3]) if kind == "list" else None)

        for kind in ("list", "None"):
            yield E("%s as data" % kind, lambda I, cell, R, prog, t=t, kind=kind: run_obj(I, cell, R, prog, t, kind), VE if t.kind != "mat" else ANY, "a %s as data" % kind)
        if t.kind == "conv":
            def run_mode(I, cell, R, prog, t=t, mode=None):
                world(I, cell, R, t)
                x = C.inp(I, R, "x", R.dims)
                R.ready = True
                make_dec(I, prog, t, R.w, 1, mode=mode)(x)

            for m in ("no such mode", "antisymmetric", "", "Reflect", "zer", "zeros", "circular", "replicate", "per"):
                yield E("mode=%r" % m, lambda I, cell, R, prog, t=t, m=m: run_mode(I, cell, R, prog, t, m), VE, "mode=%r" % m)
        if t.kind == "mat":
            def run_lv(I, cell, R, prog, t=t, lv=None):
                world(I, cell, R, t)
                x = C.inp(I, R, "x", R.dims)
                R.ready = True
                make_dec(I, prog, t, R.w, lv)(x)

            for lv in (0, -1):
                yield E("level=%d" % lv, lambda I, cell, R, prog, t=t, lv=lv: run_lv(I, cell, R, prog, t, lv), VE, "level=%d" % lv)


def ctor_errors(prog):
    for t in S.TRANSFORMS.values():
        if t.kind != "mat":
            continue
        for side in ("dec", "rec"):
            cls = getattr(t, side)
            opts = getattr(t, side + "_opts")

            def E(n, run, names, what):
                return expect_sc(prog, Expect("%s (%s): %s" % (cls, t.key, n), run, names, what, cls), RULE)

            def run_o(I, cell, R, prog, t=t, cls=cls, opts=opts, m=None):
                world(I, cell, R, t)
                R.ready = True
                I.call(prog.get(cls), [R.w], dict(opts, orthogonalization=m))

            for m in ("no such method", "QR", "", "q", "gram", "qr ", None, True):
                yield E("orthogonalization=%r" % m, lambda I, cell, R, prog, m=m, f=run_o: f(I, cell, R, prog, m=m), NI, "orthogonalization=%r" % m)

            def run_len(I, cell, R, prog, t=t, cls=cls, opts=opts):
                world(I, cell, R, t, F=4)
                w = make_wavelet(I, owner="argument 'wavelet'")
                w.attrs["rec_len"] = 6
                w.attrs["rec_lo"], w.attrs["rec_hi"] = SeqV("rec_lo", 6), SeqV("rec_hi", 6)
                R.ready = True
                I.call(prog.get(cls), [w], dict(opts))

            yield E("unequal filter lengths", run_len, VE, "a wavelet with dec_len != rec_len")
            if t.nd > 1:
                for a in ((0, 0), (1,), (0, 1, 2, 3), 1):
                    def run_a(I, cell, R, prog, t=t, cls=cls, opts=opts, a=a):
                        world(I, cell, R, t)
                        R.ready = True
                        o = I.call(prog.get(cls), [R.w], dict(opts, axes=ax_arg(a)))
                        if cls == t.dec:
                            I.call(o, [C.inp(I, R, "x", R.dims)], {})
                        else:
                            I.call(o, [C.user_coeffs(I, cell, R, t, R.dims, R.axes, 1)], {})

                    yield E("axes=%s" % (a,), run_a, VE, "axes=%s" % (a,))
            prop = {"dec": "sparse_fwt_operator", "rec": "sparse_ifwt_operator"}[side]
            if t.nd < 3:
                def run_op(I, cell, R, prog, t=t, cls=cls, opts=opts, prop=prop):
                    world(I, cell, R, t)
                    o = I.call(prog.get(cls), [R.w], dict(opts))
                    R.ready = True
                    I.getattr(o, prop)

                sep = t.nd == 2 and t.key.endswith("-sep")
                yield E(prop + " before the first call", run_op, NI if sep else VE, "%s %s" % (prop, "of a separable transform" if sep else "before the first call"))


def mutate(I, prog, c, kind, t, cell, R):
    """One defect in a valid coefficient structure (two levels)."""
    items = list(c.items)

    def rewrap(its):
        if isinstance(c, ListV):
            l = ListV(its)
            l.owner = c.owner
            return l
        return TupV(its)

    def first_tensor(v):
        if isinstance(v, TensorV):
            return v
        if isinstance(v, DictV):
            return list(v.items.values())[-1][1]
        return v.items[-1]

    def with_last(v, new):
        if isinstance(v, TensorV):
            return new
        if isinstance(v, DictV):
            d = DictV(dict(v.items))
            k = list(d.items)[-1]
            d.items[k] = (d.items[k][0], new)
            return d
        return I.call(prog.get("constants.WaveletDetailTuple2d"), list(v.items[:-1]) + [new], {})

    if kind == "approximation is a list":
        items[0] = ListV([1, 2])
    elif kind == "approximation is None":
        items[0] = None
    elif kind in ("dtype of a detail", "device of a detail", "dtype of the approximation", "device of the approximation"):
        i = 0 if kind.endswith("approximation") else 2
        o = first_tensor(items[i])
        n = tensor(I, "other", list(o.dims), dtype=F64 if kind.startswith("dtype") else R.dtype, device=CPU if kind.startswith("device") else R.extra_dev)
        items[i] = with_last(items[i], n)
    elif kind == "unknown container":
        items[1] = 3
    elif kind == "details in a list":
        items[1] = ListV([first_tensor(items[1])] * 3)
    elif kind == "tuple of two":
        items[1] = TupV([first_tensor(items[1])] * 2)
    elif kind == "dict for a tuple":
        d = DictV({})
        for k in ("a", "b", "c"):
            d.items[hkey(k)] = (k, first_tensor(items[1]))
        items[1] = d
    elif kind == "tuple for a dict":
        items[1] = I.call(prog.get("constants.WaveletDetailTuple2d"), [first_tensor(items[1])] * 3, {})
    elif kind == "tensor for a dict":
        items[1] = first_tensor(items[1])
    elif kind == "missing key":
        d = DictV(dict(items[1].items))
        d.items.pop(list(d.items)[0])
        items[1] = d
    elif kind == "additional key":
        d = DictV(dict(items[1].items))
        d.items[hkey("zzz")] = ("zzz", first_tensor(items[1]))
        items[1] = d
    elif kind in ("larger detail", "larger first detail", "much larger detail"):
        i = 1 if kind == "larger first detail" else 2
        o = first_tensor(items[i])
        ds = list(o.dims)
        ds[R.axes[-1]] = P.add(ds[R.axes[-1]], 3 if kind == "much larger detail" else 1)
        items[i] = with_last(items[i], tensor(I, "other", ds, dtype=R.dtype, device=R.extra_dev))
    elif kind.startswith("level "):
        # all tensors of the finest level, consistently
        d = 3 if "larger" in kind else -3
        a = R.axes[0 if kind.endswith("first axis") else -1]

        def resize(v):
            if isinstance(v, TensorV):
                ds = list(v.dims)
                ds[a] = P.add(ds[a], d)
                return tensor(I, "other", ds, dtype=R.dtype, device=R.extra_dev)
            if isinstance(v, DictV):
                return DictV({h: (n, resize(x)) for h, (n, x) in v.items.items()})
            return I.call(prog.get("constants.WaveletDetailTuple2d"), [resize(x) for x in v.items], {})

        i = 1 if "first level" in kind else 2
        items[i] = resize(items[i])
    else:
        raise KeyError(kind)
    return rewrap(items)


def rec_errors(prog):
    for t in S.TRANSFORMS.values():
        kinds = [("approximation is a list", VE), ("approximation is None", VE),
                 ("dtype of a detail", VE), ("device of a detail", VE), ("dtype of the approximation", VE), ("device of the approximation", VE)]
        kinds.append(("unknown container", ANY if t.nd == 1 or t.kind == "mat" else VE))
        if t.nd == 2 and not S.uses_dict(t):
            kinds += [("details in a list", VE), ("tuple of two", ANY), ("dict for a tuple", VE), ("larger detail", VE), ("larger first detail", VE)]
        if t.nd == 3 and not t.key.startswith("fs"):
            kinds += [("tuple for a dict", VE), ("missing key", VE), ("additional key", VE), ("larger detail", VE), ("larger first detail", VE)]
        if t.key.startswith("fs"):
            kinds += [("tensor for a dict", VE), ("details in a list", VE)]
            if t.nd == 2:
                kinds += [("tuple for a dict", VE)]
            kinds += [("missing key", ANY)]
        if t.kind == "mat" and t.nd == 1:
            kinds += [("much larger detail", ANY), ("larger first detail", VE)]
        for d in ("larger", "smaller"):
            kinds.append(("level %s along the last axis" % d, ANY))
            if t.nd > 1:
                kinds.append(("level %s along the first axis" % d, ANY))
            kinds.append(("level %s: the first level" % d, ANY))
        for kind, names in kinds:
            def run(I, cell, R, prog, t=t, kind=kind):
                world(I, cell, R, t, level=2)
                if kind.startswith("level "):
                    for a in R.axes:
                        cell._add_fact(cell.norm(P.sub(R.dims[a], 17)))
                c = C.user_coeffs(I, cell, R, t, R.dims, R.axes, 2)
                c = mutate(I, prog, c, kind, t, cell, R)
                f = make_rec(I, prog, t, R.w)
                R.ready = True
                f(c)

            yield expect_sc(prog, Expect("%s (%s): %s" % (t.rec, t.key, kind), run, names, "coefficients with a defect (%s)" % kind, t.rec), RULE)
        for dt in ("int64", "bool"):
            def run_dt(I, cell, R, prog, t=t, dt=dt):
                world(I, cell, R, t, level=2, dtype=other_dtype(dt))
                c = C.user_coeffs(I, cell, R, t, R.dims, R.axes, 2)
                f = make_rec(I, prog, t, R.w)
                R.ready = True
                f(c)

            yield expect_sc(prog, Expect("%s (%s): %s coefficients" % (t.rec, t.key, dt), run_dt, VE, "coefficients of dtype %s" % dt, t.rec), RULE)
        if t.nd > 1 and t.kind != "mat":
            for a in ((0, 0), (1,), (0, 1, 2, 3), 1):
                def run_a(I, cell, R, prog, t=t, a=a):
                    world(I, cell, R, t, level=1)
                    c = C.user_coeffs(I, cell, R, t, R.dims, R.axes, 1)
                    R.ready = True
                    make_rec(I, prog, t, R.w, axes=ax_arg(a))(c)

                yield expect_sc(prog, Expect("%s (%s): axes=%s" % (t.rec, t.key, a), run_a, VE, "axes=%s" % (a,), t.rec), RULE)


def packet_errors(prog):
    for nd in (1, 2):
        cls = "WaveletPacket" if nd == 1 else "WaveletPacket2D"

        def mk(n, names, what, **kw):
            def run(I, cell, R, prog):
                k = dict(kw)
                filt(cell, None)
                R.F = cell.filt_len
                dims = k.pop("dims", C.DIMS[nd])
                ds = [cell.sym(d, 1) for d in dims]
                for d in ds:
                    cell._add_fact(cell.norm(P.sub(d, R.F)))
                x = tensor(I, "x", ds, dtype=k.pop("dtype", F32))
                w = make_wavelet(I, owner="argument 'wavelet'")
                k.setdefault("mode", "zero")
                R.ready = True
                o = I.call(prog.get(cls), [x, w], dict(k, maxlevel=1))
                I.call(I.getattr(o, "__getitem__"), ["a"], {})

            return expect_sc(prog, Expect("%s: %s" % (cls, n), run, names, what, cls), RULE)

        yield mk("unknown mode", VE, "mode='no such mode'", mode="no such mode")
        yield mk("unknown orthogonalization", NI, "an unknown orthogonalization method", mode="boundary", orthogonalization="nothing")
        yield mk("unknown orthogonalization without boundary mode", NI, "an unknown orthogonalization method", orthogonalization="nothing")
        yield mk("integer data", VE, "an input of dtype int64", dtype=LONG)
        yield mk("integer data, boundary", VE, "an input of dtype int64", dtype=LONG, mode="boundary")
        if nd == 2:
            for a in ((0, 0), (1,), (0, 1, 2), 1):
                yield mk("axes=%s" % (a,), VE, "axes=%s" % (a,), axes=ax_arg(a))
                yield mk("axes=%s, boundary" % (a,), VE, "axes=%s" % (a,), axes=ax_arg(a), mode="boundary")
            yield mk("one dimension", ANY, "an input with one dimension", dims=["n"])


def sparse_errors():
    """sparse_math and the matrix constructors (exact program, no summaries)."""
    from . import builders as B

    def mk(entry, n, names, what, run):
        sc = expect_sc(B.exact_program(), Expect("%s: %s" % (entry, n), run, names, what, entry), RULE)
        sc.prog = B.exact_program()
        return sc

    def f1(I, R, n=4):
        return B.taps(I, R, "filter", (n,))

    def f2(I, R):
        return B.taps(I, R, "filter", (2, 2))

    def sp(I, R, name, shape):
        return B.sparse_arg(I, R, name, shape, B.opaque(name, shape, B.keys(shape, "full")))

    def go(entry, mkargs, **kw):
        def run(I, cell, R, prog):
            a = mkargs(I, R)
            R.ready = True
            I.call(prog.get(entry), a, dict(kw))
        return run

    for m in ("no such mode", "", "reflect"):
        q = "mode=%r" % m
        yield mk("sparse_math.construct_conv_matrix", q, VE, q, go("sparse_math.construct_conv_matrix", lambda I, R: [f1(I, R), 6], mode=m))
        yield mk("sparse_math.construct_strided_conv_matrix", q, VE, q, go("sparse_math.construct_strided_conv_matrix", lambda I, R: [f1(I, R), 6], mode=m))
        yield mk("sparse_math.construct_conv2d_matrix", q, VE, q, go("sparse_math.construct_conv2d_matrix", lambda I, R: [f2(I, R), 4, 4], mode=m))
        yield mk("sparse_math.construct_strided_conv2d_matrix", q, VE, q, go("sparse_math.construct_strided_conv2d_matrix", lambda I, R: [f2(I, R), 4, 4], mode=m))

    def other(I, R):
        b = sp(I, R, "b", (2, 2))
        b.device = CPU
        return [sp(I, R, "a", (2, 2)), b]

    yield mk("sparse_math.sparse_kron", "other device", VE, "factors on different devices", go("sparse_math.sparse_kron", other))
    cat = "sparse_math.cat_sparse_identity_matrix"
    for sh in ((2, 3), (3, 2)):
        yield mk(cat, "%dx%d" % sh, VE, "a matrix which is not square", go(cat, lambda I, R, sh=sh: [sp(I, R, "m", sh), 5]))
    for n in (2, 0):
        yield mk(cat, "new_length=%d" % n, VE, "new_length smaller than the matrix", go(cat, lambda I, R, n=n: [sp(I, R, "m", (3, 3)), n]))
    yield mk(cat, "dense matrix", VE, "a dense matrix", go(cat, lambda I, R: [B.taps(I, R, "m", (3, 3)), 5]))
    rep = "sparse_math.sparse_replace_row"
    for n in (2, 4):
        yield mk(rep, "%d columns" % n, VE, "a row with another number of columns", go(rep, lambda I, R, n=n: [sp(I, R, "m", (3, 3)), 1, sp(I, R, "row", (1, n))]))
    bmm = "sparse_math.batch_mm"
    for n in (2, 4):
        yield mk(bmm, "%d rows" % n, VE, "matrices whose shapes do not fit", go(bmm, lambda I, R, n=n: [sp(I, R, "m", (2, 3)), B.taps(I, R, "x", (2, n, 1))]))
    for fn, size in (("construct_boundary_a", (8,)), ("construct_boundary_s", (8,)), ("construct_boundary_a2", (4, 6)), ("construct_boundary_s2", (4, 6))):
        e = ("matmul_transform_2." if fn.endswith("2") else "matmul_transform.") + fn

        def mkargs(I, R, size=size):
            w, _, _ = B.filters(I, R, 4, False)
            return [w] + list(size)

        for m in ("no such method", ""):
            yield mk(e, "orthogonalization=%r" % m, VE, "orthogonalization=%r" % m, go(e, mkargs, device=DEV, dtype=F64, orthogonalization=m))
    for cls, mod, size, k in (("MatrixWavedec", "matmul_transform.", (10,), {}), ("MatrixWavedec2", "matmul_transform_2.", (6, 8), {"separable": False})):
        def padded(I, cell, R, prog, cls=cls, mod=mod, size=size, k=k):
            w, _, _ = B.filters(I, R, 2, False)
            o = I.call(prog.get(mod + cls), [w], dict(k, level=2))
            I.call(o, [B.taps(I, R, "x", (1,) + size)], {})
            R.ready = True
            I.getattr(o, "sparse_fwt_operator")

        yield mk(mod + cls, "operator of a padded transform", NI, "sparse_fwt_operator of a transform with padding", padded)


def arguments(prog, tier):
    yield from sparse_errors()
    yield from dec_errors(prog)
    yield from ctor_errors(prog)
    yield from rec_errors(prog)
    yield from packet_errors(prog)


# ----- deprecated keywords ---------------------------------------------------------------------------------

def dep_entries(prog):
    """(name, old keyword, build(I, cell, R, kwargs) -> compared value)"""
    for t in S.TRANSFORMS.values():
        if t.kind != "mat":
            continue
        for side in ("dec", "rec"):
            def build(I, cell, R, kw, t=t, side=side):
                if not hasattr(R, "t"):
                    world(I, cell, R, t, level=2)
                    R.x = C.inp(I, R, "x", R.dims)
                    R.c = C.user_coeffs(I, cell, R, t, R.dims, R.axes, 2)
                k = dict(getattr(t, side + "_opts"), **kw)
                if side == "dec":
                    k["level"] = 2
                o = I.call(prog.get(getattr(t, side)), [R.w], k)
                R.ready = True
                return TupV([I.getattr(o, "orthogonalization"), I.call(o, [R.x if side == "dec" else R.c], {})])

            yield getattr(t, side) + (" (%s)" % t.key if t.nd == 2 else ""), getattr(t, side), "boundary", build, None
    for nd in (1, 2):
        for sep in ((False, True) if nd == 2 else (None,)):
            def build(I, cell, R, kw, nd=nd, sep=sep):
                k = dict(kw, mode="boundary", maxlevel=2)
                if sep is not None:
                    k["separable"] = sep
                if not hasattr(R, "x"):
                    filt(cell, None)
                    R.F = cell.filt_len
                    R.dims = [cell.sym(d, 1) for d in C.DIMS[nd]]
                    for d in R.dims[1:]:
                        cell._add_fact(cell.norm(P.sub(d, P.mul(2, R.F))))
                    R.x = tensor(I, "x", R.dims)
                    R.w = make_wavelet(I, owner="argument 'wavelet'")
                o = I.call(prog.get("WaveletPacket" if nd == 1 else "WaveletPacket2D"), [R.x, R.w], k)
                g = I.getattr(o, "__getitem__")
                vals = [I.getattr(o, "orthogonalization")] + [I.call(g, [q], {}) for q in C.packet_keys(nd, 2)]
                I.call(I.getattr(o, "reconstruct"), [], {})
                R.ready = True
                return TupV(vals + [I.call(g, [""], {})])

            cls = "WaveletPacket" if nd == 1 else "WaveletPacket2D"
            yield cls + ("" if sep is None else "/separable=%s" % sep), cls, "boundary_orthogonalization", build, None
    from . import builders as B

    for fn, size in (("construct_boundary_a", (8,)), ("construct_boundary_s", (8,)), ("construct_boundary_a2", (4, 6)), ("construct_boundary_s2", (4, 6))):
        e = ("matmul_transform_2." if fn.endswith("2") else "matmul_transform.") + fn

        def build(I, cell, R, kw, e=e, size=size):
            if not hasattr(R, "w"):
                R.w, _, _ = B.filters(I, R, 4, False)
            v = I.call(R.prog.get(e), [R.w] + list(size), dict(kw, device=R.extra_dev, dtype=R.dtype))
            R.ready = True
            return v

        yield e, e, "boundary", build, B


def deprecated(prog, tier):
    rule = "deprecated keyword"
    for name, entry, old, build, B in dep_entries(prog):
        pr = B.exact_program() if B else prog

        def init(I, R):
            R.prog, R.opt, R.dtype, R.extra_dev, R.srcs, R.ready, R.entry = pr, {}, F32, DEV, [], False, entry

        for method in ("gramschmidt", "qr"):
            def body(I, cell, R, method=method, build=build, old=old, init=init):
                init(I, R)
                m = len(I.effects)
                R.new = build(I, cell, R, {"orthogonalization": method})
                R.wn = deps_warned(I, m)
                m = len(I.effects)
                R.old = build(I, cell, R, {old: method})
                R.wo = deps_warned(I, m)
                m = len(I.effects)
                R.third = build(I, cell, R, {old: method})
                R.wt = deps_warned(I, m)
                R.stage = "done"

            def judge(R, entry=entry, old=old, method=method, exact=bool(B)):
                if R.exc is not None:
                    if R.ready:
                        R.bad(rule, "%s (raised at %s)" % (J.S_anchor(R, entry), R.exc.loc), "%s(%s=%r) raises %s" % (entry, old, method, R.exc.name()))
                    else:
                        R.und(rule, "not set up")
                    return
                if exact:
                    from . import builders as B
                    a, b = R.old, R.new
                    if isinstance(b, TensorV) and b.ex is not None:
                        B.same_matrix(R, rule, a, tuple(b.ex.shape), B.entries(b.ex), "%s(%s=%r), compared with orthogonalization=%r," % (entry, old, method, method))
                    else:
                        R.und(rule, "entries not tracked")
                else:
                    same_result(R, rule, R.old, R.new, "result", entry)
                    if R.new.items[0] == method:
                        R.ok(rule)
                    elif isinstance(R.new.items[0], str):
                        R.bad(rule, J.S_anchor(R, entry), "%s(orthogonalization=%r).orthogonalization is %r" % (entry, method, R.new.items[0]))
                    if isinstance(R.old.items[0], str) and isinstance(R.new.items[0], str) and R.old.items[0] != R.new.items[0]:
                        R.bad(rule, J.S_anchor(R, entry), "%s(%s=%r).orthogonalization is %r" % (entry, old, method, R.old.items[0]))
                (R.ok(rule) if R.wo >= 1 else R.bad(rule, J.S_anchor(R, entry), "%s(%s=...) emits no DeprecationWarning" % (entry, old)))
                (R.ok(rule) if R.wt >= 1 or R.wo < 1 else R.bad(rule, J.S_anchor(R, entry), "the second call of %s(%s=...) emits no DeprecationWarning" % (entry, old)))
                (R.ok(rule) if R.wn == 0 else R.bad(rule, J.S_anchor(R, entry), "%s(orthogonalization=...) emits a DeprecationWarning" % entry))

            sc = Sc("%s: %s=%s" % (name, old, method), body, judge, 60)
            if B:
                sc.prog = pr
            yield sc

        # a value that is not a method is rejected as under the current keyword
        for bad in (None, "", "no such method"):
            def wrong(I, cell, R, prog, build=build, old=old, init=init, bad=bad):
                init(I, R)
                build(I, cell, R, {})
                R.ready = True
                build(I, cell, R, {old: bad})

            sc = expect_sc(pr, Expect("%s: %s=%r" % (name, old, bad), wrong, ("ValueError",) if B else ("NotImplementedError",), "%s=%r" % (old, bad), entry), rule)
            if B:
                sc.prog = pr
            yield sc

        def both(I, cell, R, prog, build=build, old=old, init=init):
            init(I, R)
            build(I, cell, R, {})
            R.ready = True
            build(I, cell, R, {old: "qr", "orthogonalization": "qr"})

        sc = expect_sc(pr, Expect("%s: both keywords" % name, both, ("TypeError",), "%s together with orthogonalization" % old, entry), rule)
        if B:
            sc.prog = pr
        yield sc


def deps_warned(I, start):
    return sum(1 for e in I.effects[start:] if e["kind"] == "warning" and "DeprecationWarning" in str(e.get("category")) and "Pending" not in str(e.get("category")))
