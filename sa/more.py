"""History independence, argument validation, packets, keyword aliases, node orders."""

from __future__ import annotations

import itertools

from . import calls as C
from . import judge as J
from . import labels as L
from . import poly as P
from . import spec as S
from .dense import Undense
from .harness import *
from .scen import Cfg, Rec, Sc, ax_arg, make_dec, make_rec

DEV2 = DeviceV("dev2")


# ----- comparing two results --------------------------------------------------------------

def same_result(R, rule, got, want, what, name):
    """Two abstract results of the same call agree in structure, attributes, content."""
    a = list(J.walk_tensors(got, what))
    b = list(J.walk_tensors(want, what))
    if [p for p, _ in a] != [p for p, _ in b]:
        R.bad(rule, J.S_anchor(R, name), "%s consists of %d tensors where a fresh object returns %d" % (what, len(a), len(b)))
        return
    for (p, x), (_, y) in zip(a, b):
        same_tensor(R, rule, x, y, p, name)


def same_tensor(R, rule, x, y, p, name, vs="a fresh object returns"):
    for attr in ("dtype", "device"):
        g, w = getattr(x, attr), getattr(y, attr)
        if isinstance(g, TopV) or isinstance(w, TopV):
            R.und(rule, "%s of %s not tracked" % (attr, p))
        elif g == w:
            R.ok(rule)
        else:
            R.bad(rule, J.where(R, x, name), "%s of %s is %s where %s %s" % (attr, p, g, vs, w))
    if x.dims is None or y.dims is None:
        R.und(rule, "shape of %s not tracked" % p)
        return
    if len(x.dims) != len(y.dims):
        R.bad(rule, J.where(R, x, name), "%s has %d dimensions where %s %d" % (p, len(x.dims), vs, len(y.dims)))
        return
    differ = False
    for i, (g, w) in enumerate(zip(x.dims, y.dims)):
        k, info = S.compare_len(R.cell, g, w)
        if k == "differ":
            R.bad(rule, J.where(R, x, name), "%s, dimension %d has length %s where %s %s" % (p, i, info[1][0], vs, info[1][1]), info[0])
            differ = True
        elif k == "unknown":
            R.und(rule, "%s: %s" % (p, info))
        else:
            R.ok(rule)
    if differ:
        return
    a, b = S.full_lin(R.I.T.cont(x)), S.full_lin(R.I.T.cont(y))
    if a is None or b is None:
        if x.op is not None and same_op(R.cell, x.op, y.op):
            R.ok(rule)
            return
        R.und(rule, "content of %s not tracked" % p)
        return
    if S.canon_lin(R.cell, a) == S.canon_lin(R.cell, b):
        R.ok(rule)
        return
    k, info = S.compare(R.cell, a, b)
    if k == "same":
        R.ok(rule)
    elif k == "differ":
        env, (ix, key, u, v) = info
        R.bad(rule, J.where(R, x, name), "%s: output %s depends on %s with weight %s where %s %s" % (p, list(ix), key, J.num(u), vs, J.num(v)), env)
    else:
        R.und(rule, "%s: %s" % (p, info))


def same_op(cell, a, b):
    """Two operator terms are equal, lengths compared in the cell."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_op(cell, x, y) for x, y in zip(a, b))
    if is_int(a) and is_int(b):
        return S.compare_len(cell, a, b)[0] == "same"
    return type(a) is type(b) and a == b


# ----- P02: history ----------------------------------------------------------------------------

# ('n', k) is the symbolic length n + k; the earlier and the later call of one history
LENGTHS = {
    1: [([("n", 1)], ["n"]), (["n"], [("n", 1)]), ([("n", 2)], ["n"]), (["n"], [("n", 4)])],
    2: [([("h", 1), "w"], ["h", "w"]), (["h", ("w", 2)], ["h", "w"]), ([("h", 2), "h"], ["h", ("h", 2)]), (["h", "w"], [("h", 2), ("w", 1)]), ([("h", 2), "h"], [("h", 1), ("h", 1)])],
    3: [([("d", 2), "h", "w"], ["d", "h", "w"]), (["d", ("h", 2), "w"], ["d", "h", "w"]), (["d", "h", ("w", 1)], ["d", "h", "w"]), ([("d", 2), "d", "w"], ["d", ("d", 2), "w"])],
}


def show(ds):
    return "x".join(d if isinstance(d, str) else str(d) if isinstance(d, int) else "(%s+%d)" % d for d in ds)


def length_pairs(nd, tier, th=()):
    for i, (p, c) in enumerate(LENGTHS[nd]):
        yield ["b"] + p, ["b"] + c


def others(nd):
    d = C.DIMS[nd]
    return [("nothing", d, d, F32, DEV), ("dtype", d, d, F64, DEV), ("device", d, d, F32, DEV2), ("batch", ["bp"] + d[1:], d, F32, DEV),
            ("length, dtype and device", ["b"] + LENGTHS[nd][0][0], ["b"] + LENGTHS[nd][0][1], F64, DEV2)]


def resolve(cell, dims):
    out = []
    for d in dims:
        if isinstance(d, tuple):
            d = cell.norm(P.add(cell.sym(d[0], 1), d[1]))
        elif isinstance(d, str):
            d = cell.sym(d, 1)
        out.append(d)
    return out


def setup(I, cell, R, t, level, dims, axes, F=None):
    R.opt = {}
    R.srcs = []
    R.extra_dev = DEV
    R.dtype = F32
    C.base(I, cell, R, t, level, resolve(cell, dims), axes, F)


def sized(I, cell, R, name, dims, axes, level, dtype, dev, like=None):
    ds = resolve(cell, dims)
    for a in axes:
        if isinstance(ds[a], Poly) or isinstance(R.F, Poly):
            cell._add_fact(cell.norm(P.sub(ds[a], P.mul(2 ** max((level or 1) - 1, 0), R.F))))
    return tensor(I, name, ds, dtype=dtype, device=dev), ds


NONE_SIZES = {1: [(["b", 5], ["b", 12]), (["b", 16], ["b", 6])], 2: [(["b", 5, 16], ["b", 12, 12]), (["b", 12, 12], ["b", 16, 5])],
              3: [(["b", 5, 8, 8], ["b", 8, 9, 8]), (["b", 8, 8, 8], ["b", 8, 8, 5])]}


def history_dec(prog, tier):
    for tk in ("MatrixWavedec", "MatrixWavedec2-sep", "MatrixWavedec2-nonsep", "MatrixWavedec3"):
        t = S.TRANSFORMS[tk]
        for what, prev, cur, dt, dev in others(t.nd):
            yield _hist_dec(prog, t, 1, what, prev, cur, None, dt, dev)
        for prev, cur in length_pairs(t.nd, tier):
            yield _hist_dec(prog, t, 1, "length", prev, cur, None)
            if t.nd < 3 or tier == "thorough":
                yield _hist_dec(prog, t, 2, "length", prev, cur, None)
        for prev, cur in NONE_SIZES[t.nd]:
            for F in (2, 4):
                yield _hist_dec(prog, t, None, "length (level=None)", prev, cur, F)


def _hist_dec(prog, t, level, change, prev, cur, F, pt=F32, pv=DEV):
    axes = list(range(1, t.nd + 1))

    def body(I, cell, R):
        R.prog = prog
        setup(I, cell, R, t, level, cur, None, F)
        f = prog.get(t.dec)
        kw = dict(t.dec_opts)
        if level is not None:
            kw["level"] = level
        x0, _ = sized(I, cell, R, "x0", prev, axes, level, pt, pv)
        x, R.dims = sized(I, cell, R, "x", cur, axes, level, F32, DEV)
        R.stage = "fresh"
        o1 = I.call(f, [R.w], dict(kw))
        R.want = I.call(o1, [x], {})
        R.op_side, R.op_want = "fwt", None
        if t.nd < 3:
            R.op_want = operator_outcome(I, o1, "fwt")
        R.stage = "earlier"
        o2 = I.call(f, [R.w], dict(kw))
        R.first = I.call(o2, [x0], {})
        R.vers = [(p, v, v.store, v.store.ver) for p, v in J.walk_tensors(R.first, "earlier result")]
        R.stage = "used"
        R.got = I.call(o2, [x], {})
        if R.op_want is not None:
            R.op_got = operator_outcome(I, o2, "fwt")
        R.stage = "done"

    return Sc("%s/level=%s/earlier call differs in %s/%s after %s%s" % (t.key, level, change, show(cur), show(prev), "/F=%s" % F if F else ""), body, judge_history(t.dec, "coefficients"), 400)


def operator_outcome(I, o, side):
    """What the operator property of a transform object answers: ('value', v) or ('raises', name)."""
    try:
        return "value", I.getattr(o, "sparse_%s_operator" % side)
    except AbsRaise as e:
        return "raises", e.name()


def judge_operator(R, name, side):
    got, want = R.op_got, R.op_want
    prop = "%s.sparse_%s_operator" % (name, side)
    if got[0] != want[0] or (got[0] == "raises" and got[1] != want[1]):
        say = lambda o: "raises %s" % o[1] if o[0] == "raises" else "gives a matrix"
        R.bad("history", J.S_anchor(R, name), "%s of a used object %s where that of a fresh object %s" % (prop, say(got), say(want)))
    elif got[0] == "raises":
        R.ok("history")
    else:
        same_result(R, "history", got[1], want[1], prop, name)


def judge_history(name, what):
    def judge(R):
        if R.exc is not None:
            if R.stage in ("used",):
                R.bad("history", "%s raised at %s" % (J.S_anchor(R, name), R.exc.loc), "the call raises %s (%s) on a used object where a fresh object succeeds" % (R.exc.name(), str(R.exc.why)[:100]))
            else:
                R.und("history", "the call raises %s at %s" % (R.exc.name(), R.exc.loc))
            return
        same_result(R, "history", R.got, R.want, what, name)
        if getattr(R, "op_want", None) is not None:
            judge_operator(R, name, R.op_side)
        for p, v, st, ver in getattr(R, "vers", ()):
            if st.ver != ver:
                R.bad("history", J.where(R, v, name), "%s is overwritten by a later call" % p)
            else:
                R.ok("history")

    return judge


def history_rec(prog, tier):
    for tk in ("MatrixWaverec", "MatrixWaverec2-sep", "MatrixWaverec2-nonsep", "MatrixWaverec3"):
        t = S.TRANSFORMS[tk.replace("rec", "dec")]
        same = C.DIMS[t.nd]
        for what, prev, cur, dt, dev in others(t.nd):
            yield _hist_rec(prog, t, 1, 1, what, prev, cur, dt, dev)
        for l0, l1 in ((2, 1), (1, 2), (1, 0), (0, 1)):
            yield _hist_rec(prog, t, l0, l1, "level", same, same)
        for prev, cur in length_pairs(t.nd, tier):
            for l0, l1 in ((1, 1), (2, 1), (1, 2)):
                if t.nd < 3 or (l0, l1) == (1, 1) or tier == "thorough":
                    yield _hist_rec(prog, t, l0, l1, "length", prev, cur)


def _hist_rec(prog, t, l0, l1, change, prev, cur, pt=F32, pv=DEV):
    axes = list(range(1, t.nd + 1))

    def body(I, cell, R):
        R.prog = prog
        setup(I, cell, R, t, max(l0, l1), cur, None)
        R.dtype, R.extra_dev = pt, pv
        ds = resolve(cell, prev)
        for a in axes:
            cell._add_fact(cell.norm(P.sub(ds[a], P.mul(2 ** max(l0 - 1, 0), R.F))))
        R.prefix = "earlier "
        c0 = C.user_coeffs(I, cell, R, t, ds, axes, l0)
        R.prefix = ""
        R.dtype, R.extra_dev = F32, DEV
        c = C.user_coeffs(I, cell, R, t, R.dims, axes, l1)
        f = prog.get(t.rec)
        R.stage = "fresh"
        o1 = I.call(f, [R.w], dict(t.rec_opts))
        R.want = I.call(o1, [c], {})
        R.op_side, R.op_want = "ifwt", None
        if t.nd < 3:
            R.op_want = operator_outcome(I, o1, "ifwt")
        o = I.call(f, [R.w], dict(t.rec_opts))
        R.stage = "earlier"
        R.first = I.call(o, [c0], {})
        R.vers = [(p, v, v.store, v.store.ver) for p, v in J.walk_tensors(R.first, "earlier result")]
        R.stage = "used"
        R.got = I.call(o, [c], {})
        if R.op_want is not None:
            R.op_got = operator_outcome(I, o, "ifwt")
        R.stage = "done"

    return Sc("%s%s/levels %d then %d/earlier call differs in %s/%s after %s" % (t.rec, t.key[len(t.dec):], l0, l1, change, show(cur), show(prev)), body, judge_history(t.rec, "reconstruction"), 400)


def history_packets(prog, tier):
    for nd in (1, 2):
        for mode in ("zero", "boundary"):
            for sep in ((None,) if nd == 1 else (False, True)):
                for what, prev, cur, dt, dev in others(nd):
                    yield _hist_packet(prog, nd, mode, sep, what, prev, cur, dt, dev)
                for i, (prev, cur) in enumerate(length_pairs(nd, tier)):
                    if mode == "boundary" and (tier == "thorough" or nd == 1 or i < 3):
                        yield _hist_packet(prog, nd, mode, sep, "length", prev, cur)


def _hist_packet(prog, nd, mode, sep, change, prev, cur, pt=F32, pv=DEV):
    cls = "WaveletPacket" if nd == 1 else "WaveletPacket2D"
    axes = list(range(1, nd + 1))
    keys = C.packet_keys(nd, 1)

    def body(I, cell, R):
        R.prog = prog
        t = S.TRANSFORMS["MatrixWavedec"]
        t = type("PT", (), {"nd": nd, "kind": "mat", "key": cls, "dec": cls, "rec": cls})
        setup(I, cell, R, t, 1, cur, None)
        x0, _ = sized(I, cell, R, "x0", prev, axes, 1, pt, pv)
        x, R.dims = sized(I, cell, R, "x", cur, axes, 1, F32, DEV)
        kw = {"mode": mode}
        if sep is not None:
            kw["separable"] = sep

        def use(o, z):
            I.call(I.getattr(o, "transform"), [z], {"maxlevel": 1})
            gi = I.getattr(o, "__getitem__")
            r = [I.call(gi, [k], {}) for k in keys]
            I.call(I.getattr(o, "reconstruct"), [], {})
            r.append(I.call(gi, [""], {}))
            return ListV(r)

        f = prog.get(cls)
        R.stage = "fresh"
        R.want = use(I.call(f, [None, R.w], dict(kw)), x)
        o = I.call(f, [None, R.w], dict(kw))
        R.stage = "earlier"
        R.first = use(o, x0)
        R.stage = "used"
        R.got = use(o, x)
        R.stage = "done"

    return Sc("%s/%s%s/earlier transform differs in %s/%s after %s" % (cls, mode, "" if sep is None else "/separable=%s" % sep, change, show(cur), show(prev)), body, judge_history(cls, "nodes and reconstruction"), 300)


# ----- P12: packets ----------------------------------------------------------------------------------

LETTERS2 = {"a": "aa", "h": "da", "v": "ad", "d": "dd"}


def packet_chain(R, key):
    if R.nd == 1:
        return list(key)
    return [LETTERS2[c] for c in key]


def swapped(key):
    return key.translate({104: "v", 118: "h"})


def packet_judge(R):
    cell, I = R.cell, R.I
    if R.exc is not None:
        if R.stage is None or R.stage == "reconstruct":
            R.bad("access", "%s raised at %s" % (J.S_anchor(R, R.entry), R.exc.loc), "a valid access raises %s (%s)" % (R.exc.name(), str(R.exc.why)[:100]))
        else:
            R.und("access", "raises %s" % R.exc.name())
        return
    kind = "mat" if R.mode == "boundary" else "conv"
    for key, v in R.nodes.items():
        if not isinstance(v, TensorV) or v.dims is None:
            R.und("node shape", "node %r is not tracked" % key)
            continue
        want = list(R.dims)
        for a in R.axes:
            want[a] = S.len_chain(cell, kind, R.dims[a], R.F, len(key))
        J.check_dims(R, "node shape", v, want, "node %r" % key)
        lin = S.full_lin(I.T.cont(v))
        if lin is None:
            R.und("node band", "node %r: content not tracked" % key)
            continue
        ch = packet_chain(R, key)
        if kind == "mat" and R.nd == 2:
            t = S.TRANSFORMS["MatrixWavedec2-sep" if R.sep else "MatrixWavedec2-nonsep"]
        else:
            t = S.TRANSFORMS["MatrixWavedec" if kind == "mat" else "wavedec"]
        if not key:
            spec = {("x", tuple(("ax", "x.%d" % i, n) for i, n in enumerate(R.dims))): 1}
        elif kind == "mat":
            spec = packet_mat(cell, t, R, ch)
        else:
            spec = S.content(cell, t, "x", R.axes, R.dims, ch, R.F, R.mode, getattr(R, "method", "qr"))
        if kind == "mat" and R.nd == 2 and R.sep and swapped(key) != key and lin != spec:
            if lin == packet_mat(cell, t, R, packet_chain(R, swapped(key))):
                R.bad("node names", J.where(R, v, R.entry), "node %r of the separable boundary tree holds the band of %r" % (key, swapped(key)))
                continue
        if lin != spec and len(lin) == 1:
            # a definite statement about the band before comparing operators
            (src, ls), _ = next(iter(lin.items()))
            got = J.chains(cell, ls, R.axes, t.key == S.NONSEP) if src == "x" else None
            if got is not None and got != ch:
                R.bad("node band", J.where(R, v, R.entry), "node %r holds the band %s where %s is specified" % (key, "/".join(got) or "none", "/".join(ch) or "none"))
                continue
        judge(R, "node band", lin, spec, "node %r" % key, v)
    if R.y is None:
        return
    if not isinstance(R.y, TensorV):
        R.und("tree reconstruction", "not tracked")
        return
    want = list(R.dims)
    if R.level:
        for a in R.axes:
            want[a] = cell.norm(P.mul(2, cell.floordiv(P.add(want[a], 1), 2)))
    J.check_dims(R, "tree reconstruction", R.y, want, "the reconstructed root")
    lin = S.full_lin(I.T.cont(R.y))
    lin = J.crop(cell, lin, R.axes, R.dims) if lin is not None and R.y.dims is not None and len(R.y.dims) == len(R.dims) else None
    if lin is None:
        R.und("tree reconstruction", "content not tracked")
    else:
        w = {("x", tuple(("ax", "x.%d" % i, n) for i, n in enumerate(R.dims))): 1}
        J.judge_lin(R, "tree reconstruction", lin, w, "the reconstructed root on the support of x", R.y, bank="pr", name=R.entry)


def judge(R, rule, lin, spec, what, v):
    J.judge_lin(R, rule, lin, spec, what, v, name=R.entry)


def packet_mat(cell, t, R, ch):
    return S.content(cell, t, "x", R.axes, R.dims, ch, R.F, R.mode, getattr(R, "method", "qr"))


def packets(prog, tier):
    for c in C.packet_cases():
        if c.thorough and tier != "thorough":
            continue
        yield C.scenario(prog, c, packet_judge)
        if "/maxlevel=1/" in c.name and ("/zero/" in c.name or "/boundary/" in c.name):
            yield C.scenario(prog, c, packet_judge, strided=True)
    yield from packet_errors(prog, tier)
    yield from packet_maxlevel(prog, tier)
    yield from packet_maxlevel_again(prog, tier)
    yield from packet_edit(prog, tier)


class Expect:
    """A call that must raise one of the named exceptions (or succeed: names empty)."""

    def __init__(self, id, run, names, what, entry):
        self.id, self.run, self.names, self.what, self.entry = id, run, names, what, entry


def expect_sc(prog, e, rule="argument check"):
    def body(I, cell, R):
        R.prog = prog
        R.opt = {}
        R.dtype, R.extra_dev = F32, DEV
        R.srcs = []
        R.ready = False
        e.run(I, cell, R, prog)

    def judge(R):
        if not R.ready:
            R.und(rule, "the scenario could not be set up: %s" % (R.exc and (R.exc.name(), R.exc.loc),))
            return
        if R.exc is None:
            if e.names:
                R.bad(rule, J.S_anchor(R, e.entry), "%s is accepted where %s is documented" % (e.what, "/".join(e.names)))
            else:
                R.ok(rule)
        elif not e.names:
            R.bad(rule, "%s raised at %s" % (J.S_anchor(R, e.entry), R.exc.loc), "%s raises %s (%s)" % (e.what, R.exc.name(), str(R.exc.why)[:80]))
        elif R.exc.name() in e.names:
            R.ok(rule)
        else:
            R.bad(rule, "%s raised at %s" % (J.S_anchor(R, e.entry), R.exc.loc), "%s raises %s where %s is documented" % (e.what, R.exc.name(), "/".join(e.names)))

    return Sc(e.id, body, judge, 600)


def simple_packet(I, cell, R, prog, nd, level=2, mode="zero", transform=True, pre=True, **kw):
    filt(cell, kw.pop("F", None))
    R.F = cell.filt_len
    dims = kw.pop("dims", None) or C.DIMS[nd]
    ds = [cell.sym(d, 1) if isinstance(d, str) else d for d in dims]
    if pre:
        for d in ds[1:]:
            if isinstance(d, Poly) or isinstance(R.F, Poly):
                cell._add_fact(cell.norm(P.sub(d, P.mul(2 ** max(level - 1, 0), R.F))))
    R.x = tensor(I, "x", ds)
    R.dims = ds
    R.axes = list(range(1, nd + 1))
    w = make_wavelet(I, owner="argument 'wavelet'")
    cls = "WaveletPacket" if nd == 1 else "WaveletPacket2D"
    R.entry = cls
    k = dict(mode=mode, **kw)
    if level is not None and transform:
        k["maxlevel"] = level
    return I.call(prog.get(cls), [R.x if transform else None, w], k)


def packet_errors(prog, tier):
    for nd in (1, 2):
        cls = "WaveletPacket" if nd == 1 else "WaveletPacket2D"
        for mode in ("zero", "boundary"):
            def mkrun(key, acts=(), transform=True, nd=nd, mode=mode):
                def run(I, cell, R, prog):
                    o = simple_packet(I, cell, R, prog, nd, 2, mode, transform)
                    gi = I.getattr(o, "__getitem__")
                    for a in acts:
                        if isinstance(a, str):
                            I.call(gi, [a], {})
                        else:
                            a(I, o)
                    R.ready = True
                    if key == "reconstruct()":
                        I.call(I.getattr(o, "reconstruct"), [], {})
                    else:
                        I.call(gi, [key], {})
                return run

            pre = "%s/%s: " % (cls, mode)
            E = lambda n, key, names, what, **k: expect_sc(prog, Expect(pre + n, mkrun(key, **k), names, what, cls), "tree access")
            yield E("level beyond maxlevel", "aaa", ("KeyError",), "a node below the deepest level")
            yield E("level beyond maxlevel after use", "aad", ("KeyError",), "a node below the deepest level", acts=("aa", "ad"))
            yield E("invalid letter", "x", ("ValueError",), "a key with an invalid letter")
            yield E("invalid last letter", "ax", ("ValueError",), "a key with an invalid letter")
            yield E("access before transform", "a", ("ValueError",), "access before transform()", transform=False)
            yield E("root before transform", "", ("ValueError",), "access before transform()", transform=False)
            yield E("incomplete tree", "reconstruct()", ("KeyError",), "reconstruct() of a tree whose leaves were never computed")
            yield E("partly expanded tree", "reconstruct()", ("KeyError",), "reconstruct() of a tree with missing leaves", acts=("aa",))
            yield E("valid leaf", "aa", (), "access of a leaf")
            yield E("valid inner node", "d", (), "access of an inner node")
            full = tuple(C.packet_keys(nd, 2)[::len("ad" if nd == 1 else "ahvd")])
            yield E("reconstruct complete tree", "reconstruct()", (), "reconstruct() of a complete tree", acts=full)
            yield E("initialize", "reconstruct()", (), "reconstruct() after initialize()", acts=(lambda I, o, nd=nd: I.call(I.getattr(o, "initialize"), [ListV(C.packet_keys(nd, 2))], {}),))
    for nd in (1, 2):
        cls = "WaveletPacket" if nd == 1 else "WaveletPacket2D"

        def run(I, cell, R, prog, nd=nd):
            cls = prog.get("WaveletPacket" if nd == 1 else "WaveletPacket2D")
            R.ready = True
            I.call(I.getattr(cls, "get_level"), [2], {"order": "no such order"})

        yield expect_sc(prog, Expect("%s.get_level: unknown order" % cls, run, ("ValueError",), "an unknown node order", cls), "tree access")

        def run2(I, cell, R, prog, nd=nd):
            R.ready = True
            simple_packet(I, cell, R, prog, nd, 1, "boundary", orthogonalization="no such method")

        yield expect_sc(prog, Expect("%s: unknown orthogonalization" % cls, run2, ("NotImplementedError",), "an unknown orthogonalization", cls), "tree access")


def dwt_max_level(n, F):
    l = 0
    while n >= (F - 1) * 2 ** (l + 1):
        l += 1
    return l


def packet_maxlevel(prog, tier):
    """maxlevel=None uses the deepest useful level of the (shortest) transformed axis."""
    for nd in (1, 2):
        cls = "WaveletPacket" if nd == 1 else "WaveletPacket2D"
        sizes = [(["b", n], None) for n in (1, 2, 5, 9, 16)] + [([n, 3], 0) for n in (9, 16)] if nd == 1 else \
            [(["b", h, w], None) for h, w in ((5, 9), (9, 5), (16, 7), (1, 4), (12, 12))] + [([9, 1, 5], (0, 2)), ([5, 1, 9], (2, 0))]
        for F in (2, 4, 6):
            for dims, axes in sizes:
                def body(I, cell, R, nd=nd, dims=dims, F=F, axes=axes):
                    R.prog = prog
                    kw = {}
                    if axes is not None:
                        kw["axis" if nd == 1 else "axes"] = ax_arg(axes)
                    R.o = simple_packet(I, cell, R, prog, nd, None, "zero", F=F, dims=dims, pre=False, **kw)

                def judge(R, nd=nd, dims=dims, F=F, cls=cls, axes=axes):
                    if R.exc is not None:
                        R.bad("maxlevel", "%s raised at %s" % (J.S_anchor(R, cls), R.exc.loc), "construction raises %s" % R.exc.name())
                        return
                    ml = R.I.getattr(R.o, "maxlevel")
                    ax = list(range(len(dims) - nd, len(dims))) if axes is None else ([axes] if isinstance(axes, int) else axes)
                    want = dwt_max_level(min(dims[a] for a in ax), F)
                    if not isinstance(ml, int):
                        R.und("maxlevel", "not tracked")
                    elif ml == want:
                        R.ok("maxlevel")
                    else:
                        R.bad("maxlevel", J.S_anchor(R, cls), "maxlevel=None selects %s levels where %s are useful" % (ml, want))

                yield Sc("%s/maxlevel=None/%s%s/F=%d" % (cls, "x".join(map(str, dims)), "" if axes is None else "/axes=%s" % (axes,), F), body, judge, 40)


def packet_maxlevel_again(prog, tier):
    """transform() without maxlevel uses the deepest useful level of the data it is given, whatever the tree held before."""
    for nd in (1, 2):
        cls = "WaveletPacket" if nd == 1 else "WaveletPacket2D"
        big, small = (["b", 16], ["b", 5]) if nd == 1 else (["b", 16, 17], ["b", 9, 5])
        for before in ("explicit 1", "explicit 4", "default", "no data", "explicit in an earlier transform"):
            for dims, other in ((big, small), (small, big)):
                def body(I, cell, R, nd=nd, dims=dims, other=other, before=before):
                    R.prog = prog
                    lvl = int(before[-1]) if before[:9] == "explicit " and before[-1].isdigit() else None
                    R.o = simple_packet(I, cell, R, prog, nd, lvl, "zero", F=2, dims=other, pre=False, transform=before != "no data")
                    tr = I.getattr(R.o, "transform")
                    if before == "explicit in an earlier transform":
                        I.call(tr, [tensor(I, "u", [cell.sym(d, 1) if isinstance(d, str) else d for d in other])], {"maxlevel": 1})
                    R.ready = True
                    I.call(tr, [tensor(I, "w", [cell.sym(d, 1) if isinstance(d, str) else d for d in dims])], {})

                def judge(R, dims=dims, cls=cls, nd=nd, before=before):
                    if R.exc is not None:
                        R.bad("maxlevel", "%s raised at %s" % (J.S_anchor(R, cls), R.exc.loc), "transform() of new data raises %s" % R.exc.name())
                        return
                    ml = R.I.getattr(R.o, "maxlevel")
                    want = dwt_max_level(min(dims[-nd:]), 2)
                    if not isinstance(ml, int):
                        R.und("maxlevel", "not tracked")
                    elif ml == want:
                        R.ok("maxlevel")
                    else:
                        R.bad("maxlevel", J.S_anchor(R, cls), "transform(data) of a tree built before (%s) selects %s levels where %s are useful" % (before, ml, want))

                yield Sc("%s/maxlevel=None again/%s/%s" % (cls, before, "x".join(map(str, dims))), body, judge, 40)


def packet_edit(prog, tier):
    """A node replaced by the caller is what reconstruct() uses; expansion is lazy and cached."""
    for nd in (1, 2):
        for mode in ("zero", "boundary"):
            for sep in ((None,) if nd == 1 else (False, True)):
                cls = "WaveletPacket" if nd == 1 else "WaveletPacket2D"

                def body(I, cell, R, nd=nd, mode=mode, sep=sep):
                    R.prog = prog
                    kw = {} if sep is None else {"separable": sep}
                    o = simple_packet(I, cell, R, prog, nd, 1, mode, **kw)
                    gi, si = I.getattr(o, "__getitem__"), I.getattr(o, "__setitem__")
                    keys = C.packet_keys(nd, 1)
                    R.nodes = {k: I.call(gi, [k], {}) for k in keys}
                    last = keys[-1]
                    R.new = tensor(I, "edit", list(R.nodes[last].dims))
                    I.call(si, [last, R.new], {})
                    R.back = I.call(gi, [last], {})
                    I.call(I.getattr(o, "reconstruct"), [], {})
                    R.y = I.call(gi, [""], {})
                    R.again = {k: I.call(gi, [k], {}) for k in keys}

                def judge(R, cls=cls):
                    if R.exc is not None:
                        R.bad("edited node", "%s raised at %s" % (J.S_anchor(R, cls), R.exc.loc), "valid use raises %s" % R.exc.name())
                        return
                    if R.back is R.new:
                        R.ok("edited node")
                    else:
                        R.bad("edited node", J.S_anchor(R, cls), "a node set by the caller is not returned by the tree")
                    if "edit" in R.y.d:
                        R.ok("edited node")
                    else:
                        R.bad("edited node", J.where(R, R.y, cls), "reconstruct() ignores a node set by the caller")
                    if "x" in R.y.d:
                        R.ok("edited node")
                    else:
                        R.bad("edited node", J.where(R, R.y, cls), "reconstruct() ignores the computed nodes")
                    for k, v in R.nodes.items():
                        w = R.again[k]
                        if k == list(R.nodes)[-1]:
                            continue
                        if w is v:
                            R.ok("edited node")
                        else:
                            same_tensor(R, "edited node", w, v, "node %r after reconstruct()" % k, cls, "before it was")

                yield Sc("%s/%s%s/edited node" % (cls, mode, "" if sep is None else "/separable=%s" % sep), body, judge, 100)


# ----- P22: node orders -------------------------------------------------------------------------------

def gray(level, a, d):
    o = [""]
    for _ in range(level):
        o = [a + p for p in o] + [d + p for p in reversed(o)]
    return o


def spec_level(nd, level, order):
    al = "ad" if nd == 1 else "ahvd"
    if order == "natural":
        return ["".join(p) for p in itertools.product(al, repeat=level)]
    if nd == 1:
        return gray(level, "a", "d")
    comb = {("l", "l"): "a", ("l", "h"): "v", ("h", "l"): "h", ("h", "h"): "d"}
    g = gray(level, "l", "h")
    return [["".join(comb[(x, y)] for x, y in zip(r, c)) for c in g] for r in g]


def pyval(v):
    if isinstance(v, (ListV, TupV)):
        if v.star is not None:
            return None
        return [pyval(x) for x in v.items]
    return v


def node_orders(prog, tier):
    top = 6 if tier == "quick" else 8
    for nd in (1, 2):
        cls = "WaveletPacket" if nd == 1 else "WaveletPacket2D"
        for order in ("freq", "natural", None):
            for level in range(0 if nd == 1 or order == "natural" else 1, (top if nd == 1 else top // 2 + 1)):
                def body(I, cell, R, cls=cls, order=order, level=level):
                    R.prog = prog
                    c = prog.get(cls)
                    R.got = I.call(I.getattr(c, "get_level"), [level], {} if order is None else {"order": order})

                def judge(R, nd=nd, order=order, level=level, cls=cls):
                    name = "%s.get_level" % cls
                    if R.exc is not None:
                        R.bad("node order", "%s raised at %s" % (J.S_anchor(R, cls), R.exc.loc), "%s(%d) raises %s" % (name, level, R.exc.name()))
                        return
                    got = pyval(R.got)
                    want = spec_level(nd, level, order or "freq")
                    if got == want:
                        R.ok("node order")
                    elif "?" in repr(got) or "TopV" in repr(got) or "Top" in repr(got) or got is None:
                        R.und("node order", "not tracked: %s" % repr(got)[:80])
                    else:
                        R.verdicts.append(("bad", "node order", J.S_anchor(R, cls), "%s(%d, %r) is %s where %s is specified" % (name, level, order or "freq", str(got)[:200], str(want)[:200])))

                yield Sc("%s.get_level(%d, %s)" % (cls, level, order), body, judge, 5)

                if level < 1 or level > 3:
                    continue

                def again(I, cell, R, cls=cls, order=order, level=level):
                    """The caller edits what an earlier call returned; lower and higher levels are asked for in between."""
                    R.prog = prog
                    g = I.getattr(prog.get(cls), "get_level")
                    kw = {} if order is None else {"order": order}
                    r = I.call(g, [level], dict(kw))
                    for x in (list(r.items) if isinstance(r, ListV) else []) + [r]:
                        if isinstance(x, ListV):
                            I.call(I.getattr(x, "reverse"), [], {})
                            I.call(I.getattr(x, "pop"), [], {})
                    for lv, o2 in ((level + 1, "natural"), (level, "freq"), (level - 1, "natural")):
                        if lv:
                            I.call(g, [lv], {"order": o2})
                    R.got = I.call(g, [level], dict(kw))

                yield Sc("%s.get_level(%d, %s)/after the caller edited an earlier result" % (cls, level, order), again, judge, 5)
