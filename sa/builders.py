"""The sparse matrix builders, analysed with exact entries at enumerated sizes."""

from __future__ import annotations

import itertools
import math

from . import expr as E
from . import judge as J
from . import poly as P
from .calls import put
from .exact import Dn, Sp, densify, entries, exact_tensor
from .harness import *
from .models_torch import BOOL, CPU, LONG
from .scen import Sc, anchor
from .xnum import XNumpy, XPywt, XTorchN

_PROG = {}


def exact_program():
    if "p" not in _PROG:
        _PROG["p"] = Program(summaries={}, torch=XTorchN(), numpy=(XNumpy(), XPywt()))
    return _PROG["p"]


class BSc(Sc):
    """Scenario of the exact analysis (its own program, without summaries)."""

    def __init__(self, case, judge, keep=(), **opt):
        prog = exact_program()

        def body(I, cell, R):
            R.prog = prog
            R.out, R.srcs, R.opt = [], [], opt
            R.entry = case.entry
            R.dtype = opt.get("dtype", F32)
            I.dflt = opt.get("default", F32)
            R.extra_dev = opt.get("device", DEV)
            R.want = []
            case.run(I, cell, R)
            R.stage = "done"

        inner = judge
        if keep is not None:
            def judge(R):
                R.verdicts[:] = [v for v in R.verdicts if v[1] in keep]
                inner(R)

        super().__init__("%s%s" % (case.name, "".join("/%s=%s" % (k, getattr(v, "name", v)) for k, v in sorted(opt.items()))), body, judge, 20)
        self.prog = prog


class BCase:
    def __init__(self, name, entry, run, thorough=False):
        self.name, self.entry, self.run, self.thorough = name, entry, run, thorough


# ----- abstract arguments ------------------------------------------------------------------------

def taps(I, R, name, shape, dtype=None):
    t = tensor(I, name, list(shape), dtype=dtype or R.dtype, device=R.extra_dev, grad=False)
    R.srcs.append(name)
    return exact_tensor(I, t, name)


def sparse_arg(I, R, name, shape, ents, dtype=None, coalesced=True):
    """A caller-owned sparse matrix with given entries."""
    t = tensor(I, name, list(shape), dtype=dtype or R.dtype, device=R.extra_dev, grad=False)
    t.cont = None
    t.layout = "sparse"
    t.idt = LONG
    t.ex = Sp(shape, ents)
    if not coalesced:
        # every entry twice: the values of equal positions add up
        t.ex = Sp(shape, [(k, E.mul(E.num(Fraction(c, 3)), v)) for c in (2, 1) for k, v in reversed(ents)])
        t.ex.loose = True
    R.srcs.append(name)
    return t


def opaque(name, shape, keys):
    return [(k, E.atom("in", name, k)) for k in keys]


def named(name, *ix):
    return E.atom("in", name, tuple(ix))


# ----- judging ---------------------------------------------------------------------------------------

def same_matrix(R, rule, got, shape, want, what):
    """got: tensor; want: {index: scalar} of the non-zero entries."""
    where = J.where(R, got, R.entry) if isinstance(got, TensorV) else J.S_anchor(R, R.entry)
    if not isinstance(got, TensorV):
        R.und(rule, "%s: no tensor returned" % what)
        return
    e = got.ex
    if e is None:
        R.und(rule, "%s: entries not tracked" % what)
        return
    if tuple(e.shape) != tuple(shape):
        R.bad("size", where, "%s has the shape %s where %s is documented" % (what, list(e.shape), list(shape)), {})
        return
    R.ok("size")
    try:
        g = entries(e)
    except Exception:
        R.und(rule, "%s: entries not tracked" % what)
        return
    for k in sorted(set(g) | set(want)):
        a, b = g.get(k, 0), want.get(k, 0)
        q = E.equal(a, b)
        if q is None:
            R.und(rule, "%s: entry %s" % (what, list(k)))
        elif not q:
            R.bad(rule, where, "%s: entry %s is %s where the documented operator has %s" % (what, list(k), E.show(a), E.show(b)), {})
            return
    R.ok(rule)


def conv_entries(f, n, mode):
    """(rows, {(row, col): tap}) of the 1-D convolution matrix; f: list of scalars."""
    F = len(f)
    lo, rows = {"full": (0, n + F - 1), "valid": (F - 1, n - F + 1), "same": ((F - 1) // 2, n), "sameshift": ((F - 1) // 2, n)}[mode]
    return rows, {(r, c): f[r + lo - c] for r in range(rows) for c in range(n) if 0 <= r + lo - c < F}


def stride_rows(rows, ent, s, mode):
    st = 1 if mode == "sameshift" else 0
    sel = list(range(st, rows, s))
    return len(sel), {(i, c): v for i, r in enumerate(sel) for (q, c), v in ent.items() if q == r}


def conv2_entries(f, h, w, mode, stride=None):
    """2-D convolution of column-major flattened images; f: dict (i, j) -> scalar, shape (A, B)."""
    A, B = 1 + max(i for i, _ in f), 1 + max(j for _, j in f)
    lo = {"full": lambda F: 0, "valid": lambda F: F - 1, "same": lambda F: (F - 1) // 2, "sameshift": lambda F: (F - 1) // 2}[mode]
    num = {"full": lambda n, F: n + F - 1, "valid": lambda n, F: n - F + 1, "same": lambda n, F: n, "sameshift": lambda n, F: n}[mode]
    oh, ow = num(h, A), num(w, B)
    st = 1 if mode == "sameshift" and stride else 0
    rs, cs = list(range(st, oh, stride or 1)), list(range(st, ow, stride or 1))
    ent = {}
    for q, oc in enumerate(cs):
        for p, orow in enumerate(rs):
            for (i, j), v in f.items():
                r, c = orow + lo(A) - i, oc + lo(B) - j
                if 0 <= r < h and 0 <= c < w:
                    ent[(q * len(rs) + p, c * h + r)] = v
    return (len(rs) * len(cs), h * w), ent


MODES = ("full", "valid", "same", "sameshift")


def conv_cases():
    out = []

    def conv(F, n, mode, th):
        def run(I, cell, R):
            f = taps(I, R, "filter", (F,))
            r = I.call(R.prog.get("sparse_math.construct_conv_matrix"), [f, n], {"mode": mode})
            put(I, R, r, "matrix")
            rows, ent = conv_entries([named("filter", i) for i in range(F)], n, mode)
            same_matrix(R, "convolution matrix", r, (rows, n), ent, "construct_conv_matrix")

        out.append(BCase("construct_conv_matrix/%s/F=%d/n=%d" % (mode, F, n), "sparse_math.construct_conv_matrix", run, th))

    def strided(F, n, s, mode, th):
        def run(I, cell, R):
            f = taps(I, R, "filter", (F,))
            a = [f, n] + ([] if s is None else [s])
            r = I.call(R.prog.get("sparse_math.construct_strided_conv_matrix"), a, {"mode": mode})
            put(I, R, r, "matrix")
            rows, ent = conv_entries([named("filter", i) for i in range(F)], n, mode)
            rows, ent = stride_rows(rows, ent, s or 2, mode)
            same_matrix(R, "strided convolution matrix", r, (rows, n), ent, "construct_strided_conv_matrix")

        out.append(BCase("construct_strided_conv_matrix/%s/F=%d/n=%d/stride=%s" % (mode, F, n, s), "sparse_math.construct_strided_conv_matrix", run, th))

    def conv2(A, B, h, w, mode, s, th, fs=None):
        nm = "construct_strided_conv2d_matrix" if s else "construct_conv2d_matrix"

        def run(I, cell, R):
            f = taps(I, R, "filter", (A, B))
            k = {"mode": mode}
            if fs is not None:
                k["fully_sparse"] = fs
            a = [f, h, w] + ([s] if s and s > 0 else [])
            r = I.call(R.prog.get("sparse_math." + nm), a, k)
            put(I, R, r, "matrix")
            shape, ent = conv2_entries({(i, j): named("filter", i, j) for i in range(A) for j in range(B)}, h, w, mode, abs(s) if s else None)
            same_matrix(R, "2d convolution matrix", r, shape, ent, nm)

        out.append(BCase("%s/%s/%dx%d/%dx%d/stride=%s%s" % (nm, mode, A, B, h, w, s, "" if fs is None else "/fully_sparse=%s" % fs), "sparse_math." + nm, run, th))

    for m in MODES:
        for F in (1, 2, 3, 4, 5, 6, 8):
            for n in (1, 2, 3, 4, 5, 7, 8, 12):
                if m == "valid" and n < F:
                    continue
                conv(F, n, m, F in (1, 8) and n > 4)
        for F in (2, 3, 4, 6, 8):
            for n in (4, 5, 6, 7, 8, 9, 12):
                for s in (None, 1, 3):
                    if m == "valid" and n < F or m == "sameshift" and n < 2:
                        continue
                    strided(F, n, s, m, s is not None and (F > 4 or n > 7))
        for (A, B), (h, w) in itertools.product(((2, 2), (3, 3), (3, 2), (2, 4), (4, 4), (1, 3)), ((4, 4), (5, 6), (7, 4), (4, 9), (6, 6))):
            th = (A, B) == (4, 4) and (h, w) != (4, 9) or (A, B) == (1, 3) and (h, w) not in ((5, 6),)
            conv2(A, B, h, w, m, None, th)
            conv2(A, B, h, w, m, 2, th or (h, w) == (6, 6))
        if m != "valid":
            for A, B, h, w in ((4, 4, 5, 1), (4, 4, 1, 5), (6, 6, 4, 2), (6, 6, 2, 4)):
                conv2(A, B, h, w, m, None, A == 6)
        conv2(3, 2, 5, 4, m, 3, False)
        conv2(2, 3, 4, 5, m, 1, False)
        conv2(3, 2, 5, 4, m, None, False, False)
        conv2(2, 3, 4, 5, m, None, False, False)
        conv2(3, 2, 5, 4, m, None, True, True)
    return out


# ----- small helpers of sparse_math ---------------------------------------------------------------------

def keys(shape, pat):
    """A few sparsity patterns."""
    ks = list(itertools.product(*map(range, shape)))
    if pat == "full":
        return ks
    if pat == "diag":
        return [k for k in ks if k[0] == k[1]]
    if pat == "sparse":
        return [k for k in ks if (3 * k[0] + 5 * k[1] + 1) % 4 == 0]
    if pat == "row":
        return [k for k in ks if k[0] == 0]
    if pat == "lastempty":
        return [k for k in ks if k[0] < shape[0] - 1 and k[1] < shape[1] - 1]
    return []


def helper_cases():
    out = []

    def kron(sa, pa, sb, pb, fn, unsorted=False, th=False, ca=True, cb=True):
        def run(I, cell, R):
            ka, kb = keys(sa, pa), keys(sb, pb)
            a = sparse_arg(I, R, "a", sa, opaque("a", sa, ka[::-1] if unsorted else ka), coalesced=ca)
            b = sparse_arg(I, R, "b", sb, opaque("b", sb, kb[::-1] if unsorted else kb), coalesced=cb)
            r = I.call(R.prog.get("sparse_math." + fn), [a, b], {})
            put(I, R, r, "product")
            ent = {(i * sb[0] + p, j * sb[1] + q): E.mul(named("a", i, j), named("b", p, q)) for i, j in ka for p, q in kb}
            same_matrix(R, "kronecker product", r, (sa[0] * sb[0], sa[1] * sb[1]), ent, fn)

        out.append(BCase("%s/%s%s/%s%s%s%s" % (fn, sa, pa, sb, pb, "/unsorted" if unsorted else "", "" if ca and cb else "/uncoalesced %s" % ("ab" if not (ca or cb) else "b" if ca else "a")), "sparse_math." + fn, run, th))

    for sa, sb in (((2, 2), (2, 2)), ((1, 3), (2, 2)), ((2, 3), (4, 1)), ((3, 2), (2, 5))):
        for pa, pb in (("full", "full"), ("sparse", "full"), ("full", "lastempty"), ("diag", "sparse"), ("none", "full"), ("full", "none"), ("row", "row")):
            kron(sa, pa, sb, pb, "sparse_kron")
    kron((2, 3), "full", (3, 2), "sparse", "sparse_kron", True)
    for ca, cb in ((False, True), (True, False), (False, False)):
        kron((2, 3), "full", (3, 2), "sparse", "sparse_kron", ca=ca, cb=cb)
        kron((2, 2), "sparse", (1, 3), "full", "_dense_kron", ca=ca, cb=cb)
    kron((2, 3), "full", (3, 2), "sparse", "_dense_kron")
    kron((2, 2), "sparse", (1, 3), "full", "_dense_kron")

    def catid(n, pat, new, co=True):
        def run(I, cell, R):
            ks = keys((n, n), pat)
            m = sparse_arg(I, R, "m", (n, n), opaque("m", (n, n), ks), coalesced=co)
            r = I.call(R.prog.get("sparse_math.cat_sparse_identity_matrix"), [m, new], {})
            put(I, R, r, "matrix")
            ent = {k: named("m", *k) for k in ks}
            ent.update({(i, i): 1 for i in range(n, new)})
            same_matrix(R, "identity extension", r, (new, new), ent, "cat_sparse_identity_matrix")

        out.append(BCase("cat_sparse_identity_matrix/%d%s/%d%s" % (n, pat, new, "" if co else "/uncoalesced"), "sparse_math.cat_sparse_identity_matrix", run))

    for n, pat, new in ((2, "full", 2), (2, "full", 3), (3, "sparse", 7), (4, "diag", 9), (1, "full", 5), (3, "lastempty", 4), (2, "none", 6)):
        catid(n, pat, new)
    catid(3, "sparse", 7, False)
    catid(2, "full", 2, False)

    def diag(n, off, rows, cols):
        def run(I, cell, R):
            d = taps(I, R, "d", (n,))
            r = I.call(R.prog.get("sparse_math.sparse_diag"), [d, off, rows, cols], {})
            put(I, R, r, "matrix")
            ent = {}
            for i in range(n):
                p, q = (i, i + off) if off >= 0 else (i - off, i)
                if p < rows and q < cols:
                    ent[(p, q)] = named("d", i)
            same_matrix(R, "diagonal matrix", r, (rows, cols), ent, "sparse_diag")

        out.append(BCase("sparse_diag/%d/offset=%d/%dx%d" % (n, off, rows, cols), "sparse_math.sparse_diag", run))

    for off in (-3, -2, -1, 0, 1, 2, 3):
        for n, rows, cols in ((3, 3, 3), (4, 4, 6), (4, 6, 4), (5, 3, 4), (2, 6, 5)):
            diag(n, off, rows, cols)

    def replace(h, w, pat, row, rp, co=True):
        def run(I, cell, R):
            ks = keys((h, w), pat)
            m = sparse_arg(I, R, "m", (h, w), opaque("m", (h, w), ks), coalesced=co)
            rk = keys((1, w), rp)
            v = sparse_arg(I, R, "row", (1, w), opaque("row", (1, w), rk), coalesced=co)
            r = I.call(R.prog.get("sparse_math.sparse_replace_row"), [m, row, v], {})
            put(I, R, r, "matrix")
            ent = {k: named("m", *k) for k in ks if k[0] != row}
            ent.update({(row, k[1]): named("row", *k) for k in rk})
            same_matrix(R, "row replacement", r, (h, w), ent, "sparse_replace_row")

        out.append(BCase("sparse_replace_row/%dx%d%s/%d%s%s" % (h, w, pat, row, rp, "" if co else "/uncoalesced"), "sparse_math.sparse_replace_row", run))

    for h, w in ((3, 3), (4, 4), (3, 4), (5, 3)):
        for row in (0, 1, h - 1):
            replace(h, w, "full", row, "sparse")
            replace(h, w, "sparse", row, "full")
            replace(h, w, "sparse", row, "full", False)

    def bmm(m, n, b, k, sp):
        def run(I, cell, R):
            ks = keys((m, n), "sparse" if sp else "full")
            a = sparse_arg(I, R, "m", (m, n), opaque("m", (m, n), ks))
            x = taps(I, R, "x", (b, n, k))
            r = I.call(R.prog.get("sparse_math.batch_mm"), [a, x], {})
            put(I, R, r, "product")
            ent = {}
            for q in range(b):
                for i, j in ks:
                    for c in range(k):
                        ent[(q, i, c)] = E.add(ent.get((q, i, c), 0), E.mul(named("m", i, j), named("x", q, j, c)))
            same_matrix(R, "batched product", r, (b, m, k), ent, "batch_mm")

        out.append(BCase("batch_mm/%dx%d/%dx%dx%d" % (m, n, b, n, k), "sparse_math.batch_mm", run))

    for m, n, b, k in ((2, 3, 1, 1), (2, 3, 2, 4), (4, 2, 3, 1), (3, 3, 2, 2)):
        bmm(m, n, b, k, n == 3)

    def bdm(m, n, shape, dim):
        def run(I, cell, R):
            ks = keys((m, n), "full")
            a = sparse_arg(I, R, "m", (m, n), opaque("m", (m, n), ks))
            x = taps(I, R, "x", shape)
            r = I.call(R.prog.get("sparse_math._batch_dim_mm"), [a, x], {"dim": dim})
            put(I, R, r, "product")
            d = dim % len(shape)
            sh = shape[:d] + (m,) + shape[d + 1:]
            ent = {}
            for ix in itertools.product(*map(range, sh)):
                s = 0
                for j in range(n):
                    s = E.add(s, E.mul(named("m", ix[d], j), named("x", *(ix[:d] + (j,) + ix[d + 1:]))))
                ent[ix] = s
            same_matrix(R, "product along a dimension", r, sh, ent, "_batch_dim_mm")

        out.append(BCase("_batch_dim_mm/%dx%d/%s/dim=%d" % (m, n, shape, dim), "sparse_math._batch_dim_mm", run))

    for dim in (0, 1, 2, 3, -1, -2, -3):
        sh = [2, 3, 2, 1]
        n = sh[dim]
        bdm(3 if n != 3 else 2, n, tuple(sh), dim)
    return out


# ----- boundary matrices ------------------------------------------------------------------------------

# zero taps as in bior2.2
ZEROS = {"dec_lo": (0,), "dec_hi": (0, 4, 5), "rec_lo": (0, 4, 5), "rec_hi": (0,)}


def filters(I, R, F, orth, zeros=None):
    """The wavelet argument and its decomposition / flipped reconstruction filters."""
    cell = I.cell
    filt(cell, F)
    R.F = F
    w = make_wavelet(I, owner="argument 'wavelet'")
    I.zero_taps = z = zeros or {}
    tap = lambda s, i: 0 if i in z.get(s, ()) else E.atom("tap", s, i)
    d = [[tap(s, i) for i in range(F)] for s in ("dec_lo", "dec_hi")]
    if orth:
        w.attrs["rec_lo"], w.attrs["rec_hi"] = SeqV("dec_lo", F, True), SeqV("dec_hi", F, True)
        w.attrs["filter_bank"] = TupV([w.attrs[s] for s in ("dec_lo", "dec_hi", "rec_lo", "rec_hi")])
        return w, d, d
    return w, d, [[tap(s, i) for i in range(F)][::-1] for s in ("rec_lo", "rec_hi")]


def analysis1(fs, n):
    out, r0 = {}, 0
    for f in fs:
        rows, ent = conv_entries(f, n, "sameshift")
        rows, ent = stride_rows(rows, ent, 2, "sameshift")
        out.update({(r0 + i, c): v for (i, c), v in ent.items()})
        r0 += rows
    return (r0, n), out


def analysis2(fs, h, w):
    out, r0 = {}, 0
    for a, b in ((0, 0), (1, 0), (0, 1), (1, 1)):
        f = {(i, j): E.mul(x, y) for i, x in enumerate(fs[a]) for j, y in enumerate(fs[b])}
        (rows, cols), ent = conv2_entries(f, h, w, "sameshift", 2)
        out.update({(r0 + i, c): v for (i, c), v in ent.items()})
        r0 += rows
    return (r0, h * w), out


def transpose(m):
    return {(j, i): v for (i, j), v in m.items()}


def vec(row, n, point, memo):
    return [E.value(row.get(c, 0), point, memo) if c in row else 0.0 for c in range(n)]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def orth_check(R, rule, got, shape, base, flen, what, where):
    """Rows with a full filter are kept; the others are an orthonormal basis of their span."""
    rows = {}
    for (i, j), v in base.items():
        rows.setdefault(i, {})[j] = v
    bound = [i for i in range(shape[0]) if i in rows and len(rows[i]) != flen]
    g = {}
    for (i, j), v in got.items():
        g.setdefault(i, {})[j] = v
    for i in range(shape[0]):
        if i in bound:
            continue
        a, b = g.get(i, {}), rows.get(i, {})
        for c in sorted(set(a) | set(b)):
            if E.equal(a.get(c, 0), b.get(c, 0)) is not True:
                R.bad(rule, where, "%s: row %d is a complete filter position, its entry %d is %s where the filter has %s" % (what, i, c, E.show(a.get(c, 0)), E.show(b.get(c, 0))), {})
                return
    if not bound:
        R.ok(rule)
        return
    memo = {}
    G = {i: vec(g.get(i, {}), shape[1], 0, memo) for i in bound}
    B = [vec(rows[i], shape[1], 0, memo) for i in bound]
    if any(x != x for r in list(G.values()) + B for x in r):
        R.und(rule, "%s: boundary rows not evaluated" % what)
        return
    for i, j in itertools.combinations_with_replacement(bound, 2):
        d = dot(G[i], G[j])
        if abs(d - (i == j)) > 1e-6:
            R.bad(rule, where, "%s: the orthogonalised boundary rows %d and %d have the inner product %.3g" % (what, i, j, d), {})
            return
    for i, b in zip(bound, B):
        r = list(b)
        for q in G.values():
            d = dot(b, q)
            r = [x - d * y for x, y in zip(r, q)]
        if math.sqrt(dot(r, r)) > 1e-6 * max(1.0, math.sqrt(dot(b, b))):
            R.bad(rule, where, "%s: the orthogonalised rows do not span the incomplete filter row %d" % (what, i), {})
            return
    R.ok(rule)


def boundary_cases():
    out = []

    def case(fn, size, F, method, th=False, default=False, zeros=None):
        two = fn.endswith("2")
        syn = "_s" in fn
        mod = "matmul_transform_2." if two else "matmul_transform."

        def run(I, cell, R):
            w, dec, rec = filters(I, R, F, False, zeros)
            k = {"device": R.extra_dev, "dtype": R.dtype}
            if not default:
                k["orthogonalization"] = method
            r = I.call(R.prog.get(mod + fn), [w] + list(size), k)
            put(I, R, r, "matrix")
            shape, base = (analysis2 if two else analysis1)(rec if syn else dec, *size)
            where = J.where(R, r, R.entry)
            if not isinstance(r, TensorV) or r.ex is None:
                R.und("boundary matrix", "%s: entries not tracked" % fn)
                return
            want = shape[::-1] if syn else shape
            if tuple(r.ex.shape) != tuple(want):
                R.bad("size", where, "%s has the shape %s where %s is documented" % (fn, list(r.ex.shape), list(want)), {})
                return
            e = entries(r.ex)
            if syn:
                e = transpose(e)
            orth_check(R, "boundary matrix", e, shape, base, F ** 2 if two else F, fn, where)

        out.append(BCase("%s/%s/F=%d/%s%s" % (fn, "x".join(map(str, size)), F, "default" if default else method, "/zero taps" if zeros else ""), mod + fn, run, th))

    def pair(size, F, method, th=False):
        two = len(size) == 2
        mod = "matmul_transform_2." if two else "matmul_transform."
        fa, fs = ("construct_boundary_a2", "construct_boundary_s2") if two else ("construct_boundary_a", "construct_boundary_s")

        def run(I, cell, R):
            w, dec, rec = filters(I, R, F, True)
            k = {"device": R.extra_dev, "dtype": R.dtype, "orthogonalization": method}
            a = I.call(R.prog.get(mod + fa), [w] + list(size), dict(k))
            s = I.call(R.prog.get(mod + fs), [w] + list(size), dict(k))
            put(I, R, a, "analysis")
            put(I, R, s, "synthesis")
            if not isinstance(a, TensorV) or a.ex is None:
                R.und("transposed pair", "entries not tracked")
                return
            same_matrix(R, "transposed pair", s, tuple(a.ex.shape)[::-1], transpose(entries(a.ex)), "the synthesis matrix of an orthogonal wavelet (transpose of %s)" % fa)

        out.append(BCase("pair/%s/F=%d/%s" % ("x".join(map(str, size)), F, method), mod + fs, run, th))

    for F, ns in ((2, (2, 4, 6)), (4, (4, 6, 8, 10)), (6, (6, 8, 12)), (8, (8, 14))):
        for n in ns:
            for m in ("qr", "gramschmidt"):
                case("construct_boundary_a", (n,), F, m, F == 8)
                case("construct_boundary_s", (n,), F, m, F == 8)
                pair((n,), F, m, F == 8)
    for m in ("qr", "gramschmidt"):
        for n in (8, 12):
            case("construct_boundary_a", (n,), 6, m, zeros=ZEROS)
            case("construct_boundary_s", (n,), 6, m, zeros=ZEROS)
        case("construct_boundary_a2", (6, 8), 6, m, True, zeros=ZEROS)
        case("construct_boundary_s2", (6, 8), 6, m, True, zeros=ZEROS)
    case("construct_boundary_a", (8,), 4, "qr", default=True)
    case("construct_boundary_s", (8,), 4, "qr", default=True)
    for F, hs in ((2, ((2, 4), (4, 2), (4, 4))), (4, ((4, 6), (6, 4), (4, 4), (8, 6)))):
        for s in hs:
            for m in ("qr", "gramschmidt"):
                th = F == 4 and s != (4, 6) and not (s == (6, 4) and m == "qr")
                case("construct_boundary_a2", s, F, m, th)
                case("construct_boundary_s2", s, F, m, th)
                pair(s, F, m, th)
    return out


# ----- operators of the transform objects -----------------------------------------------------------------

def operator_cases():
    out = []

    def case(cls, rcls, mod, size, F, level, method, extra=None, th=False):
        extra = extra or {}
        nd = len(size)

        def run(I, cell, R):
            w, dec, rec = filters(I, R, F, False)
            k = dict(extra, orthogonalization=method)
            x = taps(I, R, "x", (1,) + tuple(size))
            o = I.call(R.prog.get(mod + cls), [w], dict(k, level=level))
            c = I.call(o, [x], {})
            put(I, R, c, "coefficients")
            op = I.getattr(o, "sparse_fwt_operator")
            put(I, R, op, "sparse_fwt_operator")
            flat(R, op, c, x)
            r = I.call(R.prog.get(mod + rcls), [w], dict(k)) if rcls else None
            if r is None:
                return
            y = I.call(r, [c], {})
            put(I, R, y, "reconstruction")
            iop = I.getattr(r, "sparse_ifwt_operator")
            put(I, R, iop, "sparse_ifwt_operator")
            back(R, iop, c, y)

        def stack(c):
            """Coefficient entries in the order of the operator's rows."""
            v = []
            if nd == 1:
                items = c.items
                for t in items:
                    v += t.ex.vals()
                return v
            a = c.items[0]
            n = []
            bands = [[a]] + [list(d.items) for d in c.items[1:]]
            for bs in bands:
                for b in bs:
                    e = b.ex
                    q = e.vals()
                    h, w = e.shape[-2:]
                    n += [q[i * w + j] for j in range(w) for i in range(h)]
            return n

        def flat(R, op, c, x):
            rule = "analysis operator"
            try:
                e = entries(op.ex)
                want = stack(c)
                xs = x.ex.vals()
                if nd == 2:
                    h, w = x.ex.shape[-2:]
                    xs = [xs[i * w + j] for j in range(w) for i in range(h)]
            except Exception:
                R.und(rule, "entries not tracked")
                return
            N = len(xs)
            where = J.where(R, op, R.entry)
            if tuple(op.ex.shape) != (len(want), N):
                R.bad(rule, where, "sparse_fwt_operator has the shape %s for %d coefficients of %d samples" % (list(op.ex.shape), len(want), N), {})
                return
            got = [0] * len(want)
            for (i, j), v in sorted(e.items()):
                got[i] = E.add(got[i], E.mul(v, xs[j]))
            for i, (p, q) in enumerate(zip(got, want)):
                z = E.equal(p, q)
                if z is None:
                    R.und(rule, "row %d" % i)
                elif not z:
                    R.bad(rule, where, "row %d of sparse_fwt_operator times the signal differs from the coefficient computed by the call" % i, {})
                    return
            R.ok(rule)

        def back(R, op, c, y):
            rule = "synthesis operator"
            try:
                e = entries(op.ex)
                cs = stack(c)
                ys = y.ex.vals()
                if nd == 2:
                    h, w = y.ex.shape[-2:]
                    ys = [ys[i * w + j] for j in range(w) for i in range(h)]
            except Exception:
                R.und(rule, "entries not tracked")
                return
            where = J.where(R, op, R.entry)
            if tuple(op.ex.shape) != (len(ys), len(cs)):
                R.bad(rule, where, "sparse_ifwt_operator has the shape %s for %d coefficients" % (list(op.ex.shape), len(cs)), {})
                return
            got = [0] * len(ys)
            for (i, j), v in sorted(e.items()):
                got[i] = E.add(got[i], E.mul(v, cs[j]))
            for i, (p, q) in enumerate(zip(got, ys)):
                z = E.equal(p, q)
                if z is None:
                    R.und(rule, "row %d" % i)
                elif not z:
                    R.bad(rule, where, "row %d of sparse_ifwt_operator times the coefficients differs from the reconstruction of the call" % i, {})
                    return
            R.ok(rule)

        out.append(BCase("%s operator/%s/F=%d/level=%d/%s" % (cls, "x".join(map(str, size)), F, level, method), mod + cls, run, th))

    for n, F, lv in ((8, 2, 1), (8, 2, 2), (8, 2, 3), (8, 4, 1), (8, 4, 2), (16, 4, 2), (12, 6, 1), (16, 4, 3)):
        for m in ("qr", "gramschmidt"):
            case("MatrixWavedec", "MatrixWaverec", "matmul_transform.", (n,), F, lv, m, th=n == 16 and m != "qr")
    for s, F, lv in (((4, 4), 2, 1), ((4, 8), 2, 2), ((4, 6), 4, 1), ((8, 8), 2, 2)):
        case("MatrixWavedec2", "MatrixWaverec2", "matmul_transform_2.", s, F, lv, "qr", {"separable": False}, th=s == (8, 8))
    return out


def all_cases(tier, group=None):
    cs = []
    if group in (None, "helper"):
        cs += conv_cases() + helper_cases()
    if group in (None, "matrix"):
        cs += boundary_cases() + operator_cases()
    return [c for c in cs if tier == "thorough" or not c.thorough]


def judge_entries(R):
    """The comparisons were recorded while the call was interpreted; judge failures here."""
    judge_raise(R)
    if R.exc is None and not R.verdicts:
        R.und("entries", "nothing compared")


def judge_raise(R):
    if R.exc is not None:
        R.bad("raises", "%s (raised at %s)" % (J.S_anchor(R, R.entry), R.exc.loc), "%s raises %s%s" % (R.entry, R.exc.name(), " (%s)" % R.exc.why if R.exc.why else ""))


def scenarios(tier, judge, sel=None, group=None, keep=(), **opt):
    for c in all_cases(tier, group):
        if sel is None or sel(c):
            yield BSc(c, judge, None if judge is judge_entries else keep, **opt)
