"""Summaries of the matrix builders.

The bodies of these functions enumerate filter taps one by one; the transforms only
rely on the shape, dtype, device and *identity* of the operator they return.  The bodies
are analysed on their own (see checks: builder roots), so nothing is assumed unchecked
about dtype, device and index types.
"""

from __future__ import annotations

from . import labels as L
from . import poly as P
from .values import *

LONG = DTypeV("int64")


def params(f, vars_):
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    return [vars_.get(p) for p in pos], {x.arg: vars_.get(x.arg) for x in a.kwonlyargs}


def _taps(I, t):
    """((slot, reversed) per dim) of a filter tensor, or None."""
    c = I.T.cont(t)
    if c is None or any(k != "L" for k in c.kinds) or len(c.ent) != 1:
        return None
    lin = next(iter(c.ent.values()))
    if len(lin) != 1:
        return None
    (src, ls), v = next(iter(lin.items()))
    if v != 1 or any(l[0] != "flt" for l in ls):
        return None
    return tuple((l[1], l[2]) for l in ls)


def _new(I, dims, like, op):
    r = I.T.new(I, dims, None, like.dtype, like.device, [like])
    r.layout = "sparse"
    r.op = op
    r.idt = LONG
    return r


def _half(I, n, stride, mode):
    c = I.cell
    if stride == 1:
        return P.sub(n, 1) if mode == "sameshift" else n
    if mode == "sameshift":
        return c.floordiv(n, stride)
    return c.floordiv(P.add(n, stride - 1), stride)


def _out(n, F, mode):
    if mode == "full":
        return P.sub(P.add(n, F), 1)
    if mode == "valid":
        return P.add(P.sub(n, F), 1)
    if mode in ("same", "sameshift"):
        return n
    return None


def strided(I, f, vars_):
    p, k = params(f, vars_)
    if len(p) < 3:
        return NotImplemented
    t, n, stride, mode = p[0], p[1], p[2], k.get("mode", p[3] if len(p) > 3 else None)
    if not isinstance(t, TensorV) or t.dims is None or len(t.dims) != 1 or not is_int(n) or not isinstance(stride, int):
        return NotImplemented
    o = _out(n, t.dims[0], mode)
    if o is None:
        I.raise_("ValueError", "Padding mode not supported.")
    taps = _taps(I, t)
    op = ("S", taps, n, stride, mode) if taps is not None else None
    return _new(I, (_half(I, o, stride, mode), n), t, op)


def strided2(I, f, vars_):
    p, k = params(f, vars_)
    if len(p) < 4:
        return NotImplemented
    t, h, w, stride, mode = p[0], p[1], p[2], p[3], k.get("mode", p[4] if len(p) > 4 else None)
    if not isinstance(t, TensorV) or t.dims is None or len(t.dims) != 2 or not is_int(h) or not is_int(w) or not isinstance(stride, int):
        return NotImplemented
    oh, ow = _out(h, t.dims[0], mode), _out(w, t.dims[1], mode)
    if oh is None:
        I.raise_("ValueError", "Padding mode not accepted.")
    taps = _taps(I, t)
    op = ("S2", taps, h, w, stride, mode) if taps is not None else None
    rows = P.mul(_half(I, oh, stride, mode), _half(I, ow, stride, mode))
    return _new(I, (rows, P.mul(h, w)), t, op)


def orth(I, f, vars_):
    p, k = params(f, vars_)
    m, fl, method = p[0], p[1], k.get("method", p[2] if len(p) > 2 else None)
    if not isinstance(m, TensorV) or m.layout != "sparse" or method not in ("qr", "gramschmidt"):
        return NotImplemented
    r = _new(I, m.dims, m, ("O", m.op, fl, method) if m.op is not None else None)
    r.idt = m.idt
    return r


def cat_identity(I, f, vars_):
    p, k = params(f, vars_)
    m, n = p[0], p[1]
    if not isinstance(m, TensorV) or m.layout != "sparse" or m.op is None or m.dims is None or len(m.dims) != 2 or not is_int(n):
        return NotImplemented
    if I.truth(I.compare("NotEq", m.dims[0], m.dims[1])):
        I.raise_("ValueError", "Matrices must be square.")
    if I.truth(I.compare("Lt", n, m.dims[0])):
        I.raise_("ValueError", "Cannot add negatively many rows.")
    if I.truth(I.compare("Eq", n, m.dims[0])):
        return m
    return _new(I, (n, n), m, ("I", m.op, n))


SUMMARIES = {
    "ptwt.sparse_math.cat_sparse_identity_matrix": cat_identity,
    "ptwt.sparse_math.construct_strided_conv_matrix": strided,
    "ptwt.sparse_math.construct_strided_conv2d_matrix": strided2,
    "ptwt.matmul_transform.orthogonalize": orth,
}
