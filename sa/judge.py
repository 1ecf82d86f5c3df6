"""Predicates over the observations of a scenario (see scen.py)."""

from __future__ import annotations

from . import labels as L
from . import poly as P
from . import spec as S
from .dense import Undense
from .harness import *


def walk_tensors(v, path="result", seen=None):
    """Every tensor reachable in a value, with its access path."""
    seen = set() if seen is None else seen
    if isinstance(v, TensorV):
        yield path, v
        return
    if id(v) in seen:
        return
    seen.add(id(v))
    if isinstance(v, (ListV, TupV)):
        for i, x in enumerate(v.items):
            yield from walk_tensors(x, "%s[%d]" % (path, i), seen)
    elif isinstance(v, DictV):
        for k, x in v.items.values():
            yield from walk_tensors(x, "%s[%r]" % (path, k), seen)
    elif isinstance(v, InstV) and v.attrs and "data" in v.attrs and isinstance(v.attrs["data"], DictV):
        yield from walk_tensors(v.attrs["data"], path, seen)


def where(R, t=None, name=None):
    loc = getattr(t, "loc", None) if t is not None else None
    a = S_anchor(R, name or R.t.dec)
    return "%s (value produced at %s)" % (a, loc) if loc else a


def S_anchor(R, name):
    from .scen import anchor

    try:
        return anchor(R.prog, name)
    except Exception:
        return name


def raised(R, rule, name, allowed=()):
    """Handle an exception where the specification says the call succeeds."""
    e = R.exc
    if e is None:
        return False
    if e.name() in allowed or e.name() in getattr(R, "may_raise", ()):
        R.ok(rule)
        return True
    R.bad(rule, "%s raised at %s" % (S_anchor(R, name), e.loc), "valid call raises %s (%s)" % (e.name(), str(e.why)[:120]))
    return True


def und_if_raised(R, rule):
    """Exceptions of the transform itself violate the rule: the call is valid."""
    if R.exc is not None:
        t = getattr(R, "t", None)
        if t is not None and R.stage in (t.dec, t.rec):
            return raised(R, rule, R.stage)
        R.und(rule, "the call raises %s at %s" % (R.exc.name(), R.exc.loc))
        return True
    return False


def eff_level(R):
    """Levels the call is specified to compute."""
    t, cell = R.t, R.cell
    if getattr(R, "elevel", None) is not None:
        return R.elevel
    if R.level is None:
        ns = [R.dims[a] for a in R.axes]
        if t.kind == "mat" and t.nd == 1:
            ns = [n + n % 2 for n in ns]  # the one-dimensional transform evens its input first
        R.level = S.max_level(t.kind, ns, R.F)
    if t.kind == "mat":
        R.elevel = S.mat_levels(cell, [R.dims[a] for a in R.axes], R.F, R.level)
    else:
        R.elevel = R.level
    return R.elevel


# ----- structure and lengths -------------------------------------------------------------

def coefficient_shapes(R, rule="shape"):
    t, cell = R.t, R.cell
    if R.stage == t.dec and raised(R, "succeeds", t.dec):
        return
    R.ok("succeeds")
    lv = eff_level(R)
    try:
        st = S.structure(R.I, t, R.c, lv)
    except S.Shape as e:
        R.bad("structure", where(R), str(e))
        return
    except Undense as e:
        R.und("structure", e)
        return
    R.ok("structure")
    for path, chain in S.leaves(t, lv):
        v = st[path]
        nm = pname(path)
        if not isinstance(v, TensorV) or v.dims is None:
            R.und(rule, "%s: shape unknown" % nm)
            continue
        want = list(R.dims)
        for a in R.axes:
            want[a] = S.len_chain(cell, t.kind, R.dims[a], R.F, len(chain))
            if not chain and t.key == "MatrixWavedec" and S._odd(cell, R.dims[a]):
                want[a] = P.add(R.dims[a], 1)
        check_dims(R, rule, v, want, "%s of %s" % (nm, t.dec))


def check_dims(R, rule, v, want, what):
    if len(v.dims) != len(want):
        R.bad(rule, where(R, v), "%s has %d dimensions instead of %d" % (what, len(v.dims), len(want)))
        return
    for i, (g, w) in enumerate(zip(v.dims, want)):
        k, info = S.compare_len(R.cell, g, w)
        if k == "same":
            R.ok(rule)
        elif k == "unknown":
            R.und(rule, "%s, dimension %d: %s" % (what, i, info))
        else:
            env, (a, b) = info
            R.bad(rule, where(R, v), "%s, dimension %d has length %s where %s is specified" % (what, i, a, b), env)


def pname(path):
    return "coefficient[%s]%s" % (path[0], "" if len(path) == 1 else (path[1] if path[1].startswith(".") else "[%r]" % path[1]))


# ----- naming ----------------------------------------------------------------------------

LET = {"dec_lo": "a", "dec_hi": "d"}


def chain_of(cell, l):
    """Band letters applied to one axis, first level first; None when not readable."""
    out = []
    l = S.canon(L.norm_poly(cell, l))
    while True:
        k = l[0]
        if k == "ax":
            return out[::-1]
        if k == "co":
            if l[1] not in LET:
                return None
            out.append(LET[l[1]])
            l = l[8]
        elif k == "ext":
            l = l[4]
        elif k == "rev":
            l = l[1]
        elif k == "blk":
            b = l[1]
            if b[0] != "S" or b[1][0][0] not in LET:
                return None
            out.append(LET[b[1][0][0]])
            l = l[5]
        elif k == "fold" and len(l[1]) == 1:
            l = l[1][0]
        else:
            return None


def chains(cell, labels, axes, nonsep=False):
    """Per level band letters over ``axes`` (list of strings), or None."""
    if not nonsep:
        cs = [chain_of(cell, labels[a]) for a in axes]
        if any(c is None for c in cs) or len({len(c) for c in cs}) != 1:
            return None
        return ["".join(x) for x in zip(*cs)]
    cur = [labels[a] for a in axes]
    out = []
    while True:
        cur = [S.canon(L.norm_poly(cell, l)) for l in cur]
        cur = [strip_ext(l) for l in cur]
        if all(l[0] == "ax" for l in cur):
            return out[::-1]
        if not all(l[0] == "u" for l in cur) or cur[0][2] != cur[1][2]:
            return None
        y = cur[0][2]
        while True:
            if y[0] != "blk" or y[1][0] != "S2":
                return None
            slots = [s for s, r in y[1][1]]
            if any(s not in LET for s in slots):
                return None
            # S2's first filter dimension runs along the inner (second) folded axis
            out.append(LET[slots[0]] + LET[slots[1]])
            y = y[5]
            if y[0] == "fold":
                break
        if len(y[1]) != 2:
            return None
        cur = [y[1][1], y[1][0]]


def strip_ext(l):
    while l[0] == "ext":
        l = l[4]
    return l


def leaf_term(I, v):
    c = I.T.cont(v)
    lin = S.full_lin(c)
    if lin is None or len(lin) != 1:
        return None, lin
    return next(iter(lin.items())), lin


def band_names(R, known=None):
    """Every named coefficient is the band its position/key documents."""
    t, cell, I = R.t, R.cell, R.I
    if und_if_raised(R, "band"):
        return
    lv = eff_level(R)
    try:
        st = S.structure(I, t, R.c, lv)
    except (S.Shape, Undense) as e:
        R.und("band", e)
        return
    for path, want in S.leaves(t, lv):
        v = st[path]
        if not isinstance(v, TensorV):
            R.und("band", "%s is not tracked" % pname(path))
            continue
        term, lin = leaf_term(I, v)
        if term is None:
            R.und("band", "%s: content not tracked" % pname(path))
            continue
        (src, ls), coef = term
        got = chains(cell, ls, R.axes, t.key == S.NONSEP)
        if got is None or src != "x":
            R.und("band", "%s: band not readable" % pname(path))
            continue
        if got == want:
            R.ok("band")
        else:
            R.bad("band", where(R, v), "%s of %s holds the band %s where %s is documented (letters per level, one per axis; a low-pass, d high-pass)"
                  % (pname(path), t.key, "/".join(got) or "none", "/".join(want) or "none"))


# ----- analysis content -------------------------------------------------------------------

def analysis_content(R):
    """Every coefficient equals the specified filtering of the extended signal."""
    t, cell, I = R.t, R.cell, R.I
    rule = "analysis operator"
    if und_if_raised(R, rule):
        return
    lv = eff_level(R)
    try:
        st = S.structure(I, t, R.c, lv)
    except (S.Shape, Undense) as e:
        R.und(rule, e)
        return
    for path, want in S.leaves(t, lv):
        v = st[path]
        if not isinstance(v, TensorV):
            R.und(rule, "%s is not tracked" % pname(path))
            continue
        lin = S.full_lin(I.T.cont(v))
        if lin is None:
            R.und(rule, "%s: content not tracked" % pname(path))
            continue
        if len(lin) == 1:
            (src, ls), coef = next(iter(lin.items()))
            got = chains(cell, ls, R.axes, t.key == S.NONSEP) if src == "x" else None
            if got is not None and len(got) == len(want):
                want = got  # the naming is judged by the sub-band property
        spec = S.content(cell, t, "x", R.axes, R.dims, want, R.F, R.mode, R.method)
        judge_lin(R, rule, lin, spec, "%s of %s" % (pname(path), t.key), v)


def judge_lin(R, rule, got, want, what, v, bank="generic", name=None):
    k, info = S.compare(R.cell, got, want, bank)
    if k == "same":
        R.ok(rule)
    elif k == "unknown":
        R.und(rule, "%s: %s" % (what, info))
    else:
        env, (ix, key, a, b) = info
        R.bad(rule, where(R, v, name), "%s: output %s depends on %s with weight %s where %s is specified" % (what, list(ix), key, num(a), num(b)), env)


def num(x):
    return "%.4g" % x if isinstance(x, float) else x


# ----- reconstruction ----------------------------------------------------------------------

def reconstruct_content(R):
    t, cell, I = R.t, R.cell, R.I
    rule = "reconstruction"
    if R.stage == t.rec and R.exc is not None:
        raised(R, rule, t.rec)
        return
    if und_if_raised(R, rule):
        return
    y = R.y
    if not isinstance(y, TensorV):
        R.und(rule, "result is not a tracked tensor")
        return
    lin = S.full_lin(I.T.cont(y))
    if lin is None or y.dims is None or len(y.dims) != len(R.dims):
        R.und(rule, "content not tracked")
        return
    lin = crop(cell, lin, R.axes, R.dims)
    if lin is None:
        R.und(rule, "crop not expressible")
        return
    want = {("x", tuple(("ax", "x.%d" % i, n) for i, n in enumerate(R.dims))): 1}
    judge_lin(R, rule, lin, want, "%s(%s(x)) on the support of x" % (t.rec, t.dec), y, bank="pr", name=t.rec)


def crop(cell, lin, axes, dims):
    out = {}
    for (s, ls), v in lin.items():
        ls = list(ls)
        for a in axes:
            if L.size(ls[a]) != dims[a]:
                z = L.narrow(cell, ls[a], 0, dims[a])
                if z is None:
                    return None
                ls[a] = z
        k = (s, tuple(ls))
        out[k] = out.get(k, 0) + v
    return out


def reconstruct_shape(R):
    """The reconstruction has the input's shape, odd axes grown by one sample."""
    t, cell = R.t, R.cell
    rule = "reconstruction shape"
    if R.stage == t.rec and R.exc is not None:
        raised(R, rule, t.rec)
        return
    if und_if_raised(R, rule):
        return
    y = R.y
    if not isinstance(y, TensorV) or y.dims is None:
        R.und(rule, "shape not tracked")
        return
    want = list(R.dims)
    lv = eff_level(R)
    if t.kind != "swt" and (lv or t.key == "MatrixWavedec"):
        for a in R.axes:
            want[a] = cell.norm(P.mul(2, cell.floordiv(P.add(want[a], 1), 2)))
    check_dims(R, rule, y, want, "%s(%s(x))" % (t.rec, t.dec))


# ----- attributes -----------------------------------------------------------------------------

def all_values(R):
    for nm in ("c", "y"):
        v = getattr(R, nm, None)
        if v is not None:
            yield from walk_tensors(v, {"c": "coefficients", "y": "reconstruction"}[nm])


def attr_is(R, rule, attr, want, name=None):
    if und_if_raised(R, rule):
        return
    n = 0
    for path, v in all_values(R):
        n += 1
        g = getattr(v, attr)
        if isinstance(g, TopV):
            R.und(rule, "%s of %s not tracked" % (attr, path))
        elif g == want:
            R.ok(rule)
        else:
            R.bad(rule, where(R, v, name), "%s of %s is %s, the input has %s" % (attr, path, g, want))
    if not n:
        R.und(rule, "no tensors")


def gradients(R, rule="gradient", sources=("x",), name=None):
    if und_if_raised(R, rule):
        return
    for path, v in all_values(R):
        if v.dims is None and not v.g:
            R.und(rule, "%s not tracked" % path)
            continue
        miss = [s for s in sources if s not in v.g]
        if not miss:
            R.ok(rule)
        elif getattr(v, "unk", False):
            R.und(rule, "%s not tracked" % path)
        else:
            R.bad(rule, where(R, v, name), "%s does not propagate a gradient to %s" % (path, ", ".join(miss)))


def no_effects(R, rule, kinds, pred=None):
    bad = [e for e in R.I.effects if e["kind"] in kinds and (pred is None or pred(e))]
    seen = set()
    for e in bad:
        k = (e["kind"], e["loc"], e["detail"])
        if k in seen:
            continue
        seen.add(k)
        R.bad(rule, e["loc"], e["detail"])
    if not bad:
        R.ok(rule)


def data_control(R, rule="data independence"):
    bad = list(R.I.datactl)
    seen = set()
    for e in bad:
        k = str(e)
        if k in seen:
            continue
        seen.add(k)
        R.verdicts.append(("bad", rule, str(e.get("loc") if isinstance(e, dict) else e[1]), "%s [%s]" % (e, R.sc.id)))
    if not bad:
        R.ok(rule)


def clamped(R):
    """Fewer levels are computed, with a notice, exactly when an axis gets too short."""
    coefficient_shapes(R)
    if R.exc is not None:
        if R.stage == R.t.rec:
            raised(R, "reconstruction", R.t.rec)
        return
    lv = eff_level(R)
    warned = any(e["kind"] in ("stderr", "warning") for e in R.I.effects)
    if warned == (lv < R.level):
        R.ok("notice")
    else:
        R.bad("notice", where(R), "%d of %d levels are computable but %s notice is written" % (lv, R.level, "a" if warned else "no"))
    reconstruct_shape(R)
    reconstruct_content(R)


# ----- any call ----------------------------------------------------------------------------

MISMATCH = {"dtype": "same dtype", "device": "same device"}


def out_raised(R, rule):
    """Undecided when the call raises (judged by the structural properties)."""
    if R.exc is not None:
        why = " ".join(str(a) for a in (R.exc.why,) + tuple(R.exc.args_ or ()))
        if R.exc.lib and rule in MISMATCH and MISMATCH[rule] in why:
            R.bad(rule, "%s (raised at %s)" % (S_anchor(R, R.entry), R.exc.loc), "an operation combines tensors of different %ss: %s" % (rule, why.strip()))
            return True
        R.und(rule, "the call raises %s at %s" % (R.exc.name(), R.exc.loc))
        return True
    if not R.out:
        R.und(rule, "no tensor results")
        return True
    return False


def out_attr(R, rule, attr, want):
    if out_raised(R, rule):
        return
    for path, v in R.out:
        g = getattr(v, attr)
        if isinstance(g, TopV):
            R.und(rule, "%s of %s not tracked" % (attr, path))
        elif g == want:
            R.ok(rule)
        else:
            R.bad(rule, where(R, v, R.entry), "%s of %s is %s where the input has %s" % (attr, path, g, want))


RANK = {"bool": 0, "int8": 0, "uint8": 0, "int16": 0, "int32": 0, "int64": 0, "float16": 1, "bfloat16": 1, "float32": 2, "float64": 3}


def marks(t, kind):
    for m in sorted(t.d):
        if m.startswith("!" + kind + "|"):
            yield m[1:].split("|")[1:]


def out_precision(R, rule="precision"):
    """No value on the way to a result was rounded to a narrower format than that of the result."""
    for path, t in R.out:
        if not isinstance(t, TensorV):
            continue
        if not isinstance(t.dtype, DTypeV) or t.dtype.name not in RANK:
            R.und(rule, "dtype of %s not tracked" % path)
            continue
        m = [x for x in marks(t, "narrow") if RANK.get(x[0], 9) < RANK[t.dtype.name]]
        if m:
            R.bad(rule, "%s (conversion at %s)" % (S_anchor(R, R.entry), m[0][1]), "%s is %s but its values (%s) were rounded to %s on the way" % (path, t.dtype.name, m[0][2], m[0][0]), {})
        else:
            R.ok(rule)


def is_data(n):
    return not n.startswith("wavelet") and n not in ("dec_lo", "dec_hi", "rec_lo", "rec_hi", "param")


def out_linear(R, rule="linearity"):
    """No non-linear operation was applied to the data on the way to a result."""
    for path, t in R.out:
        if not isinstance(t, TensorV):
            continue
        why = None
        for kind in ("nonlinear", "affine"):
            for what, loc, names in marks(t, kind):
                if any(is_data(n) for n in names.split(",")):
                    why = why or ("%s of the data %s" % (what, names) if kind == "nonlinear" else "%s added to the data %s" % (what, names), loc)
        for what, loc, na, nb in marks(t, "product"):
            if any(is_data(n) for n in na.split(",")) and any(is_data(n) for n in nb.split(",")):
                why = why or ("%s of the data %s with the data %s" % (what, na, nb), loc)
        if why:
            R.bad(rule, "%s (operation at %s)" % (S_anchor(R, R.entry), why[1]), "%s is not linear in the data: it contains a %s" % (path, why[0]), {})
        else:
            R.ok(rule)


def out_grad(R, rule="gradient", need=None):
    if out_raised(R, rule):
        return
    for path, v in R.out:
        want = need(R, path) if need else R.srcs
        miss = [s for s in want if s not in v.g]
        if not miss:
            R.ok(rule)
        else:
            R.bad(rule, where(R, v, R.entry), "%s has no gradient with respect to %s" % (path, ", ".join(miss)))


FILTERS = frozenset(["dec_lo", "dec_hi", "rec_lo", "rec_hi"])


def filters_of(R, path):
    """The filters given as tensors which a result is computed with."""
    v = dict(R.out)[path]
    need = set(v.d & FILTERS)
    tags = R.opt.get("wavelet") == "tensors"
    if tags and path.startswith("node "):
        key = path.split("'")[1]
        need |= {{"a": "dec_lo", "d": "dec_hi"}[c] for c in (key if R.nd == 1 else "".join({"a": "a", "d": "d"}.get(c, "ad") for c in key))}
    elif tags and path.startswith("coefficients["):
        if R.level_of_result:
            need.add("dec_lo" if path.startswith("coefficients[0]") else "dec_hi")
    elif tags and path.startswith("reconstruction") and R.level:
        need |= {"rec_lo", "rec_hi"}
    return sorted(need)
