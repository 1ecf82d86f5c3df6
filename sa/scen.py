"""Abstract scenarios: the calls whose every outcome the properties constrain."""

from __future__ import annotations

from . import labels as L
from . import poly as P
from . import spec as S
from .dense import Undense
from .harness import *
from .cell import Excluded
from .interp import AbsRaise


class Sc:
    """A scenario: ``body(I, cell, R)`` performs abstract calls and records into R."""

    def __init__(self, id, body, judge, max_cells=200, thorough=False):
        self.id, self.body, self.judge, self.max_cells, self.thorough = id, body, judge, max_cells, thorough


class Rec:
    """Observations of one scenario in one cell and the verdicts about them."""

    def __init__(self, sc, I, cell):
        self.sc, self.I, self.cell = sc, I, cell
        self.exc = None
        self.stage = None
        self.verdicts = []

    # verdicts -------------------------------------------------------------------
    def ok(self, rule, n=1):
        self.verdicts.append(("ok", rule, None, None))

    def und(self, rule, why):
        self.verdicts.append(("und", rule, why, None))

    def bad(self, rule, where, msg, env=None):
        """A definite violation; downgraded when the path itself is uncertain."""
        if self.cell.soft:
            self.und(rule, "would be: %s; but the cell depends on %s" % (msg, self.cell.soft[:2]))
            return
        if env is None:
            env = S.feasible(self.cell)
            if env is None:
                self.und(rule, "would be: %s; but no point of the cell was found" % msg)
                return
        self.verdicts.append(("bad", rule, where, "%s [%s]" % (msg, "; ".join(x for x in (S.show_env(env), self.sc.id) if x))))

    def attempt(self, stage, f, *a, **k):
        """Run an abstract call; an exception ends the scenario."""
        self.stage = stage
        try:
            return self.I.call(f, list(a), k)
        except AbsRaise as e:
            self.exc = e
            raise


# ----- transforms ------------------------------------------------------------------

def make_dec(I, prog, t, w, level, mode=None, axes=None, extra=None):
    """(callable x -> coefficients)"""
    kw = dict(t.dec_opts)
    kw.update(extra or {})
    if axes is not None:
        kw[t.axkw] = axes
    f = prog.get(t.dec)
    if t.kind == "mat":
        o = I.call(f, [w], dict(kw, level=level) if level is not None else kw)
        return lambda x: I.call(o, [x], {})
    if mode is not None and t.kind == "conv":
        kw["mode"] = mode
    if level is not None:
        kw["level"] = level
    return lambda x: I.call(f, [x, w], kw)


def make_rec(I, prog, t, w, axes=None, extra=None):
    kw = dict(t.rec_opts)
    kw.update(extra or {})
    if axes is not None:
        kw[t.axkw] = axes
    f = prog.get(t.rec)
    if t.kind == "mat":
        o = I.call(f, [w], kw)
        return lambda c: I.call(o, [c], {})
    return lambda c: I.call(f, [c, w], kw)


def dim_syms(cell, dims):
    return [cell.sym(d, 1) if isinstance(d, str) else d for d in dims]


class Cfg:
    """One configuration of a transform call."""

    def __init__(self, t, level, mode=None, dims=None, axes=None, F=None, dtype=F32, pre=None, extra=None, elevel=None,
                 wname=None, grad=True, rextra=None, may_raise=(), strided=False):
        self.strided = strided
        self.t = S.TRANSFORMS[t] if isinstance(t, str) else t
        self.level, self.mode, self.F, self.dtype, self.extra = level, mode, F, dtype, extra
        self.rextra = rextra
        self.may_raise = may_raise
        nd = self.t.nd
        self.dims = dims if dims is not None else ["b"] + {1: ["n"], 2: ["h", "w"], 3: ["d", "h", "w"]}[nd]
        self.axes_arg = axes
        self.pre = pre if pre is not None else True
        self.elevel = elevel
        self.wname = wname
        self.grad = grad

    def axes(self):
        nd = self.t.nd
        if self.axes_arg is None:
            return list(range(len(self.dims) - nd, len(self.dims)))
        a = self.axes_arg if isinstance(self.axes_arg, tuple) else (self.axes_arg,)
        return [x % len(self.dims) for x in a]

    def id(self):
        s = "%s/level=%s" % (self.t.key, self.level)
        if self.mode:
            s += "/" + self.mode
        s += "/" + "x".join(map(str, self.dims))
        if self.axes_arg is not None:
            s += "/axes=%s" % (self.axes_arg,)
        if self.F:
            s += "/F=%d" % self.F
        if self.dtype is not F32:
            s += "/" + self.dtype.name
        for k, v in sorted((self.extra or {}).items()):
            s += "/%s=%s" % (k, v)
        if self.pre is False:
            s += "/free"
        if self.strided:
            s += "/strided"
        return s

    def depth(self):
        return self.level or 1

    def setup(self, I, cell, R):
        filt(cell, self.F)
        R.F = cell.filt_len
        R.may_raise = self.may_raise
        R.t = self.t
        R.axes = self.axes()
        R.dims = dim_syms(cell, self.dims)
        R.mode = self.mode or self.t.def_mode
        R.level = self.level
        I.strided = self.strided
        R.x = tensor(I, "x", R.dims, dtype=self.dtype, grad=self.grad)
        if self.pre:
            k = 1
            if self.t.kind == "mat" and self.level:
                k = 2 ** (self.level - 1)
            for a in R.axes:
                if isinstance(R.dims[a], Poly):
                    cell._add_fact(cell.norm(P.sub(R.dims[a], P.mul(k, R.F))))
                elif isinstance(R.F, Poly):
                    cell._add_fact(cell.norm(P.sub(R.dims[a], P.mul(k, R.F))))
            if self.t.kind == "swt" and self.level:
                for a in R.axes:
                    cell._add_fact(cell.norm(P.sub(R.dims[a], P.mul(2 ** (self.level - 1), R.F))))
        R.w = make_wavelet(I, owner="argument 'wavelet'") if self.wname is None else self.wname
        R.method = (self.extra or {}).get("orthogonalization", "qr")


def ax_arg(a):
    return TupV(a) if isinstance(a, tuple) else a


def roundtrip(prog, cfg, rec=True):
    """x -> coefficients -> reconstruction"""

    def body(I, cell, R):
        cfg.setup(I, cell, R)
        R.c = R.y = None
        R.stage = cfg.t.dec
        R.c = make_dec(I, prog, cfg.t, R.w, cfg.level, cfg.mode, ax_arg(cfg.axes_arg), cfg.extra)(R.x)
        R.stage = "analysed"
        if rec:
            R.stage = cfg.t.rec
            rk = dict(cfg.rextra or {})
            if cfg.t.kind == "mat" and cfg.extra and "orthogonalization" in cfg.extra:
                rk["orthogonalization"] = cfg.extra["orthogonalization"]
            R.y = make_rec(I, prog, cfg.t, R.w, ax_arg(cfg.axes_arg), rk)(R.c)
            R.stage = "done"

    return body


def anchor(prog, name):
    """file:line of a public entry point."""
    v = prog.get(name)
    node = getattr(v, "node", None)
    mod = getattr(v, "module", None)
    path = getattr(mod, "path", "") if mod is not None else ""
    return "%s:%s %s" % (prog.loader.rel(path) if path else "?", getattr(node, "lineno", "?"), name)


def run_scenario(prog, sc):
    """Explore every cell of the scenario; a picklable summary."""
    t0 = time.time()
    res = {"id": sc.id, "cells": 0, "ok": 0, "und": [], "bad": [], "notes": {}, "unknown": {}, "funcs": [], "rules": {}, "soft": 0, "raised": {}}
    funcs = set()

    def body(I, cell, out):
        R = Rec(sc, I, cell)
        out.extra["R"] = R
        try:
            sc.body(I, cell, R)
        except AbsRaise as e:
            R.exc = e
        if cell.infeasible():
            raise Excluded("contradictory cell")
        sc.judge(R)

    limit = float(os.environ.get("VERIF_SCENARIO_S", 240))
    try:
        for out, note in run_cells(prog, body, sc.max_cells):
            if time.time() - t0 > limit:
                res["notes"]["scenario time budget"] = 1
                break
            if note:
                res["notes"][note] = res["notes"].get(note, 0) + 1
            if out is None:
                continue
            R = out.extra.get("R")
            res["cells"] += 1
            funcs |= set(out.I.covered)
            if out.cell.soft:
                res["soft"] += 1
            for u, k in out.I.unknown.items():
                res["unknown"][u] = res["unknown"].get(u, 0) + k
            if R.exc is not None:
                k = "%s at %s" % (R.exc.name(), R.exc.loc)
                res["raised"][k] = res["raised"].get(k, 0) + 1
            for v in R.verdicts:
                r = res["rules"].setdefault(v[1], [0, 0, 0])
                if v[0] == "ok":
                    res["ok"] += 1
                    r[0] += 1
                elif v[0] == "und":
                    r[1] += 1
                    if len(res["und"]) < 8:
                        res["und"].append((v[1], str(v[2])[:300]))
                else:
                    r[2] += 1
                    res["bad"].append((v[1], str(v[2]), str(v[3])[:900]))
    except MissingAnchor:
        raise
    except Exception as e:  # the analyser gave up on this scenario: nothing is decided
        import traceback

        tb = traceback.extract_tb(e.__traceback__)[-1]
        res["notes"]["analysis stopped: %s: %s (%s:%s)" % (type(e).__name__, str(e)[:160], os.path.basename(tb.filename), tb.lineno)] = 1
        res["rules"].setdefault("analysis", [0, 0, 0])[1] += 1
    res["wall"] = round(time.time() - t0, 2)
    res["funcs"] = sorted(str(f) for f in funcs)
    return res
