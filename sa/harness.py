"""Drives the interpreter: loading of the sources, abstract inputs, exploration."""

from __future__ import annotations

import os
import time

from . import labels as L
from . import poly as P
from . import values as V
from .cell import Cell, Excluded, NeedSplit, explore
from .interp import AbsRaise, AnalysisError, Interp, Loader, builtin, hkey
from .models_misc import (Builtins, Numpy, Pywt, call_ext, call_ext_inst, ext_attr, ext_inst_attr, ext_super_attr,
                          make_wavelet, value_method)
from .models_torch import CPU, Torch
from .poly import Poly
from .summaries import SUMMARIES
from .values import *

Interp.T = Torch()
Interp.N = Numpy()
Interp.B = Builtins()
Interp.PW = Pywt()
Interp.call_ext = call_ext
Interp.call_ext_inst = call_ext_inst
Interp.ext_attr = ext_attr
Interp.ext_inst_attr = ext_inst_attr
Interp.ext_super_attr = ext_super_attr
Interp.value_method = value_method

REPO = os.environ.get("VERIF_REPO", "/repo")

F32 = DTypeV("float32")
F64 = DTypeV("float64")
DEV = DeviceV("dev")

PRELUDE = '''
class UserDict:
    def __init__(self, dict=None, /, **kwargs):
        self.data = {}
        if dict is not None:
            self.update(dict)
        if kwargs:
            self.update(kwargs)
    def __len__(self):
        return len(self.data)
    def __getitem__(self, key):
        if key in self.data:
            return self.data[key]
        return self.__missing__(key)
    def __missing__(self, key):
        raise KeyError(key)
    def __setitem__(self, key, item):
        self.data[key] = item
    def __delitem__(self, key):
        del self.data[key]
    def __iter__(self):
        return iter(self.data)
    def __contains__(self, key):
        return key in self.data
    def get(self, key, default=None):
        if key in self:
            return self[key]
        return default
    def keys(self):
        return list(self.data)
    def values(self):
        return [self[k] for k in self.data]
    def items(self):
        return [(k, self[k]) for k in self.data]
    def update(self, other=(), /, **kwds):
        if isinstance(other, dict) or hasattr(other, "keys"):
            for k in other:
                self[k] = other[k]
        else:
            for k, v in other:
                self[k] = v
        for k, v in kwds.items():
            self[k] = v
    def pop(self, key, *default):
        if key in self.data:
            return self.data.pop(key)
        if default:
            return default[0]
        raise KeyError(key)
    def setdefault(self, key, default=None):
        if key in self:
            return self[key]
        self[key] = default
        return default
    def clear(self):
        self.data.clear()
    def copy(self):
        r = self.__class__.__new__(self.__class__)
        r.data = self.data.copy()
        return r

class UserWavelet:
    """An object of the caller with the attributes of the Wavelet protocol."""
    def __init__(self, dec_lo, dec_hi, rec_lo, rec_hi):
        self.name = "user"
        self.dec_lo = dec_lo
        self.dec_hi = dec_hi
        self.rec_lo = rec_lo
        self.rec_hi = rec_hi
        self.dec_len = len(dec_lo)
        self.rec_len = len(rec_lo)
        self.filter_bank = (dec_lo, dec_hi, rec_lo, rec_hi)
    def __len__(self):
        return len(self.dec_lo)
'''


class Program:
    """The analysed sources, interpreted at module level."""

    def __init__(self, repo=REPO, summaries=None, torch=None, numpy=None):
        self.torch = torch
        self.numpy = numpy
        self.loader = Loader(repo, os.path.join(repo, "src"))
        self.summaries = SUMMARIES if summaries is None else summaries
        self.loads = 0
        self.load()

    def load(self):
        import ast

        ld = self.loader
        ld.modules.clear()
        ld.ext_classes = {}
        ld.summaries = {}
        ld.dirty = False
        I = Interp(ld, Cell(()))
        m = ModuleV("collections", "")
        m.scope = Scope(module=m)
        I.stack.append(("<module collections>", ""))
        I.exec_block(ast.parse(PRELUDE).body, m.scope)
        I.stack.pop()
        ld.ext_classes["collections.UserDict"] = m.scope.vars["UserDict"]
        ld.ext_classes["user.UserWavelet"] = m.scope.vars["UserWavelet"]
        base = os.path.join(ld.pkgroot, "ptwt")
        names = ["ptwt"]
        for f in sorted(os.listdir(base)):
            if f.endswith(".py") and f != "__init__.py":
                names.append("ptwt." + f[:-3])
        for n in names:
            I.import_module(n)
        self.load_effects = I.effects
        self.load_unknown = I.unknown
        self.module_names = names
        ld.summaries = dict(self.summaries)
        ld.dirty = False
        ld.module_serial = Obj._n
        self.loads += 1

    def interp(self, cell):
        if self.loader.dirty:
            self.load()
        I = Interp(self.loader, cell)
        if self.torch is not None:
            I.T = self.torch
        if self.numpy is not None:
            I.N, I.PW = self.numpy
        return I

    def get(self, path):
        """ptwt attribute by dotted path, e.g. 'matmul_transform.MatrixWavedec'."""
        mod, _, name = path.rpartition(".")
        m = self.loader.modules.get("ptwt." + mod if mod else "ptwt")
        if m is None or name not in m.scope.vars:
            raise MissingAnchor(path)
        return m.scope.vars[name]


class MissingAnchor(Exception):
    pass


class Outcome:
    """What one analysed call did in one cell."""

    def __init__(self, I, cell):
        self.I = I
        self.cell = cell
        self.value = None
        self.exc = None
        self.extra = {}

    @property
    def effects(self):
        return self.I.effects


def run_cells(prog, body, max_cells=200):
    """body(I, cell, out) performs the abstract calls; yields (Outcome|None, note)."""

    def run(cell):
        I = prog.interp(cell)
        out = Outcome(I, cell)
        try:
            body(I, cell, out)
        except AbsRaise as e:
            out.exc = e
        return out

    for cell, out, note in explore(run, max_cells):
        yield out, note


# ----- abstract inputs -----------------------------------------------------------
def filt(cell, F=None):
    """Even filter length 2m (m >= 1), or a concrete one."""
    f = F if F is not None else P.mul(2, cell.sym("m", 1))
    f = cell.norm(f)
    cell.filt_len = f
    return f


def tensor(I, name, dims, dtype=F32, device=DEV, grad=True, batch=0, owner=True, elem=()):
    """A caller-owned strided tensor; every dim labelled with its own axis name."""
    kinds = ["E" if i in elem else "L" for i in range(len(dims))]
    labels = [("ax", "%s.%d" % (name, i), n) for i, n in enumerate(dims) if i not in elem]
    c = L.single(name, kinds, labels) if not elem else None
    t = TensorV(tuple(dims), c, dtype, device, Storage(owner="argument '%s'" % name if owner else None),
                g=frozenset([name]) if grad else frozenset(), d=frozenset([name]))
    t.reqgrad = bool(grad)
    t.owner = None
    if getattr(I, "strided", False) and dims:
        # a view of a larger storage: no two dimensions can be merged
        t.contig = False
        t.strides = [((name, i), 1) for i in range(len(dims))]
    return t


def call(I, f, *args, **kw):
    return I.call(f, list(args), kw)
