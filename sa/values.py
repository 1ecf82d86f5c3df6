"""Abstract values of the analyser."""

from __future__ import annotations

from fractions import Fraction

from .poly import Poly
from . import poly as P


class TopV:
    """Unknown value; deps = data sources it may depend on."""

    __slots__ = ("deps", "kind", "key")

    def __init__(self, deps=frozenset(), kind="", key=None):
        self.deps = frozenset(deps)
        self.kind = kind  # '' | 'data' (a number computed from tensor values)
        self.key = key

    def __repr__(self):
        return "Top%s" % (":" + self.kind if self.kind else "")


TOP = TopV()


class SymStr:
    """A string that is not known: composed of literals and values (parts), or
    opaque (identified by name, unless `anon`: then equal to nothing for sure)."""

    __slots__ = ("name", "parts", "anon")

    def __init__(self, name, parts=None, anon=False):
        self.name = name
        self.parts = parts
        self.anon = anon

    def __hash__(self):
        return hash(("SymStr", self.name))

    def __eq__(self, o):
        return isinstance(o, SymStr) and o.name == self.name

    def __repr__(self):
        return "<str %s>" % self.name


class TupV:
    __slots__ = ("items", "cls", "star", "tname")

    def __init__(self, items, cls=None, star=None, tname="tuple"):
        self.items = tuple(items)
        self.cls = cls
        self.star = star
        self.tname = tname  # 'tuple' or 'torch.Size'

    def __repr__(self):
        return "%s%r" % (self.cls.name if self.cls else "", self.items)


class SliceV:
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def __repr__(self):
        return "slice(%s,%s,%s)" % (self.lo, self.hi, self.step)


class RangeV:
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class DTypeV:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __hash__(self):
        return hash(("dt", self.name))

    def __eq__(self, o):
        return isinstance(o, DTypeV) and o.name == self.name

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return "torch." + self.name


class DeviceV:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __hash__(self):
        return hash(("dev", self.name))

    def __eq__(self, o):
        return isinstance(o, DeviceV) and o.name == self.name

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return "device(%s)" % self.name


class Ext:
    """A name in an external library, by canonical dotted path."""

    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __hash__(self):
        return hash(("ext", self.path))

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __repr__(self):
        return "<%s>" % self.path


class Obj:
    """Base of mutable abstract objects."""

    __slots__ = ("owner", "serial")
    _n = 0

    def __init__(self):
        Obj._n += 1
        self.serial = Obj._n
        self.owner = None


class ListV(Obj):
    __slots__ = ("items", "star", "kind")

    def __init__(self, items=(), star=None, kind="list"):
        super().__init__()
        self.items = list(items)
        self.star = star
        self.kind = kind  # 'list' | 'deque'

    def __repr__(self):
        return "[%s%s]" % (", ".join(map(repr, self.items)), ", *" if self.star is not None else "")

    def snap(self):
        return (list(self.items), self.star)

    def restore(self, s):
        self.items, self.star = list(s[0]), s[1]


class DictV(Obj):
    __slots__ = ("items", "star")

    def __init__(self, items=None, star=None):
        super().__init__()
        self.items = dict(items or {})  # hkey -> (key, value)
        self.star = star

    def __repr__(self):
        return "{%s}" % ", ".join("%r: %r" % kv for kv in self.items.values())

    def snap(self):
        return (dict(self.items), self.star)

    def restore(self, s):
        self.items, self.star = dict(s[0]), s[1]


class SetV(Obj):
    __slots__ = ("items", "star", "frozen")

    def __init__(self, items=None, star=None, frozen=False):
        super().__init__()
        self.items = dict(items or {})  # hkey -> value
        self.star = star
        self.frozen = frozen

    def snap(self):
        return (dict(self.items), self.star)

    def restore(self, s):
        self.items, self.star = dict(s[0]), s[1]


class InstV(Obj):
    __slots__ = ("cls", "attrs", "extra")

    def __init__(self, cls, attrs=None):
        super().__init__()
        self.cls = cls
        self.attrs = dict(attrs or {})
        self.extra = {}

    def __repr__(self):
        return "<%s object>" % (self.cls.name if isinstance(self.cls, ClassV) else self.cls)

    def snap(self):
        return dict(self.attrs)

    def restore(self, s):
        self.attrs = dict(s)


class IterV(Obj):
    """One-shot iterator over a python generator of abstract values."""

    __slots__ = ("gen", "star")

    def __init__(self, gen, star=None):
        super().__init__()
        self.gen = gen
        self.star = star


class Scope:
    __slots__ = ("vars", "parent", "fn", "globals_", "nonlocals", "cls", "module")

    def __init__(self, parent=None, module=None, fn=None):
        self.vars = {}
        self.parent = parent
        self.fn = fn
        self.module = module if module is not None else (parent.module if parent else None)
        self.globals_ = set()
        self.nonlocals = set()
        self.cls = None


class ModuleV:
    def __init__(self, name, path):
        self.name = name
        self.path = path
        self.scope = None


class FuncV:
    __slots__ = ("node", "name", "scope", "defaults", "kwdefaults", "module", "cls", "attrs", "is_gen", "qual")

    def __init__(self, node, name, scope, defaults, kwdefaults, module, cls=None):
        self.node = node
        self.name = name
        self.scope = scope
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.module = module
        self.cls = cls
        self.attrs = {}
        self.is_gen = False
        self.qual = name

    def __repr__(self):
        return "<function %s>" % self.qual


class BoundV:
    __slots__ = ("fn", "self_")

    def __init__(self, fn, self_):
        self.fn = fn
        self.self_ = self_

    def __repr__(self):
        return "<bound %r>" % (self.fn,)


class NativeV:
    """A callable implemented by the analyser."""

    __slots__ = ("name", "fn")

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return "<native %s>" % self.name


class PartialV:
    __slots__ = ("fn", "args", "kwargs")

    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, tuple(args), dict(kwargs)


class PropV:
    __slots__ = ("fget", "fset", "cached")

    def __init__(self, fget, fset=None, cached=False):
        self.fget = fget
        self.fset = fset
        self.cached = cached


class StaticV:
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


class ClassMV:
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


class ClassV:
    def __init__(self, name, bases, ns, module, node=None):
        self.name = name
        self.bases = bases
        self.ns = ns
        self.module = module
        self.node = node
        self.nt_fields = None
        self.nt_defaults = {}
        self.mro = self._mro()

    def _mro(self):
        seqs = [[self]]
        for b in self.bases:
            seqs.append(list(b.mro) if isinstance(b, ClassV) else [b])
        seqs.append(list(self.bases))
        out = []
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            seqs = [[x for x in s if x is not h and x != h] for s in seqs]
            seqs = [s for s in seqs if s]
        return out

    def lookup(self, name):
        for c in self.mro:
            if isinstance(c, ClassV) and name in c.ns:
                return c.ns[name], c
        return None

    def is_sub(self, other):
        return any(c is other or c == other for c in self.mro)

    def __repr__(self):
        return "<class %s>" % self.name


class Storage:
    """Identity of a tensor's memory, with the caller-visible owner (if any)."""

    __slots__ = ("owner", "serial", "ver")
    _n = 0

    def __init__(self, owner=None):
        Storage._n += 1
        self.serial = Storage._n
        self.owner = owner
        self.ver = 0


class TensorV(Obj):
    """Abstract tensor."""

    __slots__ = (
        "dims", "cont", "dtype", "device", "store", "g", "d", "contig", "layout",
        "op", "param", "values", "idt", "reqgrad", "attrs", "note", "inplace_kill", "ver", "grank", "loc", "ex", "strides",
    )

    def __init__(self, dims, cont=None, dtype=None, device=None, store=None, g=frozenset(), d=frozenset()):
        super().__init__()
        self.dims = dims  # tuple of int|Poly|TOP, or None when the rank is unknown
        self.cont = cont  # labels.Content or None
        self.dtype = dtype if dtype is not None else TOP
        self.device = device if device is not None else TOP
        self.store = store if store is not None else Storage()
        self.g = frozenset(g)
        self.d = frozenset(d)
        self.contig = True
        self.layout = "strided"
        self.op = None  # operator term for sparse matrices
        self.param = False
        self.values = None  # concrete list for small index tensors
        self.idt = None  # dtype of sparse indices
        self.reqgrad = None
        self.attrs = {}
        self.note = None
        self.inplace_kill = False
        self.ver = 0
        self.grank = None
        self.loc = None
        self.ex = None  # exact contents (sa/exact.py)
        self.strides = None  # (base, poly) per dimension of a tensor which is not contiguous, when known

    def __repr__(self):
        return "Tensor(%s, %s, %s)" % (
            "?" if self.dims is None else [P.show(x) if isinstance(x, Poly) else x for x in self.dims],
            self.dtype, self.device,
        )

    def snap(self):
        return {s: getattr(self, s) for s in self.__slots__}

    def restore(self, s):
        for k, v in s.items():
            setattr(self, k, v)


class SeqV:
    """An external immutable sequence of floats with a symbolic length (filter taps)."""

    __slots__ = ("slot", "length", "flipped")

    def __init__(self, slot, length, flipped=False):
        self.slot = slot
        self.length = length
        self.flipped = flipped

    def __repr__(self):
        return "<taps %s>" % self.slot


class NdV:
    """Abstract numpy array / pywt data (dims known or None)."""

    __slots__ = ("dims", "d", "g", "owner", "kind", "dtype")

    def __init__(self, dims=None, d=frozenset(), owner=None, kind="ndarray", dtype=TOP):
        self.dims = dims
        self.d = frozenset(d)
        self.g = frozenset()
        self.owner = owner
        self.kind = kind
        self.dtype = dtype


def is_num(v):
    return isinstance(v, (int, float, Fraction, Poly)) and not isinstance(v, bool)


def is_int(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or isinstance(v, Poly)
