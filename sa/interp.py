"""The abstract interpreter for the python source of ptwt.

It evaluates syntax trees over the abstract domain of values.py.  Nothing of the
analysed program is imported or executed; library calls are given by the transfer
functions in models_*.py.
"""

from __future__ import annotations

import ast
import os
from fractions import Fraction

from . import poly as P
from .poly import Poly
from .cell import Excluded, NeedSplit
from .values import *
from . import values as V


class AnalysisError(Exception):
    """The analyser itself cannot proceed (unsupported construct)."""


class AbsRaise(Exception):
    def __init__(self, cls, args=(), loc=None, lib=False, why=""):
        super().__init__(cls)
        self.cls = cls  # Ext('builtins.X') or ClassV
        self.args_ = args
        self.loc = loc
        self.lib = lib  # raised by a library model, not by a raise statement
        self.why = why

    def name(self):
        return self.cls.name if isinstance(self.cls, ClassV) else self.cls.path.split(".")[-1]


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


EXC_PARENT = {
    "BaseException": None, "Exception": "BaseException", "KeyboardInterrupt": "BaseException",
    "SystemExit": "BaseException", "GeneratorExit": "BaseException",
    "ArithmeticError": "Exception", "ZeroDivisionError": "ArithmeticError", "OverflowError": "ArithmeticError",
    "AssertionError": "Exception", "AttributeError": "Exception", "ImportError": "Exception",
    "ModuleNotFoundError": "ImportError", "LookupError": "Exception", "IndexError": "LookupError",
    "KeyError": "LookupError", "NameError": "Exception", "UnboundLocalError": "NameError",
    "OSError": "Exception", "RuntimeError": "Exception", "NotImplementedError": "RuntimeError",
    "RecursionError": "RuntimeError", "StopIteration": "Exception", "TypeError": "Exception",
    "ValueError": "Exception", "UnicodeError": "ValueError", "Warning": "Exception",
    "DeprecationWarning": "Warning", "UserWarning": "Warning", "FutureWarning": "Warning",
    "RuntimeWarning": "Warning", "PendingDeprecationWarning": "Warning",
}
BUILTIN_TYPES = {
    "int", "float", "complex", "bool", "str", "bytes", "list", "tuple", "dict", "set", "frozenset",
    "object", "type", "slice", "range", "property", "staticmethod", "classmethod",
}
EXT_SUB = {
    ("builtins.bool", "builtins.int"),
    ("torch.nn.Parameter", "torch.Tensor"),
    ("torch.Size", "builtins.tuple"),
    ("collections.OrderedDict", "builtins.dict"),
}
ABC = {
    "Sequence": {"list", "tuple", "str", "range"},
    "MutableSequence": {"list"},
    "Iterable": {"list", "tuple", "str", "dict", "set", "frozenset", "range"},
    "Collection": {"list", "tuple", "str", "dict", "set", "frozenset", "range"},
    "Sized": {"list", "tuple", "str", "dict", "set", "frozenset", "range"},
    "Mapping": {"dict"}, "MutableMapping": {"dict"}, "Set": {"set", "frozenset"}, "Hashable": {"str", "int", "tuple"},
    "Number": {"int", "float", "bool", "complex"}, "Integral": {"int", "bool"}, "Real": {"int", "float", "bool"},
}

CANON = {
    "torch.nn.parameter.Parameter": "torch.nn.Parameter",
    "torch.functional": "torch",
    "torch._tensor.Tensor": "torch.Tensor",
    "typing_extensions": "typing",
}


def canon(path):
    for a, b in CANON.items():
        if path == a:
            return b
        if path.startswith(a + "."):
            return b + path[len(a):]
    return path


def builtin(name):
    return Ext("builtins." + name)


def frozen_key(vs):
    """Identity of arguments which cannot change during a call, or None."""
    out = []
    for v in vs:
        if isinstance(v, TupV):
            k = frozen_key(v.items)
            if k is None:
                return None
            out.append(("t", k))
        elif v is None or isinstance(v, (str, bool)) or V.is_num(v):
            out.append((type(v).__name__, v))
        elif isinstance(v, TensorV):
            out.append(("T", id(v), v.ver))
        else:
            return None
    return tuple(out)


class Interp:
    def __init__(self, loader, cell):
        self.loader = loader
        self.cell = cell
        self.effects = []
        self.notes = []
        self.unknown = {}
        self.fresh = {}
        self.stack = []  # (qualname, file)
        self.node = None
        self.grad_enabled = True
        self.loop_logs = []
        self.visits = {}
        self.steps = 0
        self.max_steps = 3_000_000
        self.rec_limit = 12
        self.rec_keys = {}
        self.while_limit = 10
        self.yields = []
        self.modules = loader.modules
        self.covered = set()
        self.datactl = []
        self.dflt = DTypeV("float32")  # torch.get_default_dtype()
        self.zero_taps = {}  # filter -> positions of taps that are zero (exact analysis)

    # ----- locations, effects ------------------------------------------------
    def loc(self):
        q, f = self.stack[-1] if self.stack else ("<driver>", "")
        line = getattr(self.node, "lineno", 0)
        return "%s:%s %s" % (f, line, q)

    def effect(self, kind, detail, **kw):
        e = {"kind": kind, "detail": detail, "loc": self.loc()}
        e.update(kw)
        self.effects.append(e)

    def fresh_key(self, what):
        line = getattr(self.node, "lineno", 0)
        col = getattr(self.node, "col_offset", 0)
        f = self.stack[-1][1] if self.stack else ""
        k = (what, f, line, col, len(self.stack))
        self.visits[k] = self.visits.get(k, 0) + 1
        return "%s@%s:%s.%s.%s#%d" % (what, os.path.basename(f), line, col, len(self.stack), self.visits[k])

    def raise_(self, name, why="", lib=True):
        raise AbsRaise(builtin(name), (why,), self.loc(), lib=lib, why=why)

    def touch(self, obj, what):
        """Called before every mutation of an abstract object."""
        if obj.owner:
            self.effect("mutate", "%s of caller-owned %s" % (what, obj.owner), target=obj.owner)
        if getattr(obj, "serial", 0) <= self.loader.module_serial:
            self.loader.dirty = True
        for log in self.loop_logs:
            if id(obj) not in log:
                log[id(obj)] = (obj, obj.snap())

    # ----- modules ------------------------------------------------------------
    def import_module(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        path = self.loader.find(name)
        if path is None:
            return Ext(canon(name))
        m = ModuleV(name, path)
        self.modules[name] = m
        sc = Scope(module=m)
        m.scope = sc
        sc.vars["__name__"] = name
        sc.vars["__file__"] = path
        tree = self.loader.parse(path)
        self.stack.append(("<module %s>" % name, self.loader.rel(path)))
        try:
            self.exec_block(tree.body, sc)
        finally:
            self.stack.pop()
        return m

    def resolve_from(self, module, level, cur):
        if level:
            pkg = cur.name if cur.path.endswith("__init__.py") else cur.name.rpartition(".")[0]
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            return pkg + ("." + module if module else "")
        return module

    # ----- statements ------------------------------------------------------
    def exec_block(self, stmts, sc):
        for s in stmts:
            self.exec(s, sc)

    def exec(self, s, sc):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Excluded("step budget")
        self.node = s
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise AnalysisError("unsupported statement %s at %s" % (type(s).__name__, self.loc()))
        m(s, sc)

    def s_Expr(self, s, sc):
        self.eval(s.value, sc)

    def s_Pass(self, s, sc):
        pass

    def s_Return(self, s, sc):
        raise _Return(self.eval(s.value, sc) if s.value is not None else None)

    def s_Break(self, s, sc):
        raise _Break()

    def s_Continue(self, s, sc):
        raise _Continue()

    def s_Import(self, s, sc):
        for a in s.names:
            if a.asname:
                v = self.import_module(a.name)
                self.set_var(sc, a.asname, v)
            else:
                top = a.name.split(".")[0]
                v = self.import_module(a.name)
                self.set_var(sc, top, self.import_module(top) if not isinstance(v, Ext) else Ext(canon(top)))

    def s_ImportFrom(self, s, sc):
        name = self.resolve_from(s.module or "", s.level, sc.module)
        if name == "__future__":
            return
        m = self.import_module(name)
        for a in s.names:
            if a.name == "*":
                if isinstance(m, ModuleV):
                    for k, v in m.scope.vars.items():
                        if not k.startswith("_"):
                            self.set_var(sc, k, v)
                continue
            self.set_var(sc, a.asname or a.name, self.module_attr(m, a.name))

    def module_attr(self, m, name):
        if isinstance(m, ModuleV):
            if name in m.scope.vars:
                return m.scope.vars[name]
            sub = self.import_module(m.name + "." + name)
            if isinstance(sub, ModuleV):
                return sub
            self.raise_("ImportError", "cannot import name %s from %s" % (name, m.name))
        return self.ext_attr(m, name)

    def s_FunctionDef(self, s, sc):
        defaults = [self.eval(d, sc) for d in s.args.defaults]
        kwd = [self.eval(d, sc) if d is not None else None for d in s.args.kw_defaults]
        f = FuncV(s, s.name, sc, defaults, kwd, sc.module)
        f.is_gen = _is_generator(s)
        f.qual = (sc.module.name + "." if sc.module else "") + (sc.cls + "." if sc.cls else "") + s.name
        v = f
        for d in reversed(s.decorator_list):
            dv = self.eval(d, sc)
            v = self.apply_decorator(dv, v, s)
        self.set_var(sc, s.name, v)

    s_AsyncFunctionDef = s_FunctionDef

    def apply_decorator(self, dv, v, s):
        if isinstance(dv, Ext):
            p = dv.path
            if p == "builtins.property":
                return PropV(v)
            if p in ("functools.cached_property",):
                return PropV(v, cached=True)
            if p == "builtins.staticmethod":
                return StaticV(v)
            if p == "builtins.classmethod":
                return ClassMV(v)
            if p in ("typing.overload",):
                return v
            if p in ("abc.abstractmethod", "typing.final", "typing.override", "typing.runtime_checkable"):
                return v
        return self.call(dv, [v], {})

    def s_ClassDef(self, s, sc):
        bases = []
        for b in s.bases:
            bv = self.eval(b, sc)
            if isinstance(bv, TupV) or isinstance(bv, TopV):
                continue
            bases.append(bv)
        for k in s.keywords:
            self.eval(k.value, sc)
        csc = Scope(parent=sc, module=sc.module)
        csc.cls = s.name
        is_nt = any(isinstance(b, Ext) and b.path == "typing.NamedTuple" for b in bases)
        fields = []
        for st in s.body:
            if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                fields.append(st.target.id)
            self.exec(st, csc)
        c = ClassV(s.name, [b for b in bases if isinstance(b, (Ext, ClassV))], csc.vars, sc.module, s)
        for v in csc.vars.values():
            f = v.fget if isinstance(v, PropV) else v.fn if isinstance(v, (StaticV, ClassMV)) else v
            if isinstance(f, FuncV) and f.scope is csc:
                f.cls = c
        # functions wrapped by decorators still need __class__ for super()
        csc.vars["__class__"] = c
        if is_nt:
            c.nt_fields = fields
            c.nt_defaults = {k: csc.vars[k] for k in fields if k in csc.vars}
        else:
            for b in c.mro[1:]:
                if isinstance(b, ClassV) and b.nt_fields:
                    c.nt_fields, c.nt_defaults = b.nt_fields, b.nt_defaults
                    break
        v = c
        for d in reversed(s.decorator_list):
            dv = self.eval(d, sc)
            path = dv.path if isinstance(dv, Ext) else None
            if isinstance(dv, InstV) and dv.cls == Ext("dataclasses.dataclass"):
                path = "dataclasses.dataclass"
            if path == "dataclasses.dataclass":
                c.extra_fields = [
                    f for f in fields
                ]
                c.nt_defaults = {k: csc.vars[k] for k in fields if k in csc.vars}
                c.is_dataclass = True
            elif path in ("typing.runtime_checkable", "typing.final", "functools.total_ordering"):
                pass
            else:
                v = self.call(dv, [v], {})
        self.set_var(sc, s.name, v)

    def s_Assign(self, s, sc):
        v = self.eval(s.value, sc)
        for t in s.targets:
            self.assign(t, v, sc)

    def s_AnnAssign(self, s, sc):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, sc), sc)

    def s_AugAssign(self, s, sc):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, sc)
            new = self.inplace(type(s.op).__name__, old, self.eval(s.value, sc))
            self.set_var(sc, t.id, new)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, sc)
            old = self.getattr(o, t.attr)
            new = self.inplace(type(s.op).__name__, old, self.eval(s.value, sc))
            self.setattr(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, sc)
            k = self.eval(t.slice, sc)
            old = self.getitem(o, k)
            new = self.inplace(type(s.op).__name__, old, self.eval(s.value, sc))
            self.setitem(o, k, new)

    def inplace(self, op, old, val):
        if isinstance(old, ListV) and op == "Add":
            self.list_extend(old, val)
            return old
        if isinstance(old, DictV) and op == "BitOr":
            self.dict_update(old, val)
            return old
        if isinstance(old, SetV) and op in ("BitOr",):
            self.touch(old, "in-place update")
            for x in self.iterate(val):
                self.set_add(old, x)
            return old
        if isinstance(old, TensorV):
            r = self.binop(op, old, val)
            return self.T.inplace_result(self, old, r, "augmented assignment")
        if isinstance(old, NdV):
            return self.N.inplace(self, op, old, val)
        return self.binop(op, old, val)

    def s_Delete(self, s, sc):
        for t in s.targets:
            if isinstance(t, ast.Name):
                sc.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, sc)
                k = self.eval(t.slice, sc)
                self.delitem(o, k)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, sc)
                if isinstance(o, InstV):
                    self.touch(o, "attribute deletion")
                    o.attrs.pop(t.attr, None)

    def delitem(self, o, k):
        if isinstance(o, DictV):
            self.touch(o, "item deletion")
            hk = self.dict_find(o, k)
            if hk is None:
                self.raise_("KeyError", "del")
            if hk in o.items:
                del o.items[hk]
        elif isinstance(o, ListV):
            self.touch(o, "item deletion")
            if isinstance(k, SliceV) and all(x is None or isinstance(x, int) for x in (k.lo, k.hi, k.step)) and o.star is None:
                del o.items[slice(k.lo, k.hi, k.step)]
            elif isinstance(k, int) and o.star is None and -len(o.items) <= k < len(o.items):
                del o.items[k]
            else:
                self.widen_list(o)
        elif isinstance(o, InstV):
            m = self.find_method(o, "__delitem__")
            if m:
                self.call(m, [k], {})

    def s_If(self, s, sc):
        if self.truth(self.eval(s.test, sc), s):
            self.exec_block(s.body, sc)
        else:
            self.exec_block(s.orelse, sc)

    def s_Assert(self, s, sc):
        if not self.truth(self.eval(s.test, sc), s):
            raise AbsRaise(builtin("AssertionError"), (), self.loc())

    def s_Raise(self, s, sc):
        loc = self.loc()
        if s.exc is None:
            cur = getattr(self, "cur_exc", None)
            if cur is not None:
                raise cur
            self.raise_("RuntimeError", "no active exception")
        v = self.eval(s.exc, sc)
        if s.cause is not None:
            self.eval(s.cause, sc)
        self.node = s
        raise self.make_raise(v, loc)

    def make_raise(self, v, loc):
        if isinstance(v, (Ext, ClassV)):
            return AbsRaise(v, (), loc)
        if isinstance(v, InstV):
            return AbsRaise(v.cls, v.attrs.get("args", ()), loc)
        return AbsRaise(builtin("Exception"), (v,), loc)

    def s_Try(self, s, sc):
        try:
            try:
                self.exec_block(s.body, sc)
            except AbsRaise as e:
                for h in s.handlers:
                    if h.type is None or self.exc_match(e, self.eval(h.type, sc)):
                        if h.name:
                            inst = InstV(e.cls, {"args": TupV(e.args_)})
                            self.set_var(sc, h.name, inst)
                        old = getattr(self, "cur_exc", None)
                        self.cur_exc = e
                        try:
                            self.exec_block(h.body, sc)
                        finally:
                            self.cur_exc = old
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, sc)
        except (NeedSplit, Excluded, AnalysisError):
            raise
        except BaseException:
            self.exec_block(s.finalbody, sc)
            raise
        else:
            self.exec_block(s.finalbody, sc)

    def exc_match(self, e, t):
        if isinstance(t, TupV):
            return any(self.exc_match(e, x) for x in t.items)
        return self.issub(e.cls, t)

    def s_With(self, s, sc):
        exits = []
        for it in s.items:
            cm = self.eval(it.context_expr, sc)
            val, ex = self.enter(cm)
            exits.append(ex)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, val, sc)
        try:
            self.exec_block(s.body, sc)
        finally:
            for ex in reversed(exits):
                ex()

    def enter(self, cm):
        if isinstance(cm, Ext) and cm.path in ("torch.no_grad", "torch.inference_mode", "torch.enable_grad"):
            cm = InstV(cm)
        if isinstance(cm, InstV) and isinstance(cm.cls, Ext):
            p = cm.cls.path
            if p in ("torch.no_grad", "torch.inference_mode"):
                old = self.grad_enabled
                self.grad_enabled = False

                def ex():
                    self.grad_enabled = old

                return None, ex
            if p in ("torch.enable_grad", "torch.set_grad_enabled"):
                old = self.grad_enabled
                flag = cm.attrs.get("mode", True)
                self.grad_enabled = bool(flag) if isinstance(flag, bool) else True

                def ex2():
                    self.grad_enabled = old

                return None, ex2
            if p in ("contextlib.suppress", "contextlib.nullcontext", "warnings.catch_warnings"):
                return None, (lambda: None)
        if isinstance(cm, InstV) and isinstance(cm.cls, ClassV):
            ent = self.find_method(cm, "__enter__")
            exi = self.find_method(cm, "__exit__")
            if ent:
                v = self.call(ent, [], {})
                return v, (lambda: self.call(exi, [None, None, None], {}) if exi else None)
        return TOP, (lambda: None)

    def s_Global(self, s, sc):
        sc.globals_.update(s.names)

    def s_Nonlocal(self, s, sc):
        sc.nonlocals.update(s.names)

    def s_TypeAlias(self, s, sc):
        pass

    def s_Match(self, s, sc):
        v = self.eval(s.subject, sc)
        for c in s.cases:
            if self.match(c.pattern, v, sc) and (c.guard is None or self.truth(self.eval(c.guard, sc), c.guard)):
                self.exec_block(c.body, sc)
                return

    def match(self, p, v, sc):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.eq(v, self.eval(p.value, sc)), p)
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, sc):
                return False
            if p.name:
                self.set_var(sc, p.name, v)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, sc) for q in p.patterns)
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (TupV, ListV)):
                return False
            its = self.iterate(v)
            if len(its) != len(p.patterns):
                return False
            return all(self.match(q, x, sc) for q, x in zip(p.patterns, its))
        if isinstance(p, ast.MatchClass):
            c = self.eval(p.cls, sc)
            return self.isinstance_(v, c)
        raise AnalysisError("match pattern")

    # ----- loops -------------------------------------------------------------
    def s_While(self, s, sc):
        n = rounds = 0
        while True:
            before = (self.cell.decisions, len(self.cell.soft))
            if not self.truth(self.eval(s.test, sc), s):
                self.exec_block(s.orelse, sc)
                return
            rounds += 1
            if before != (self.cell.decisions, len(self.cell.soft)):
                n += 1
            if n > self.while_limit or rounds > 2000:
                raise Excluded("while loop bound (%d) at %s" % (self.while_limit, self.loc()))
            try:
                self.exec_block(s.body, sc)
            except _Break:
                return
            except _Continue:
                pass

    def s_For(self, s, sc):
        it = self.eval(s.iter, sc)
        items, star = self.iter_spec(it)
        broke = False
        for x in items:
            self.assign(s.target, x, sc)
            try:
                self.exec_block(s.body, sc)
            except _Break:
                broke = True
                break
            except _Continue:
                continue
        if not broke and star is not None:
            self.star_loop(s, star, sc)
        if not broke:
            self.exec_block(s.orelse, sc)

    s_AsyncFor = s_For

    def star_loop(self, s, elem, sc):
        """Iteration over an unknown number of elements: join until stable."""
        key = "len@%s:%d.%d" % (os.path.basename(self.stack[-1][1]), s.lineno, len(self.stack))
        if not self.cell.token(self.fresh_key("nonempty"), soft=False):
            return
        for _ in range(3):
            before = dict(sc.vars)
            log = {}
            self.loop_logs.append(log)
            try:
                self.assign(s.target, elem, sc)
                try:
                    self.exec_block(s.body, sc)
                except (_Break, _Continue):
                    pass
            finally:
                self.loop_logs.pop()
            changed = False
            for k, v in list(sc.vars.items()):
                if k in before:
                    j = self.join(before[k], v)
                    if not self.same(j, before[k]):
                        changed = True
                    sc.vars[k] = j
            for obj, snap in log.values():
                self.join_obj(obj, snap)
                changed = True
            if not changed:
                break

    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, (int, float, str, Poly, SymStr, DTypeV, DeviceV, Ext, bool)) and type(a) == type(b):
            return a == b
        if isinstance(a, TopV) and isinstance(b, TopV):
            return True
        if isinstance(a, TensorV) and isinstance(b, TensorV):
            return a.dims == b.dims and a.dtype == b.dtype and a.device == b.device and a.g == b.g
        return False

    def join(self, a, b):
        if self.same(a, b):
            return a
        if isinstance(a, TensorV) and isinstance(b, TensorV):
            dims = None
            if a.dims is not None and b.dims is not None and len(a.dims) == len(b.dims):
                dims = tuple(x if x == y else TOP for x, y in zip(a.dims, b.dims))
            t = TensorV(dims, None, a.dtype if a.dtype == b.dtype else TOP,
                        a.device if a.device == b.device else TOP,
                        a.store if a.store is b.store else Storage(), a.g & b.g if (a.d and b.d) else a.g | b.g, a.d | b.d)
            t.contig = a.contig and b.contig
            t.layout = a.layout if a.layout == b.layout else "?"
            t.idt = a.idt if a.idt == b.idt else None
            t.op = a.op if a.op == b.op else None
            t.reqgrad = a.reqgrad
            return t
        if isinstance(a, TupV) and isinstance(b, TupV) and len(a.items) == len(b.items) and a.cls is b.cls:
            return TupV([self.join(x, y) for x, y in zip(a.items, b.items)], a.cls, tname=a.tname)
        return TopV(self.deps(a) | self.deps(b))

    def join_obj(self, obj, snap):
        if isinstance(obj, ListV):
            items, star = snap
            if len(items) == len(obj.items) and star is obj.star:
                obj.items = [self.join(x, y) for x, y in zip(items, obj.items)]
            else:
                n = min(len(items), len(obj.items))
                rest = items[n:] + obj.items[n:]
                st = obj.star if obj.star is not None else star
                for x in rest:
                    st = x if st is None else self.join(st, x)
                obj.items = [self.join(x, y) for x, y in zip(items[:n], obj.items[:n])]
                obj.star = st
        elif isinstance(obj, DictV):
            items, star = snap
            new = {}
            st = obj.star if obj.star is not None else star
            for k, (kv, v) in obj.items.items():
                if k in items:
                    new[k] = (kv, self.join(items[k][1], v))
                else:
                    st = v if st is None else self.join(st, v)
            obj.items = new
            obj.star = st
        elif isinstance(obj, SetV):
            pass
        elif isinstance(obj, InstV):
            for k, v in list(obj.attrs.items()):
                if k in snap:
                    obj.attrs[k] = self.join(snap[k], v)
        elif isinstance(obj, TensorV):
            obj.cont = None if obj.cont != snap["cont"] else obj.cont

    def widen_list(self, o):
        st = o.star
        for x in o.items:
            st = x if st is None else self.join(st, x)
        o.items = []
        o.star = st if st is not None else TOP

    # ----- variables -----------------------------------------------------------
    def set_var(self, sc, name, v):
        if name in sc.globals_:
            g = sc.module.scope
            if self.stack and not self.stack[-1][0].startswith("<module"):
                self.effect("global-write", "module global %s.%s" % (sc.module.name, name))
                self.loader.dirty = True
            g.vars[name] = v
            return
        if name in sc.nonlocals:
            p = sc.parent
            while p is not None:
                if name in p.vars and p.cls is None:
                    p.vars[name] = v
                    return
                p = p.parent
        sc.vars[name] = v

    def lookup(self, name, sc):
        s = sc
        first = True
        while s is not None:
            if s.cls is None or first:
                if name in s.vars and name not in s.globals_:
                    return s.vars[name]
            first = first and s.cls is None and False
            s = s.parent
        if sc.module is not None and name in sc.module.scope.vars:
            return sc.module.scope.vars[name]
        if name in self.loader.prelude:
            return self.loader.prelude[name]
        if name in EXC_PARENT or name in BUILTIN_TYPES or name in self.B:
            return builtin(name)
        if name in ("True", "False", "None"):
            return {"True": True, "False": False, "None": None}[name]
        if name in ("NotImplemented", "Ellipsis", "__debug__"):
            return TOP
        # a local that may be assigned later in this function?
        fn = sc.fn
        if fn is not None and name in _local_names(fn.node):
            self.raise_("UnboundLocalError", "local variable '%s' referenced before assignment" % name)
        self.raise_("NameError", "name '%s' is not defined" % name)

    def assign(self, t, v, sc):
        if isinstance(t, ast.Name):
            self.set_var(sc, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, sc)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, sc), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, sc), self.eval(t.slice, sc), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, sc)
        else:
            raise AnalysisError("assign target")

    def unpack(self, elts, v, sc):
        stars = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        items, star = self.iter_spec(v, unpack=len(elts) if not stars else None)
        if star is not None:
            for i, e in enumerate(elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, ListV([], star), sc)
                else:
                    self.assign(e, items[i] if i < len(items) and not stars else star, sc)
            return
        items = list(items)
        if not stars:
            if len(items) != len(elts):
                self.raise_("ValueError", "cannot unpack %d values into %d targets" % (len(items), len(elts)))
            for e, x in zip(elts, items):
                self.assign(e, x, sc)
        else:
            k = stars[0]
            tail = len(elts) - k - 1
            if len(items) < len(elts) - 1:
                self.raise_("ValueError", "not enough values to unpack")
            for e, x in zip(elts[:k], items[:k]):
                self.assign(e, x, sc)
            self.assign(elts[k].value, ListV(items[k: len(items) - tail]), sc)
            for e, x in zip(elts[k + 1:], items[len(items) - tail:] if tail else []):
                self.assign(e, x, sc)

    # ----- expressions ---------------------------------------------------------
    def eval(self, e, sc):
        self.steps += 1
        old = self.node
        if hasattr(e, "lineno"):
            self.node = e
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise AnalysisError("unsupported expression %s at %s" % (type(e).__name__, self.loc()))
        try:
            r = m(e, sc)
        except (AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError, ZeroDivisionError) as x:
            # a gap of the analyser: the value is unknown
            if os.environ.get("VERIF_STRICT"):
                raise
            k = "internal %s: %s at %s" % (type(x).__name__, str(x)[:80], self.loc())
            self.unknown[k] = self.unknown.get(k, 0) + 1
            r = TopV()
        self.node = old
        return r

    def e_Constant(self, e, sc):
        v = e.value
        if isinstance(v, complex):
            return self.N.complex_lit(v)
        return v

    def e_Name(self, e, sc):
        return self.lookup(e.id, sc)

    def e_Tuple(self, e, sc):
        items, star = self.seq_items(e.elts, sc)
        return TupV(items, star=star)

    def e_List(self, e, sc):
        items, star = self.seq_items(e.elts, sc)
        return ListV(items, star)

    def seq_items(self, elts, sc):
        items = []
        star = None
        for x in elts:
            if isinstance(x, ast.Starred):
                its, st = self.iter_spec(self.eval(x.value, sc))
                items.extend(its)
                if st is not None:
                    star = st
            else:
                items.append(self.eval(x, sc))
        return items, star

    def e_Set(self, e, sc):
        s = SetV()
        for x in e.elts:
            self.set_add(s, self.eval(x, sc))
        return s

    def e_Dict(self, e, sc):
        d = DictV()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(d, self.eval(v, sc))
            else:
                kv = self.eval(k, sc)
                self.dict_set(d, kv, self.eval(v, sc))
        return d

    def e_IfExp(self, e, sc):
        if self.truth(self.eval(e.test, sc), e):
            return self.eval(e.body, sc)
        return self.eval(e.orelse, sc)

    def e_BoolOp(self, e, sc):
        isand = isinstance(e.op, ast.And)
        v = None
        for x in e.values:
            v = self.eval(x, sc)
            if x is e.values[-1]:
                return v
            t = self.truth(v, x)
            if isand and not t:
                return v if not isinstance(v, TopV) else False
            if not isand and t:
                return v if not isinstance(v, TopV) else True
        return v

    def e_UnaryOp(self, e, sc):
        v = self.eval(e.operand, sc)
        op = type(e.op).__name__
        if op == "Not":
            return not self.truth(v, e)
        return self.unop(op, v)

    def unop(self, op, v):
        if isinstance(v, bool):
            v = int(v)
        if V.is_num(v):
            if op == "USub":
                return P.neg(v) if not isinstance(v, float) else -v
            if op == "UAdd":
                return v
            if op == "Invert":
                return P.sub(P.neg(v), 1)
        if isinstance(v, TensorV):
            return self.T.unary(self, v, op)
        if isinstance(v, NdV):
            return self.N.unary(self, v, op)
        if isinstance(v, TopV):
            return self.N.complex_op("USub", v) if op == "USub" else TopV(v.deps, v.kind)
        if isinstance(v, InstV):
            m = self.find_method(v, {"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[op])
            if m:
                return self.call(m, [], {})
        return TOP

    def e_BinOp(self, e, sc):
        a = self.eval(e.left, sc)
        b = self.eval(e.right, sc)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        if isinstance(a, TensorV) or isinstance(b, TensorV):
            return self.T.binary(self, op, a, b)
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if isinstance(a, NdV) or isinstance(b, NdV):
            return self.N.binary(self, op, a, b)
        if V.is_num(a) and V.is_num(b):
            return self.num_binop(op, a, b)
        if isinstance(a, (str, SymStr)) and op == "Mod":
            return SymStr("fmt@%s" % self.loc(), anon=True)
        if isinstance(a, str) and isinstance(b, str) and op == "Add":
            return a + b
        if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)) and op == "Add":
            return self.strings(a, b)
        if op == "Mult":
            if isinstance(a, str) and isinstance(b, int):
                return a * b
            if isinstance(b, str) and isinstance(a, int):
                return a * b
            if isinstance(a, (ListV, TupV)) and V.is_int(b):
                return self.seq_repeat(a, b)
            if isinstance(b, (ListV, TupV)) and V.is_int(a):
                return self.seq_repeat(b, a)
        if op == "Add":
            if isinstance(a, ListV) and isinstance(b, ListV):
                return self.seq_concat(ListV, a, b)
            if isinstance(a, TupV) and isinstance(b, TupV):
                r = self.seq_concat(TupV, a, b)
                if a.tname == "torch.Size" and b.tname == "torch.Size":
                    r.tname = "torch.Size"
                return r
            if isinstance(a, (ListV, TupV)) and isinstance(b, (ListV, TupV)):
                self.raise_("TypeError", "can only concatenate same sequence types")
        if isinstance(a, SetV) and isinstance(b, SetV):
            return self.set_op(op, a, b)
        if isinstance(a, DictV) and isinstance(b, DictV) and op == "BitOr":
            d = DictV(a.items, a.star)
            self.dict_update(d, b)
            return d
        if op == "BitOr" and (isinstance(a, (Ext, ClassV, TupV)) or a is None):
            return TupV([x for y in (a, b) for x in (y.items if isinstance(y, TupV) and y.tname == "Union" else [y])], tname="Union")
        if isinstance(a, InstV):
            m = self.find_method(a, _DUNDER.get(op, "__x__"))
            if m:
                return self.call(m, [b], {})
        if isinstance(b, InstV):
            m = self.find_method(b, _RDUNDER.get(op, "__x__"))
            if m:
                return self.call(m, [a], {})
        if "complex" in (getattr(a, "kind", ""), getattr(b, "kind", "")):
            return self.N.complex_op(op, a, b)
        return TopV(self.deps(a) | self.deps(b), "data" if "data" in (getattr(a, "kind", ""), getattr(b, "kind", "")) else "")

    def seq_concat(self, T, a, b):
        if a.star is not None:
            st = a.star
            for x in b.items:
                st = self.join(st, x)
            if b.star is not None:
                st = self.join(st, b.star)
            return T(a.items, star=st)
        return T(list(a.items) + list(b.items), star=b.star)

    def seq_repeat(self, a, n):
        T = type(a)
        if isinstance(n, int) and a.star is None:
            return T(list(a.items) * n)
        st = None
        for x in a.items:
            st = x if st is None else self.join(st, x)
        return T([], star=st if st is not None else TOP)

    def set_op(self, op, a, b):
        r = SetV()
        if op == "BitOr":
            r.items = {**a.items, **b.items}
        elif op == "BitAnd":
            r.items = {k: v for k, v in a.items.items() if k in b.items}
        elif op == "Sub":
            r.items = {k: v for k, v in a.items.items() if k not in b.items}
        elif op == "BitXor":
            r.items = {k: v for k, v in list(a.items.items()) + list(b.items.items()) if (k in a.items) != (k in b.items)}
        else:
            return TOP
        return r

    def num_binop(self, op, a, b):
        c = self.cell
        if isinstance(a, float) and a == a and abs(a) != float("inf"):
            fa = Fraction(a)
        else:
            fa = a
        if isinstance(b, float) and b == b and abs(b) != float("inf"):
            fb = Fraction(b)
        else:
            fb = b
        isf = isinstance(a, float) or isinstance(b, float)
        if isinstance(fa, float) or isinstance(fb, float):
            return TOP
        if op == "Add":
            r = P.add(fa, fb)
        elif op == "Sub":
            r = P.sub(fa, fb)
        elif op == "Mult":
            r = P.mul(fa, fb)
        elif op == "Div":
            if P.is_const(fb):
                if fb == 0:
                    self.raise_("ZeroDivisionError", "division by zero")
                r = P.scale(fa, Fraction(1) / Fraction(fb)) if isinstance(fa, Poly) else Fraction(fa) / Fraction(fb)
                if isinstance(r, Fraction) and not isinstance(fa, Poly):
                    return float(r) if float(r) == r else r
                return r
            q = P.div_exact(fa, fb)
            if q is not None:
                return q
            return c.fn("truediv", (c.norm(fa), c.norm(fb)))
        elif op == "FloorDiv":
            if P.is_const(fb) and fb == 0:
                self.raise_("ZeroDivisionError", "division by zero")
            r = c.floordiv(fa, fb)
        elif op == "Mod":
            if P.is_const(fb) and fb == 0:
                self.raise_("ZeroDivisionError", "modulo by zero")
            r = c.mod(fa, fb)
        elif op == "Pow":
            if P.is_const(fa) and P.is_const(fb):
                try:
                    r = Fraction(fa) ** fb if isinstance(fb, int) else float(fa) ** float(fb)
                except Exception:
                    return TOP
                if isinstance(r, Fraction):
                    r = int(r) if r.denominator == 1 else r
            elif isinstance(fb, int) and 0 <= fb <= 6:
                r = 1
                for _ in range(fb):
                    r = P.mul(r, fa)
            elif P.is_const(fa) and fa == 2:
                r = c.fn("pow", (2, fb))
            else:
                return TOP
        elif op in ("LShift", "RShift", "BitAnd", "BitOr", "BitXor"):
            if isinstance(fa, int) and isinstance(fb, int):
                return {"LShift": lambda: fa << fb, "RShift": lambda: fa >> fb, "BitAnd": lambda: fa & fb,
                        "BitOr": lambda: fa | fb, "BitXor": lambda: fa ^ fb}[op]()
            if op == "LShift" and isinstance(fb, int):
                return P.mul(fa, 2 ** fb)
            if op == "RShift" and isinstance(fb, int):
                return c.floordiv(fa, 2 ** fb)
            if op == "BitAnd" and fb == 1:
                return c.mod(fa, 2)
            return TOP
        else:
            return TOP
        if isf and isinstance(r, int):
            return float(r)
        return r

    def e_Compare(self, e, sc):
        left = self.eval(e.left, sc)
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, sc)
            v = self.compare(type(op).__name__, left, right)
            if i == len(e.ops) - 1:
                return v
            if not self.truth(v, e):
                return False
            left = right
        return True

    def compare(self, op, a, b):
        if op in ("Is", "IsNot"):
            r = self.is_(a, b)
            if isinstance(r, TopV):
                return r
            return r if op == "Is" else not r
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            if isinstance(r, TopV):
                return r
            return r if op == "In" else not r
        if op in ("Eq", "NotEq"):
            if op == "NotEq" and (isinstance(a, (TensorV, NdV)) or isinstance(b, (TensorV, NdV))):
                x, y = (a, b) if isinstance(a, (TensorV, NdV)) else (b, a)
                if y is not None and not isinstance(y, (str, Ext)):
                    if isinstance(x, TensorV) or isinstance(y, TensorV):
                        return self.T.comparison(self, op, a, b)
                    if not isinstance(y, TopV):
                        return self.N.binary(self, op, a, b)
            r = self.eq(a, b)
            if isinstance(r, (TopV, TensorV, NdV)):
                return r
            return r if op == "Eq" else not r
        if isinstance(a, TensorV) or isinstance(b, TensorV):
            return self.T.comparison(self, op, a, b)
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if isinstance(a, float):
            a = Fraction(a) if abs(a) != float("inf") else a
        if isinstance(b, float):
            b = Fraction(b) if abs(b) != float("inf") else b
        if V.is_num(a) and V.is_num(b) and not isinstance(a, float) and not isinstance(b, float):
            d = P.sub(a, b)
            rat = P.denominators(self.cell.norm(d)) != 1 or any(x[0] == "f" and x[1] in ("truediv", "log2", "real") for x in P.atoms(d))
            if any(x[0] == "f" and x[1] in ("truediv", "log2", "real") for x in P.atoms(d)):
                return TopV()
            dd = P.denominators(self.cell.norm(d)) if isinstance(d, Poly) else (Fraction(d).denominator)
            d = P.scale(d, dd)
            if op == "GtE":
                return self.cell.decide_ge(d)
            if op == "Gt":
                return self.cell.decide_ge(P.sub(d, 1))
            if op == "LtE":
                return self.cell.decide_ge(P.neg(d))
            if op == "Lt":
                return self.cell.decide_ge(P.sub(P.neg(d), 1))
        if isinstance(a, str) and isinstance(b, str):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
        if isinstance(a, (NdV,)) or isinstance(b, NdV):
            return self.N.binary(self, op, a, b)
        if isinstance(a, SetV) and isinstance(b, SetV):
            ka, kb = set(a.items), set(b.items)
            return {"Lt": ka < kb, "LtE": ka <= kb, "Gt": ka > kb, "GtE": ka >= kb}[op]
        if isinstance(a, (TupV, ListV)) and isinstance(b, (TupV, ListV)):
            for x, y in zip(a.items, b.items):
                q = self.eq(x, y)
                if isinstance(q, TopV):
                    return q
                if not q:
                    return self.compare(op, x, y)
            n, m = len(a.items), len(b.items)
            return {"Lt": n < m, "LtE": n <= m, "Gt": n > m, "GtE": n >= m}[op]
        if a is None or b is None:
            if not isinstance(a, TopV) and not isinstance(b, TopV):
                self.raise_("TypeError", "ordering comparison with None")
        return TopV(self.deps(a) | self.deps(b), "data" if "data" in (getattr(a, "kind", ""), getattr(b, "kind", "")) else "")

    def is_(self, a, b):
        if a is None or b is None:
            if isinstance(a, TopV) or isinstance(b, TopV):
                return TopV()
            return a is None and b is None
        if isinstance(a, TopV) or isinstance(b, TopV):
            return TopV()
        if isinstance(a, (Ext, DTypeV, DeviceV)) or isinstance(b, (Ext, DTypeV, DeviceV)):
            return a == b
        if isinstance(a, bool) or isinstance(b, bool):
            return a is b
        if isinstance(a, (int, str)) and isinstance(b, (int, str)):
            return a == b and type(a) == type(b)
        return a is b

    def eq(self, a, b):
        if a is b and not isinstance(a, (TensorV, TopV, NdV)):
            return True
        if isinstance(a, TensorV) or isinstance(b, TensorV):
            if a is None or b is None or isinstance(a, (str, Ext)) or isinstance(b, (str, Ext)):
                return False
            return self.T.comparison(self, "Eq", a, b)
        if isinstance(a, TopV) or isinstance(b, TopV):
            return TopV(self.deps(a) | self.deps(b), getattr(a, "kind", "") or getattr(b, "kind", ""))
        if isinstance(a, NdV) or isinstance(b, NdV):
            return self.N.binary(self, "Eq", a, b)
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if isinstance(a, float) and abs(a) != float("inf"):
            a = Fraction(a)
        if isinstance(b, float) and abs(b) != float("inf"):
            b = Fraction(b)
        if V.is_num(a) and V.is_num(b):
            if isinstance(a, float) or isinstance(b, float):
                return False
            d = P.sub(a, b)
            if any(x[0] == "f" and x[1] in ("truediv", "log2", "real") for x in P.atoms(d)):
                return TopV()
            return self.cell.decide_eq(d)
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, SymStr) or isinstance(b, SymStr):
            if isinstance(a, SymStr) and isinstance(b, SymStr):
                return self.eq_strings(a, b)
            if isinstance(a, str) or isinstance(b, str):
                return TopV()
            return False
        if isinstance(a, (DTypeV, DeviceV, Ext)):
            return a == b
        if isinstance(a, TupV) and isinstance(b, TupV) or isinstance(a, ListV) and isinstance(b, ListV):
            if a.star is not None or b.star is not None:
                return TopV()
            if len(a.items) != len(b.items):
                return False
            for x, y in zip(a.items, b.items):
                q = self.eq(x, y)
                if isinstance(q, TensorV):
                    q = self.T.truth(self, q)
                if isinstance(q, TopV):
                    return q
                if not q:
                    return False
            return True
        if isinstance(a, RangeV) and isinstance(b, RangeV):
            return a.lo == b.lo and a.hi == b.hi and a.step == b.step
        if isinstance(a, DictV) and isinstance(b, DictV):
            if set(a.items) != set(b.items):
                return False
            for k in a.items:
                q = self.eq(a.items[k][1], b.items[k][1])
                if not isinstance(q, bool):
                    return TopV()
                if not q:
                    return False
            return True
        if isinstance(a, SetV) and isinstance(b, SetV):
            return set(a.items) == set(b.items)
        if isinstance(a, InstV):
            m = self.find_method(a, "__eq__")
            if m:
                return self.call(m, [b], {})
            return False
        return False

    def contains(self, c, x):
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, DictV):
            if isinstance(x, TopV):
                return TopV(x.deps, x.kind)
            hk = self.dict_find(c, x)
            if hk is not None:
                return True
            return TopV() if c.star is not None else False
        if isinstance(c, SetV):
            hk = hkey(x)
            if hk is None:
                return TopV()
            if hk in c.items:
                return True
            return self._contains_seq(list(c.items.values()), c.star, x)
        if isinstance(c, (ListV, TupV)):
            return self._contains_seq(c.items, c.star, x)
        if isinstance(c, RangeV):
            if isinstance(x, (int, Poly)) and c.step == 1:
                return self.compare("GtE", x, c.lo) and self.compare("Lt", x, c.hi)
            return TopV(self.deps(x))
        if isinstance(c, InstV):
            m = self.find_method(c, "__contains__")
            if m:
                return self.truth(self.call(m, [x], {}), self.node)
            its = self.iterate(c)
            return self._contains_seq(its, None, x)
        if isinstance(c, IterV):
            return self._contains_seq(list(self.iterate(c)), None, x)
        return TopV(self.deps(c) | self.deps(x))

    def _contains_seq(self, items, star, x):
        unk = False
        for y in items:
            q = True if y is x else self.eq(x, y)
            if isinstance(q, TensorV):
                q = self.T.truth(self, q)
            if isinstance(q, TopV):
                unk = True
            elif q:
                return True
        if star is not None or unk:
            return TopV()
        return False

    def e_Call(self, e, sc):
        # super() without arguments
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not self._shadowed("super", sc):
            return self.make_super(e, sc)
        f = self.eval(e.func, sc)
        args = []
        kwargs = {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                its, st = self.iter_spec(self.eval(a.value, sc))
                args.extend(its)
                if st is not None:
                    args.append(TOP)
            else:
                args.append(self.eval(a, sc))
        for k in e.keywords:
            v = self.eval(k.value, sc)
            if k.arg is None:
                if isinstance(v, DictV):
                    for kk, vv in v.items.values():
                        if isinstance(kk, str):
                            kwargs[kk] = vv
            else:
                kwargs[k.arg] = v
        self.node = e
        return self.call(f, args, kwargs)

    def _shadowed(self, name, sc):
        return sc.module is not None and name in sc.module.scope.vars

    def make_super(self, e, sc):
        if e.args:
            cls = self.eval(e.args[0], sc)
            obj = self.eval(e.args[1], sc)
        else:
            s = sc
            cls = None
            fn = None
            while s is not None:
                if s.fn is not None and fn is None:
                    fn = s.fn
                    fsc = s
                if "__class__" in s.vars:
                    cls = s.vars["__class__"]
                    break
                s = s.parent
            if fn is not None and fn.cls is not None:
                cls = fn.cls
            # innermost function with a first parameter
            s = sc
            obj = None
            while s is not None:
                if s.fn is not None and s.fn.node.args.args:
                    nm = s.fn.node.args.args[0].arg
                    if nm in s.vars and isinstance(s.vars[nm], (InstV, TupV, ClassV)):
                        obj = s.vars[nm]
                        break
                s = s.parent
        return NativeSuper(cls, obj)

    def e_Attribute(self, e, sc):
        return self.getattr(self.eval(e.value, sc), e.attr)

    def e_Subscript(self, e, sc):
        o = self.eval(e.value, sc)
        k = self.eval(e.slice, sc)
        self.node = e
        return self.getitem(o, k)

    def e_Slice(self, e, sc):
        ev = lambda x: self.eval(x, sc) if x is not None else None
        return SliceV(ev(e.lower), ev(e.upper), ev(e.step))

    def e_Lambda(self, e, sc):
        defaults = [self.eval(d, sc) for d in e.args.defaults]
        kwd = [self.eval(d, sc) if d is not None else None for d in e.args.kw_defaults]
        f = FuncV(e, "<lambda>", sc, defaults, kwd, sc.module)
        f.qual = "<lambda>"
        return f

    def e_JoinedStr(self, e, sc):
        out = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                out.append(str(x.value))
                continue
            v = self.eval(x.value, sc)
            if x.format_spec is not None:
                spec = self.eval(x.format_spec, sc)
                if isinstance(spec, str) and spec and isinstance(v, (str, int, float)):
                    try:
                        v = format(v, spec)
                    except ValueError as err:
                        self.raise_("ValueError", str(err))
                elif spec != "":
                    v = SymStr("fstr@%d" % e.lineno, anon=True)
            if x.conversion == 114:
                out.extend(self.text(v, True))
            else:
                out.append(v)
        return self.strings(*out)

    def e_NamedExpr(self, e, sc):
        v = self.eval(e.value, sc)
        s = sc
        while getattr(s, "fn", None) is None and s.parent is not None and s.cls is None and "__comp__" in s.vars:
            s = s.parent
        self.set_var(s, e.target.id, v)
        return v

    def e_Starred(self, e, sc):
        return self.eval(e.value, sc)

    def e_Await(self, e, sc):
        return self.eval(e.value, sc)

    def e_Yield(self, e, sc):
        v = self.eval(e.value, sc) if e.value is not None else None
        self.yields[-1].append(v)
        return None

    def e_YieldFrom(self, e, sc):
        its, st = self.iter_spec(self.eval(e.value, sc))
        self.yields[-1].extend(its)
        return None

    # comprehensions
    def comp(self, gens, sc, emit):
        """Run emit(scope) for every element; returns True when a star was met."""
        inner = Scope(parent=sc, module=sc.module)
        inner.vars["__comp__"] = True
        starred = [False]

        def rec(i, s):
            if i == len(gens):
                emit(s)
                return
            g = gens[i]
            items, star = self.iter_spec(self.eval(g.iter, s if i else sc))
            for x in items:
                self.assign(g.target, x, s)
                if all(self.truth(self.eval(c, s), c) for c in g.ifs):
                    rec(i + 1, s)
            if star is not None:
                starred[0] = True
                self.assign(g.target, star, s)
                if all(self.truth(self.eval(c, s), c) for c in g.ifs):
                    rec(i + 1, s)

        rec(0, inner)
        return starred[0]

    def e_ListComp(self, e, sc):
        out = []
        st = self.comp(e.generators, sc, lambda s: out.append(self.eval(e.elt, s)))
        r = ListV(out)
        if st:
            self.widen_list(r)
        return r

    def e_SetComp(self, e, sc):
        r = SetV()
        self.comp(e.generators, sc, lambda s: self.set_add(r, self.eval(e.elt, s)))
        return r

    def e_DictComp(self, e, sc):
        d = DictV()

        def emit(s):
            k = self.eval(e.key, s)
            self.dict_set(d, k, self.eval(e.value, s))

        st = self.comp(e.generators, sc, emit)
        return d

    def e_GeneratorExp(self, e, sc):
        # the outermost iterable is evaluated at once, the rest on demand
        first = self.iter_spec(self.eval(e.generators[0].iter, sc))
        interp = self

        def gen():
            inner = Scope(parent=sc, module=sc.module)
            inner.vars["__comp__"] = True

            def rec(i, s):
                if i == len(e.generators):
                    yield interp.eval(e.elt, s)
                    return
                g = e.generators[i]
                items, star = first if i == 0 else interp.iter_spec(interp.eval(g.iter, s))
                its = list(items) + ([star] if star is not None else [])
                for x in its:
                    interp.assign(g.target, x, s)
                    if all(interp.truth(interp.eval(c, s), c) for c in g.ifs):
                        yield from rec(i + 1, s)

            yield from rec(0, inner)

        star = first[1]
        it = IterV(gen())
        if star is not None:
            vals = list(it.gen)
            st = None
            for x in vals:
                st = x if st is None else self.join(st, x)
            return IterV(iter([]), star=st if st is not None else TOP)
        return it

    # ----- iteration ------------------------------------------------------------
    def iter_spec(self, v, unpack=None):
        """(definite prefix items, star element or None)."""
        if isinstance(v, TupV):
            return list(v.items), v.star
        if isinstance(v, ListV):
            if v.star is None:
                return _LiveList(v), None
            return list(v.items), v.star
        if isinstance(v, DictV):
            return [k for k, _ in list(v.items.values())], (TOP if v.star is not None else None)
        if isinstance(v, SetV):
            return sorted(v.items.values(), key=lambda x: repr(x)), v.star
        if isinstance(v, RangeV):
            return self.range_items(v, unpack)
        if isinstance(v, str):
            return list(v), None
        if isinstance(v, IterV):
            return v.gen, v.star
        if isinstance(v, TensorV):
            return self.T.iterate(self, v, unpack)
        if isinstance(v, SeqV):
            return [], TopV(kind="")
        if isinstance(v, NdV):
            return self.N.iterate(self, v, unpack)
        if isinstance(v, InstV):
            m = self.find_method(v, "__iter__")
            if m:
                return self.iter_spec(self.call(m, [], {}))
            if isinstance(v.cls, Ext):
                return [], TOP
            self.raise_("TypeError", "object is not iterable")
        if isinstance(v, TopV):
            if unpack is not None:
                return [TopV(v.deps, v.kind) for _ in range(unpack)], None
            return [], TopV(v.deps, v.kind)
        if isinstance(v, Ext):
            return [], TOP
        if v is None or V.is_num(v) or isinstance(v, bool):
            self.raise_("TypeError", "'%s' object is not iterable" % type(v).__name__)
        return [], TOP

    def iterate(self, v):
        items, star = self.iter_spec(v)
        items = list(items)
        if star is not None:
            items.append(star)
        return items

    def range_items(self, r, unpack):
        lo, hi, step = (self.cell.norm(x) if isinstance(x, Poly) else x for x in (r.lo, r.hi, r.step))
        if all(isinstance(x, int) for x in (lo, hi, step)):
            if len(range(lo, hi, step)) > 4000:
                return [], TOP
            return list(range(lo, hi, step)), None
        if step == 1 and isinstance(lo, int):
            n = P.sub(hi, lo)
            if self.level_like(n):
                interp = self

                def gen():
                    i = 0
                    while True:
                        if i >= interp.loader.level_cap:
                            raise Excluded("more than %d iterations of a parameter-bounded loop" % interp.loader.level_cap)
                        if not interp.cell.decide_ge(P.sub(n, i + 1)):
                            return
                        yield lo + i
                        i += 1

                return gen(), None
        return [], TopV(kind="index")

    def level_like(self, n):
        """Loop bounds that are decomposition-level counts are partitioned by value."""
        ats = P.atoms(n)
        return bool(ats) and all(
            a[0] == "f" and a[1] in ("maxlev", "swtlev", "min", "trunc") or a[0] == "s" and a[1].startswith("lev")
            for a in ats
        )

    # ----- truth -----------------------------------------------------------------
    def truth(self, v, node=None):
        if v is None:
            return False
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, float, Fraction)):
            return v != 0
        if isinstance(v, Poly):
            return not self.cell.decide_eq(v)
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, (TupV, ListV, DictV, SetV)):
            if v.items:
                return True
            if v.star is not None:
                return self.cell.token(self.fresh_key("nonempty"), soft=True)
            return False
        if isinstance(v, TensorV):
            return self.T.truth(self, v)
        if isinstance(v, InstV):
            m = self.find_method(v, "__bool__")
            if m:
                return self.truth(self.call(m, [], {}), node)
            m = self.find_method(v, "__len__")
            if m:
                return self.truth(self.call(m, [], {}), node)
            return True
        if isinstance(v, NdV):
            return self.cell.token(self.fresh_key("ndtruth"), soft=True)
        if isinstance(v, TopV):
            if v.kind == "data":
                self.datactl.append({"loc": self.loc(), "deps": sorted(v.deps), "why": "branch on a value computed from tensor data"})
                return self.cell.token(v.key or self.fresh_key("data"), soft=False)
            return self.cell.token(v.key or self.fresh_key("cond"), soft=True)
        return True

    def deps(self, v, depth=0):
        if isinstance(v, (TopV, NdV)):
            return v.deps if isinstance(v, TopV) else v.d
        if isinstance(v, TensorV):
            return v.d
        if isinstance(v, (TupV, ListV)) and depth < 3:
            s = frozenset()
            for x in v.items:
                s |= self.deps(x, depth + 1)
            if v.star is not None:
                s |= self.deps(v.star, depth + 1)
            return s
        return frozenset()

    # ----- calls -----------------------------------------------------------------
    def call(self, f, args, kwargs):
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs)
        if isinstance(f, BoundV):
            return self.call(f.fn, [f.self_] + list(args), kwargs)
        if isinstance(f, NativeV):
            return f.fn(self, args, kwargs)
        if isinstance(f, PartialV):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.fn, list(f.args) + list(args), kw)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Ext):
            return self.call_ext(f, args, kwargs)
        if isinstance(f, StaticV):
            return self.call(f.fn, args, kwargs)
        if isinstance(f, InstV):
            m = self.find_method(f, "__call__")
            if m:
                return self.call(m, args, kwargs)
            if isinstance(f.cls, Ext):
                return self.call_ext_inst(f, args, kwargs)
            self.raise_("TypeError", "object is not callable")
        if isinstance(f, TopV):
            self.unknown["call of unknown value at " + self.loc()] = 1
            d = frozenset()
            for a in list(args) + list(kwargs.values()):
                d |= self.deps(a)
            return TopV(d)
        if f is None or V.is_num(f) or isinstance(f, (str, TupV, ListV, DictV, TensorV)):
            self.raise_("TypeError", "object is not callable")
        return TOP

    def call_func(self, f, args, kwargs):
        depth = sum(1 for q, _ in self.stack if q == f.qual)
        if depth > self.rec_limit - 4:
            # the same call, of unchangeable arguments, again and again: the recursion cannot end
            key = frozen_key(list(args) + [x for _, x in sorted(kwargs.items())])
            seen = self.rec_keys.setdefault(f.qual, [])
            del seen[depth - self.rec_limit + 3:]
            seen.append(key)
            if depth > self.rec_limit and key is not None and all(k == key for k in seen):
                self.raise_("RecursionError", "maximum recursion depth exceeded")
        if depth > self.rec_limit:
            raise Excluded("recursion bound (%d) in %s" % (self.rec_limit, f.qual))
        sc = Scope(parent=f.scope, module=f.module, fn=f)
        summ = self.loader.summaries.get(f.qual)
        if summ is not None:
            bound = self.bind(f, args, kwargs, sc)
            r = summ(self, f, sc.vars)
            if r is not NotImplemented:
                return r
        else:
            self.bind(f, args, kwargs, sc)
        node = self.node
        self.stack.append((f.qual, self.loader.rel(f.module.path) if f.module and f.module.path else ""))
        self.covered.add(f.qual)
        logs = self.loop_logs
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, sc)
            if f.is_gen:
                self.yields.append([])
                try:
                    self.exec_block(f.node.body, sc)
                except _Return:
                    pass
                finally:
                    ys = self.yields.pop()
                return IterV(iter(ys))
            try:
                self.exec_block(f.node.body, sc)
            except _Return as r:
                return r.v
            return None
        finally:
            self.stack.pop()
            self.node = node

    def bind(self, f, args, kwargs, sc):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        npos_only = len(a.posonlyargs)
        args = list(args)
        kwargs = dict(kwargs)
        nm = f.name
        for i, p in enumerate(pos):
            if i < len(args):
                if p in kwargs and i >= npos_only:
                    self.raise_("TypeError", "%s() got multiple values for argument '%s'" % (nm, p))
                sc.vars[p] = args[i]
            elif p in kwargs and i >= npos_only:
                sc.vars[p] = kwargs.pop(p)
            else:
                k = i - (len(pos) - len(f.defaults))
                if k < 0:
                    self.raise_("TypeError", "%s() missing required argument '%s'" % (nm, p))
                sc.vars[p] = f.defaults[k]
        if len(args) > len(pos):
            if a.vararg:
                sc.vars[a.vararg.arg] = TupV(args[len(pos):])
            else:
                self.raise_("TypeError", "%s() takes %d positional arguments but %d were given" % (nm, len(pos), len(args)))
        elif a.vararg:
            sc.vars[a.vararg.arg] = TupV([])
        for i, x in enumerate(a.kwonlyargs):
            if x.arg in kwargs:
                sc.vars[x.arg] = kwargs.pop(x.arg)
            elif a.kw_defaults[i] is not None:
                sc.vars[x.arg] = f.kwdefaults[i]
            else:
                self.raise_("TypeError", "%s() missing keyword-only argument '%s'" % (nm, x.arg))
        if a.kwarg:
            d = DictV()
            for k, v in kwargs.items():
                d.items[hkey(k)] = (k, v)
            sc.vars[a.kwarg.arg] = d
        elif kwargs:
            self.raise_("TypeError", "%s() got an unexpected keyword argument '%s'" % (nm, sorted(kwargs)[0]))

    def instantiate(self, c, args, kwargs):
        if c.nt_fields is not None:
            return self.make_nt(c, args, kwargs)
        if any(isinstance(b, Ext) and b.path.startswith("builtins.") and b.path[9:] in EXC_PARENT for b in c.mro):
            inst = InstV(c, {"args": TupV(args)})
        else:
            inst = InstV(c)
        new = c.lookup("__new__")
        if new is not None:
            r = self.call(new[0].fn if isinstance(new[0], StaticV) else new[0], [c] + list(args), kwargs)
            if isinstance(r, InstV):
                inst = r
            else:
                return r
        if getattr(c, "is_dataclass", False) and c.lookup("__init__") is None:
            names = c.extra_fields
            for i, nme in enumerate(names):
                if i < len(args):
                    inst.attrs[nme] = args[i]
                elif nme in kwargs:
                    inst.attrs[nme] = kwargs[nme]
                elif nme in c.nt_defaults:
                    inst.attrs[nme] = c.nt_defaults[nme]
                else:
                    self.raise_("TypeError", "missing argument " + nme)
            pi = self.find_method(inst, "__post_init__")
            if pi:
                self.call(pi, [], {})
            return inst
        init = self.find_method(inst, "__init__")
        par = next((b for b in c.mro if isinstance(b, Ext) and b.path in ("torch.nn.Parameter", "torch.nn.parameter.Parameter")), None)
        if par is not None and (init is None or not isinstance(getattr(init, "fn", init), FuncV)):
            return self.call(par, args, kwargs)
        if init is not None:
            self.call(init, args, kwargs)
        return inst

    def make_nt(self, c, args, kwargs):
        vals = []
        fields = c.nt_fields
        if len(args) > len(fields):
            self.raise_("TypeError", "too many arguments for %s" % c.name)
        kwargs = dict(kwargs)
        for i, n in enumerate(fields):
            if i < len(args):
                vals.append(args[i])
            elif n in kwargs:
                vals.append(kwargs.pop(n))
            elif n in c.nt_defaults:
                vals.append(c.nt_defaults[n])
            else:
                self.raise_("TypeError", "%s missing field %s" % (c.name, n))
        if kwargs:
            self.raise_("TypeError", "%s unexpected field" % c.name)
        return TupV(vals, cls=c)

    # ----- attributes --------------------------------------------------------
    def find_method(self, v, name):
        cls = v.cls
        if isinstance(cls, ClassV):
            r = cls.lookup(name)
            if r is not None:
                return self.bind_attr(r[0], v, cls)
        return None

    def bind_attr(self, a, inst, cls):
        if isinstance(a, (FuncV, NativeV)):
            return BoundV(a, inst)
        if isinstance(a, PropV):
            r = self.call(a.fget, [inst], {})
            return r
        if isinstance(a, StaticV):
            return a.fn
        if isinstance(a, ClassMV):
            return BoundV(a.fn, cls)
        return a

    def getattr(self, o, name):
        if isinstance(o, InstV):
            if isinstance(o.cls, ClassV):
                r = o.cls.lookup(name)
                if r is not None and isinstance(r[0], PropV):
                    if r[0].cached:
                        if name in o.attrs:
                            return o.attrs[name]
                        v = self.call(r[0].fget, [o], {})
                        self.touch(o, "cached property")
                        o.attrs[name] = v
                        return v
                    return self.call(r[0].fget, [o], {})
                if name in o.attrs:
                    return o.attrs[name]
                if r is not None:
                    return self.bind_attr(r[0], o, o.cls)
                if name == "__class__":
                    return o.cls
                if name == "__dict__":
                    d = DictV()
                    for k, v in o.attrs.items():
                        d.items[hkey(k)] = (k, v)
                    return d
                ga = o.cls.lookup("__getattr__")
                if ga is not None:
                    return self.call(BoundV(ga[0], o), [name], {})
                exts = [b for b in o.cls.mro if isinstance(b, Ext)]
                for b in exts:
                    v = self.ext_inst_attr(o, b, name)
                    if v is not None:
                        return v
                if any(b.path not in ("abc.ABC", "typing.Protocol", "typing.Generic", "builtins.object") for b in exts):
                    return TOP
                self.raise_("AttributeError", "'%s' object has no attribute '%s'" % (o.cls.name, name))
            if name in o.attrs:
                return o.attrs[name]
            v = self.ext_inst_attr(o, o.cls, name)
            return v if v is not None else TOP
        if isinstance(o, ModuleV):
            return self.module_attr_rt(o, name)
        if isinstance(o, Ext):
            return self.ext_attr(o, name)
        if isinstance(o, ClassV):
            r = o.lookup(name)
            if r is not None:
                a = r[0]
                if isinstance(a, StaticV):
                    return a.fn
                if isinstance(a, ClassMV):
                    return BoundV(a.fn, o)
                return a
            if name == "__name__":
                return o.name
            if name == "__init__":
                return NativeV("object.__init__", lambda i, a, k: None)
            if o.nt_fields is not None and name == "_make":
                return NativeV("_make", lambda i, a, k: TupV(i.iterate(a[0]), cls=o))
            if o.nt_fields is not None and name == "_fields":
                return TupV(o.nt_fields)
            return TOP
        if isinstance(o, NativeSuper):
            return self.super_attr(o, name)
        if isinstance(o, TensorV):
            return self.T.getattr(self, o, name)
        if isinstance(o, TupV):
            if o.cls is not None:
                if o.cls.nt_fields and name in o.cls.nt_fields:
                    return o.items[o.cls.nt_fields.index(name)]
                r = o.cls.lookup(name)
                if r is not None:
                    return self.bind_attr(r[0], o, o.cls)
                if name == "_asdict":
                    def asd(i, a, k):
                        d = DictV()
                        for n, x in zip(o.cls.nt_fields, o.items):
                            d.items[hkey(n)] = (n, x)
                        return d
                    return NativeV("_asdict", asd)
                if name == "_replace":
                    def rep(i, a, k):
                        return TupV([k.get(n, x) for n, x in zip(o.cls.nt_fields, o.items)], cls=o.cls)
                    return NativeV("_replace", rep)
                if name == "_fields":
                    return TupV(o.cls.nt_fields)
            return self.value_method(o, name)
        if isinstance(o, FuncV):
            if name == "__name__":
                return o.name
            if name in o.attrs:
                return o.attrs[name]
            if name == "__doc__":
                return None
            if name == "__wrapped__":
                return TOP
            return TOP
        if isinstance(o, BoundV) and name in ("__name__", "__func__", "__self__"):
            return {"__name__": getattr(o.fn, "name", "f"), "__func__": o.fn, "__self__": o.self_}[name]
        if isinstance(o, (NativeV, PartialV)):
            if name == "__name__":
                return getattr(o, "name", "partial")
            if isinstance(o, PartialV) and name in ("func", "args", "keywords"):
                if name == "func":
                    return o.fn
                if name == "args":
                    return TupV(o.args)
            if isinstance(o, NativeV) and name in ("cache_clear", "cache_info", "register"):
                return NativeV(name, lambda i, a, k: TOP)
            return TOP
        if isinstance(o, PropV) and name in ("setter", "getter", "deleter"):
            def setter(i, a, k):
                return PropV(o.fget, a[0] if name == "setter" else o.fset)
            return NativeV(name, setter)
        if isinstance(o, DTypeV):
            return self.T.dtype_attr(self, o, name)
        if isinstance(o, DeviceV):
            if name == "type":
                return "cpu" if o.name == "cpu" else "cuda"
            if name == "index":
                return None if o.name == "cpu" else 0
            return TOP
        if isinstance(o, TopV):
            return TopV(o.deps, o.kind)
        if isinstance(o, NdV):
            return self.N.getattr(self, o, name)
        if o is None:
            self.raise_("AttributeError", "'NoneType' object has no attribute '%s'" % name)
        return self.value_method(o, name)

    def module_attr_rt(self, m, name):
        if name in m.scope.vars:
            return m.scope.vars[name]
        sub = self.import_module(m.name + "." + name)
        if isinstance(sub, ModuleV):
            return sub
        self.raise_("AttributeError", "module %s has no attribute %s" % (m.name, name))

    def super_attr(self, s, name):
        obj = s.obj
        cls = obj.cls if isinstance(obj, (InstV, TupV)) else obj
        mro = cls.mro if isinstance(cls, ClassV) else []
        i = mro.index(s.cls) + 1 if s.cls in mro else 0
        for c in mro[i:]:
            if isinstance(c, ClassV):
                if name in c.ns:
                    return self.bind_attr(c.ns[name], obj, cls)
            elif isinstance(c, Ext):
                v = self.ext_super_attr(obj, c, name)
                if v is not None:
                    return v
        if name in ("__init__", "__init_subclass__", "__setattr__"):
            return NativeV(name, lambda i2, a, k: None)
        return TOP

    def setattr(self, o, name, v):
        if isinstance(o, InstV):
            if isinstance(o.cls, ClassV):
                r = o.cls.lookup(name)
                if r is not None and isinstance(r[0], PropV):
                    if r[0].fset is None:
                        self.raise_("AttributeError", "can't set attribute")
                    self.call(r[0].fset, [o, v], {})
                    return
            self.touch(o, "attribute store .%s" % name)
            if isinstance(o.cls, Ext) and not o.owner:
                self.effect("foreign-attr", "store to attribute %s of %s object" % (name, o.cls.path))
            o.attrs[name] = v
            return
        if isinstance(o, ModuleV):
            self.effect("global-write", "module attribute %s.%s" % (o.name, name))
            o.scope.vars[name] = v
            self.loader.dirty = True
            return
        if isinstance(o, Ext):
            self.effect("process-global", "assignment to %s.%s" % (o.path, name))
            return
        if isinstance(o, ClassV):
            if self.stack and not self.stack[-1][0].startswith("<module"):
                self.effect("global-write", "class attribute %s.%s" % (o.name, name))
                self.loader.dirty = True
            o.ns[name] = v
            return
        if isinstance(o, TensorV):
            self.T.setattr(self, o, name, v)
            return
        if isinstance(o, FuncV):
            o.attrs[name] = v
            return
        if isinstance(o, TupV):
            self.raise_("AttributeError", "can't set attribute of tuple")

    # ----- subscription --------------------------------------------------------
    def getitem(self, o, k):
        if isinstance(o, TensorV):
            return self.T.getitem(self, o, k)
        if isinstance(o, TupV):
            r = self.seq_getitem(o.items, o.star, k, TupV)
            if isinstance(r, TupV) and isinstance(k, SliceV) and o.tname == "torch.Size":
                r.tname = "torch.Size"
            if o.tname in ("Literal", "Union") :
                return TOP
            return r
        if isinstance(o, ListV):
            return self.seq_getitem(o.items, o.star, k, ListV)
        if isinstance(o, DictV):
            hk = self.dict_find(o, k)
            if hk is None:
                if o.star is not None:
                    return o.star
                self.raise_("KeyError", repr(k))
            return o.items[hk][1] if hk in o.items else TOP
        if isinstance(o, str):
            if isinstance(k, int):
                if -len(o) <= k < len(o):
                    return o[k]
                self.raise_("IndexError", "string index")
            if isinstance(k, SliceV) and all(x is None or isinstance(x, int) for x in (k.lo, k.hi, k.step)):
                return o[slice(k.lo, k.hi, k.step)]
            return SymStr("sub@" + self.loc(), anon=True)
        if isinstance(o, RangeV):
            items, star = self.range_items(o, None)
            return self.seq_getitem(list(items), star, k, ListV)
        if isinstance(o, InstV):
            m = self.find_method(o, "__getitem__")
            if m:
                return self.call(m, [k], {})
            if isinstance(o.cls, ClassV) and not any(isinstance(b, Ext) for b in o.cls.mro):
                self.raise_("TypeError", "object is not subscriptable")
            return TOP
        if isinstance(o, Ext):
            if o.path == "typing.Literal":
                return TupV(k.items if isinstance(k, TupV) else [k], tname="Literal")
            if o.path in ("typing.Union", "typing.Optional"):
                return TupV(k.items if isinstance(k, TupV) else [k], tname="Union")
            return o
        if isinstance(o, ClassV):
            return o
        if isinstance(o, NdV):
            return self.N.getitem(self, o, k)
        if isinstance(o, TopV):
            return TopV(o.deps, o.kind)
        if isinstance(o, SeqV):
            if isinstance(k, SliceV) and k.lo is None and k.hi is None and k.step == -1:
                return SeqV(o.slot, o.length, not o.flipped)
            return TopV()
        if o is None or V.is_num(o):
            self.raise_("TypeError", "object is not subscriptable")
        return TOP

    def seq_getitem(self, items, star, k, T):
        if isinstance(k, bool):
            k = int(k)
        if isinstance(k, SliceV):
            if all(x is None or isinstance(x, int) for x in (k.lo, k.hi, k.step)):
                if star is None:
                    return T(list(items)[slice(k.lo, k.hi, k.step)])
                if k.step in (None, 1) and k.hi is None and (k.lo or 0) >= 0:
                    return T(list(items)[k.lo or 0:], star=star)
                if k.step == -1 and k.lo is None and k.hi is None:
                    st = star
                    for x in items:
                        st = self.join(st, x)
                    return T([], star=st)
                st = star
                for x in items:
                    st = self.join(st, x)
                return T([], star=st)
            st = star
            for x in items:
                st = x if st is None else self.join(st, x)
            lo = k.lo
            # slice bounds depending on parameters: decide them against the length
            if star is None:
                n = len(items)
                lo2 = self.pos_in(k.lo, n, 0) if k.lo is not None else 0
                hi2 = self.pos_in(k.hi, n, n) if k.hi is not None else n
                if lo2 is not None and hi2 is not None and k.step in (None, 1):
                    return T(list(items)[lo2:hi2])
            return T([], star=st if st is not None else TOP)
        if isinstance(k, int):
            n = len(items)
            if star is None:
                if -n <= k < n:
                    return items[k]
                self.raise_("IndexError", "sequence index out of range")
            if 0 <= k < n:
                return items[k]
            r = star
            return r
        if isinstance(k, Poly) and star is None:
            for i in range(len(items)):
                if self.cell.decide_eq(P.sub(k, i)):
                    return items[i]
            for i in range(1, len(items) + 1):
                if self.cell.decide_eq(P.add(k, i)):
                    return items[-i]
            self.raise_("IndexError", "sequence index out of range")
        if isinstance(k, TensorV):
            k = TOP
        if isinstance(k, (str, SymStr, TupV, type(None))):
            self.raise_("TypeError", "sequence indices must be integers")
        r = star
        for x in items:
            r = x if r is None else self.join(r, x)
        return r if r is not None else TOP

    def pos_in(self, p, n, dflt):
        if isinstance(p, int):
            return max(0, min(n, p + n if p < 0 else p))
        if isinstance(p, Poly):
            if not self.cell.decide_ge(p):
                p = P.add(p, n)
            for i in range(n):
                if not self.cell.decide_ge(P.sub(p, i + 1)):
                    return i
            return n
        return None

    def setitem(self, o, k, v):
        if isinstance(o, TensorV):
            self.T.setitem(self, o, k, v)
            return
        if isinstance(o, ListV):
            self.touch(o, "item assignment")
            if isinstance(k, int) and o.star is None:
                if -len(o.items) <= k < len(o.items):
                    o.items[k] = v
                    return
                self.raise_("IndexError", "list assignment index out of range")
            if isinstance(k, SliceV) and o.star is None and all(x is None or isinstance(x, int) for x in (k.lo, k.hi, k.step)):
                o.items[slice(k.lo, k.hi, k.step)] = self.iterate(v)
                return
            o.items = [self.join(x, v) for x in o.items]
            if o.star is not None:
                o.star = self.join(o.star, v)
            return
        if isinstance(o, DictV):
            self.touch(o, "item assignment")
            self.dict_set(o, k, v)
            return
        if isinstance(o, InstV):
            m = self.find_method(o, "__setitem__")
            if m:
                self.call(m, [k, v], {})
            else:
                self.touch(o, "item assignment")
            return
        if isinstance(o, NdV):
            self.N.setitem(self, o, k, v)
            return
        if isinstance(o, Ext):
            self.effect("process-global", "item assignment to %s" % o.path)
            return
        if isinstance(o, TupV):
            self.raise_("TypeError", "'tuple' object does not support item assignment")

    # ----- strings
    def strings(self, *parts):
        """The concatenation of the texts of the given literals and values."""
        out = []
        for x in parts:
            for y in x.parts if isinstance(x, SymStr) and x.parts is not None else self.text(x):
                if isinstance(y, str) and out and isinstance(out[-1], str):
                    out[-1] += y
                elif y != "" or not isinstance(y, str):
                    out.append(y)
        if all(isinstance(x, str) for x in out):
            return "".join(out)
        return SymStr("+".join(repr(x) for x in out), tuple(out))

    def text(self, x, quote=False):
        """str(x) (repr(x) if quote) as a list of literals and values."""
        if isinstance(x, str):
            return [repr(x) if quote else x]
        if isinstance(x, (bool, int, float)) or x is None:
            return [str(x)]
        if isinstance(x, (Poly, SymStr, DTypeV, DeviceV)):
            return [x]
        if isinstance(x, (TupV, ListV)) and x.star is None and getattr(x, "cls", None) is None and getattr(x, "kind", "list") == "list":
            tup = isinstance(x, TupV)
            out = [("torch.Size([" if tup and x.tname != "tuple" else "(" if tup else "[")]
            for n, y in enumerate(x.items):
                out += ([", "] if n else []) + self.text(y, True)
            return out + [("])" if tup and x.tname != "tuple" else (",)" if len(x.items) == 1 else ")") if tup else "]")]
        if isinstance(x, DictV) and x.star is None:
            out = ["{"]
            for n, (k, y) in enumerate(x.items.values()):
                out += ([", "] if n else []) + self.text(k, True) + [": "] + self.text(y, True)
            return out + ["}"]
        return [SymStr("str@%s" % self.loc(), anon=True)]

    def eq_strings(self, a, b):
        if a.parts is None or b.parts is None:
            return True if a == b and not a.anon else TopV()
        if len(a.parts) != len(b.parts):
            return TopV()
        unknown, differ = False, False
        for n, (x, y) in enumerate(zip(a.parts, b.parts)):
            if isinstance(x, str) or isinstance(y, str):
                unknown = unknown or x != y
                continue
            if n and not isinstance(a.parts[n - 1], str):
                unknown = True  # two values without a separator
            q = self.eq(x, y)
            if isinstance(q, TopV):
                unknown = True
            elif not q:
                differ = True
        return TopV() if unknown else not differ

    # ----- dict / set / list primitives ------------------------------------------
    def dict_find(self, d, k):
        hk = hkey(k)
        if hk is None:
            return None
        if hk in d.items:
            return hk
        if _symbolic(k) or any(_symbolic(kv) for kv, _ in d.items.values()):
            for h, (kv, _) in d.items.items():
                if type(kv) is not type(k) and not (V.is_num(kv) and V.is_num(k)):
                    continue
                q = self.eq(k, kv)
                if q is True:
                    return h
        return None

    def dict_set(self, d, k, v):
        hk = self.dict_find(d, k)
        if hk is None:
            hk = hkey(k)
        if hk is None:
            d.star = v if d.star is None else self.join(d.star, v)
            return
        d.items[hk] = (d.items[hk][0] if hk in d.items else k, v)

    def dict_update(self, d, other):
        self.touch(d, "update")
        if isinstance(other, DictV):
            for k, v in list(other.items.values()):
                self.dict_set(d, k, v)
            if other.star is not None:
                d.star = other.star if d.star is None else self.join(d.star, other.star)
        elif isinstance(other, InstV) and self.find_method(other, "keys"):
            for k in self.iterate(self.call(self.find_method(other, "keys"), [], {})):
                self.dict_set(d, k, self.getitem(other, k))
        else:
            for kv in self.iterate(other):
                its = self.iterate(kv)
                if len(its) == 2:
                    self.dict_set(d, its[0], its[1])

    def set_add(self, s, x):
        hk = hkey(x)
        if hk is None:
            s.star = TOP
            return
        if hk not in s.items and _symbolic(x):
            for h, y in s.items.items():
                if self.eq(x, y) is True:
                    return
        s.items[hk] = x

    def list_extend(self, l, v):
        self.touch(l, "extend")
        items, star = self.iter_spec(v)
        items = list(items)
        if l.star is not None:
            for x in items:
                l.star = self.join(l.star, x)
            if star is not None:
                l.star = self.join(l.star, star)
        else:
            l.items.extend(items)
            if star is not None:
                l.star = star

    # ----- types ------------------------------------------------------------
    def type_of(self, v):
        if isinstance(v, bool):
            return builtin("bool")
        if V.is_int(v):
            return builtin("int")
        if isinstance(v, (float, Fraction)):
            return builtin("float")
        if isinstance(v, (str, SymStr)):
            return builtin("str")
        if v is None:
            return builtin("NoneType")
        if isinstance(v, TupV):
            if v.cls is not None:
                return v.cls
            return Ext("torch.Size") if v.tname == "torch.Size" else builtin("tuple")
        if isinstance(v, ListV):
            return builtin("list") if v.kind == "list" else Ext("collections.deque")
        if isinstance(v, DictV):
            return builtin("dict")
        if isinstance(v, SetV):
            return builtin("frozenset" if v.frozen else "set")
        if isinstance(v, InstV):
            return v.cls
        if isinstance(v, TensorV):
            return Ext("torch.nn.Parameter") if v.param else Ext("torch.Tensor")
        if isinstance(v, NdV):
            return Ext("numpy.ndarray") if v.kind == "ndarray" else builtin("float")
        if isinstance(v, DTypeV):
            return Ext("torch.dtype")
        if isinstance(v, DeviceV):
            return Ext("torch.device")
        if isinstance(v, SeqV):
            return builtin("list")
        if isinstance(v, RangeV):
            return builtin("range")
        if isinstance(v, (ClassV,)):
            return builtin("type")
        if isinstance(v, Ext):
            return TOP
        if isinstance(v, (FuncV, BoundV, NativeV, PartialV)):
            return builtin("function")
        if isinstance(v, IterV):
            return builtin("generator")
        return TOP

    def issub(self, c, t):
        if isinstance(t, TupV):
            return any(self.issub(c, x) is True for x in t.items)
        if c is t or c == t:
            return True
        if isinstance(c, ClassV):
            if isinstance(t, ClassV):
                return c.is_sub(t)
            for b in c.mro:
                if isinstance(b, Ext) and self.issub(b, t):
                    return True
            if c.nt_fields is not None and isinstance(t, Ext):
                return self.issub(builtin("tuple"), t)
            return t == builtin("object")
        if isinstance(c, Ext) and isinstance(t, Ext):
            if t.path == "builtins.object":
                return True
            if (c.path, t.path) in EXT_SUB:
                return True
            if c.path.startswith("builtins.") and t.path.startswith("builtins."):
                n = c.path[9:]
                while n is not None:
                    if n == t.path[9:]:
                        return True
                    n = EXC_PARENT.get(n)
                return False
            last = t.path.split(".")[-1]
            if t.path.split(".")[0] in ("collections", "typing", "numbers") and last in ABC:
                n = c.path.split(".")[-1]
                if n == "Size":
                    n = "tuple"
                return n in ABC[last]
            if c.path.startswith(("pywt.", "torch.")) and t.path.startswith(("pywt.", "torch.")):
                return c.path.split(".")[-1] == t.path.split(".")[-1] and c.path.split(".")[0] == t.path.split(".")[0]
            return False
        if isinstance(c, Ext) and isinstance(t, ClassV):
            # structural protocols are not instances unless runtime_checkable
            return False
        return False

    def isinstance_(self, v, t):
        if isinstance(v, TopV):
            return TopV()
        c = self.type_of(v)
        if isinstance(c, TopV):
            return TopV()
        if isinstance(t, TopV):
            return TopV()
        if isinstance(t, TupV):
            r = False
            for x in t.items:
                q = self.isinstance_(v, builtin("NoneType") if x is None else x)
                if q is True:
                    return True
                if isinstance(q, TopV):
                    r = q
            return r
        return self.issub(c, t)


class NativeSuper:
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class _LiveList:
    """Iteration over a list object that may be mutated while iterating."""

    __slots__ = ("l",)

    def __init__(self, l):
        self.l = l

    def __len__(self):
        return len(self.l.items)

    def __getitem__(self, i):
        return self.l.items[i]

    def __iter__(self):
        i = 0
        while i < len(self.l.items):
            if i > 5000:
                raise Excluded("list grows while iterated")
            yield self.l.items[i]
            i += 1


_DUNDER = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "Div": "__truediv__", "MatMult": "__matmul__",
           "FloorDiv": "__floordiv__", "Mod": "__mod__", "Pow": "__pow__", "BitOr": "__or__", "BitAnd": "__and__"}
_RDUNDER = {k: v.replace("__", "__r", 1) for k, v in _DUNDER.items()}


def hkey(v):
    if isinstance(v, bool):
        return ("n", int(v))
    if isinstance(v, (int, float, Fraction, Poly)):
        return ("n", v)
    if isinstance(v, str):
        return ("s", v)
    if isinstance(v, SymStr):
        if v.parts is not None:
            ks = tuple(hkey(x) for x in v.parts)
            return None if any(k is None for k in ks) else ("sp", ks)
        return None if v.anon else ("ss", v.name)
    if v is None:
        return ("none",)
    if isinstance(v, (DTypeV, DeviceV, Ext)):
        return ("c", v)
    if isinstance(v, TupV):
        if v.star is not None:
            return None
        ks = tuple(hkey(x) for x in v.items)
        return None if any(k is None for k in ks) else ("t", ks)
    if isinstance(v, SetV):
        return ("fs", frozenset(v.items))
    if isinstance(v, (InstV, TensorV, FuncV, ClassV, NativeV, BoundV, PartialV, SeqV)):
        return ("o", id(v))
    if isinstance(v, ListV):
        return None
    return None


def _symbolic(v):
    if isinstance(v, Poly):
        return True
    if isinstance(v, TupV):
        return any(_symbolic(x) for x in v.items)
    if isinstance(v, SymStr) and v.parts is not None:
        return any(_symbolic(x) for x in v.parts)
    return False


_GEN_CACHE = {}


def _is_generator(node):
    r = _GEN_CACHE.get(node)
    if r is None:
        r = False
        todo = list(node.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
                continue
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            todo.extend(ast.iter_child_nodes(n))
        _GEN_CACHE[node] = r
    return r


_LOC_CACHE = {}


def _local_names(node):
    r = _LOC_CACHE.get(node)
    if r is None:
        r = set()
        if not isinstance(node, ast.Lambda):
            for n in ast.walk(node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    r.add(n.id)
        _LOC_CACHE[node] = r
    return r


class Loader:
    """Finds and parses the analysed sources; owns the interpreted modules."""

    def __init__(self, root, pkgroot):
        self.root = root
        self.pkgroot = pkgroot
        self.modules = {}
        self.trees = {}
        self.dirty = False
        self.module_serial = 0
        self.summaries = {}
        self.prelude = {}
        self.ext_classes = {}
        self.level_cap = 3

    def find(self, name):
        if not (name == "ptwt" or name.startswith("ptwt.")):
            return None
        base = os.path.join(self.pkgroot, *name.split("."))
        if os.path.isfile(base + ".py"):
            return base + ".py"
        if os.path.isfile(os.path.join(base, "__init__.py")):
            return os.path.join(base, "__init__.py")
        return None

    def parse(self, path):
        t = self.trees.get(path)
        if t is None:
            with open(path, encoding="utf-8") as f:
                t = ast.parse(f.read(), path)
            self.trees[path] = t
        return t

    def rel(self, path):
        return os.path.relpath(path, self.root)
