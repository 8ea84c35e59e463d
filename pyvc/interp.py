"""Symbolic interpreter of the real source: executes the AST of /repo's modules on symbolic values."""
from __future__ import annotations

import ast
import itertools
import os
import time
from fractions import Fraction

from . import terms as T
from . import solver as S
from . import values as V
from .terms import P, Poly, Formula, TRUE, FALSE, f_not, f_and, f_or, f_ge, f_gt, f_eq, iv, ite, subst
from .values import *
from . import arrays as A
from .arrays import SliceV, RowSel

REPO_SRC = os.environ.get("PYVC_SRC", "/repo/src")
UNROLL = 24
from .values import _ids

class _Return(Exception):
    def __init__(self, v):
        self.v = v

class _Break(Exception):
    pass

class _Continue(Exception):
    pass

class PathDone(Exception):
    """the rest of this path is irrelevant (assumption false)"""

class Budget(Exception):
    pass

MISSING = object()

class Env:
    __slots__ = ("vars", "parent", "module", "func", "ident", "cls", "selfv", "nonloc", "globs", "comp")

    def __init__(self, module, parent=None, func=None):
        self.vars, self.parent, self.module, self.func = {}, parent, module, func
        self.ident = next(_ids)
        self.cls = self.selfv = None
        self.nonloc = None
        self.globs = None
        self.comp = False       # the scope of a comprehension's own variables

class _Through(Exception):
    """a return of the consumer of a generator, on its way through the generator's own frames"""
    def __init__(self, r):
        self.r = r

class _Left(Exception):
    """a break of the consumer of a generator"""
    def __init__(self, mark):
        self.mark = mark

class GenV:
    """a generator: run(step) executes its body with step called at every yield. The consumer's loop body runs at the
    very points where Python would run it, so effects interleave as they do there. A second run finds it exhausted."""

    def __init__(self, it, f, env):
        self.it, self.f, self.env = it, f, env

    def run(self, step):
        it = self.it
        if "<used>" in self.env.vars:
            raise Unsupported("a generator consumed twice")
        it.set_var(self.env, "<used>", True)
        it.depth += 1
        def checked(x):
            try:
                step(x)
            except _Return as r:
                raise _Through(r)

        try:
            env = Env(self.env.module, self.env.parent, self.env.func)
            env.cls, env.selfv, env.nonloc, env.globs = self.env.cls, self.env.selfv, self.env.nonloc, self.env.globs
            env.vars = dict(self.env.vars)
            env.vars["<yield>"] = checked
            it.exec_block(self.f.node.body, env)
        except _Return:
            pass
        except _Through as t:
            raise t.r
        finally:
            it.depth -= 1

class CompV(GenV):
    """a generator expression with conditions or nested loops, not consumed yet"""

    def __init__(self, it, elt, gens, env, first):
        self.it, self.elt, self.gens, self.env, self.first = it, elt, gens, env, first

    def run(self, step):
        if "<used>" in self.env.vars:
            raise Unsupported("a generator consumed twice")
        self.it.set_var(self.env, "<used>", True)
        self.it.comp_loop(self.elt, self.gens, self.env, step, self.first)

class Decider:
    def __init__(self, trace):
        self.trace, self.pos, self.conds = trace, 0, []

class ExtMod:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<ext {self.name}>"

class ExtRef(ExtMod):
    pass

class Func:
    __slots__ = ("node", "module", "env", "cls", "name", "qual", "static", "classm", "prop", "defaults", "validator", "deco", "wrapped")

    def __init__(self, node, module, env, cls=None):
        self.node, self.module, self.env, self.cls = node, module, env, cls
        self.name = getattr(node, "name", "<lambda>")
        self.static = self.classm = self.prop = False
        self.validator = None
        self.defaults = None
        self.deco = []
        self.qual = f"{module.name}.{cls.name + '.' if cls else ''}{self.name}"

    def __repr__(self):
        return f"<func {self.qual}>"

class Bound:
    __slots__ = ("func", "selfv")

    def __init__(self, func, selfv):
        self.func, self.selfv = func, selfv

class Native:
    """Python callable exposed to interpreted code: fn(ctx, args, kwargs)"""
    __slots__ = ("fn", "name")

    def __init__(self, fn, name=""):
        self.fn, self.name = fn, name

class Super:
    def __init__(self, cls, selfv):
        self.cls, self.selfv = cls, selfv

class ModuleV:
    def __init__(self, interp, name, path):
        self.interp, self.name, self.path = interp, name, path
        self.ispkg = os.path.basename(path) == "__init__.py"
        with open(path) as f:
            self.src = f.read()
        self.tree = ast.parse(self.src)
        self.globals = {}
        self.defs = {}
        self.busy = set()
        for st in self._flat(self.tree.body):
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                self.defs[st.name] = st
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            self.defs.setdefault(n.id, st) if False else self.defs.__setitem__(n.id, st)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.defs[st.target.id] = st
            elif isinstance(st, (ast.Import, ast.ImportFrom)):
                for a in st.names:
                    nm = a.asname or (a.name.split(".")[0] if isinstance(st, ast.Import) else a.name)
                    self.defs[nm] = (st, a)

    def _flat(self, body):
        for st in body:
            if isinstance(st, ast.If):
                # TYPE_CHECKING blocks
                if "TYPE_CHECKING" in ast.unparse(st.test):
                    yield from self._flat(st.body)
                    continue
                yield from self._flat(st.body)
                yield from self._flat(st.orelse)
            elif isinstance(st, ast.Try):
                yield from self._flat(st.body)
            else:
                yield st

    def lookup(self, name):
        if name in self.globals:
            return self.globals[name]
        if name not in self.defs:
            return MISSING
        if name in self.busy:
            raise Unsupported(f"cyclic global {name}")
        self.busy.add(name)
        try:
            d = self.defs[name]
            it = self.interp
            if isinstance(d, tuple):
                v = it.do_import(d[0], d[1], self)
            elif isinstance(d, ast.FunctionDef):
                v = it.make_func(d, self, None, None)
            elif isinstance(d, ast.ClassDef):
                v = it.make_class(d, self)
            else:
                env = Env(self)
                it.exec_stmt(d, env)
                for k, x in env.vars.items():
                    self.globals[k] = x
                v = self.globals[name]
            self.globals[name] = v
            return v
        finally:
            self.busy.discard(name)

    def __repr__(self):
        return f"<module {self.name}>"

class Cls:
    def __init__(self, name, module, node, bases):
        self.name, self.module, self.node, self.bases = name, module, node, bases
        self.attrs = {}
        self.fields = None
        self.dataclass = False
        self.kw_only = False
        self.own_fields = []

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def find(self, name, after=None):
        ms = self.mro()
        if after is not None:
            ms = ms[ms.index(after) + 1:]
        for c in ms:
            if name in c.attrs:
                return c.attrs[name], c
        return None

    def is_subclass(self, other):
        return other in self.mro()

    def all_fields(self):
        out = {}
        for c in reversed(self.mro()):
            for f in c.own_fields:
                if f["name"] in out:
                    out[f["name"]] = f
                else:
                    out[f["name"]] = f
        return list(out.values())

    @property
    def qual(self):
        return f"{self.module.name}.{self.name}"

    def __repr__(self):
        return f"<class {self.name}>"

EXC_PARENT = {"ValidationError": "ValueError", "IndexError": "LookupError", "KeyError": "LookupError",
              "LookupError": "Exception", "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception",
              "FileNotFoundError": "OSError", "OSError": "Exception", "ConnectionError": "OSError",
              "NotImplementedError": "RuntimeError", "RuntimeError": "Exception", "ValueError": "Exception",
              "TypeError": "Exception", "AttributeError": "Exception", "AssertionError": "Exception",
              "AxisError": "ValueError", "StopIteration": "Exception", "NameError": "Exception",
              "OverflowError": "ArithmeticError", "UnboundLocalError": "NameError", "LinAlgError": "ValueError",
              "Exception": "BaseException", "BaseException": None}

def exc_isa(name, parent):
    while name is not None:
        if name == parent:
            return True
        name = EXC_PARENT.get(name, "Exception" if name != "BaseException" else None)
    return False

class Interp:
    def __init__(self):
        self.modules = {}
        self.facts = S.Facts()
        self.prover = S.Prover(self.facts)
        self.trail = []
        self.deciders = []
        self.nofork = 0
        self.touched = {}         # qualified function -> source hash (functions under contract)
        self.summaries = {}       # qualified name -> handler(interp, args, kwargs)
        self.used_summaries = set()
        self.path_summaries = set()      # those reached on the current path
        self.weak = False                # the path rests on a quantified fact the solver does not instantiate
        self.assumptions = set()
        self.deadline = None
        self.io = None            # file-store model
        self.depth = 0
        self.extra_models = {}
        V.CTX[0] = self
        from . import models
        models.init_builtins()
        self.models = models

    # ------------------------------------------------------------- trail and facts
    def set_cell(self, cell, fn):
        if isinstance(cell, DCell):
            A.write_all(cell.base, cell.put(cell.base.fn(), fn))
            return
        self.trail.append(("cell", cell, None, cell.fn))
        cell.fn = fn

    def set_var(self, env, name, v):
        if env.globs and name in env.globs:
            self.trail.append(("glob", env.module, name, env.module.globals.get(name, MISSING)))
            env.module.globals[name] = v
            return
        if env.nonloc and name in env.nonloc:
            e = env.parent
            while e is not None and name not in e.vars:
                e = e.parent
            if e is not None:
                env = e
        self.trail.append(("env", env, name, env.vars.get(name, MISSING)))
        env.vars[name] = v

    def set_field(self, obj, name, v):
        self.trail.append(("fld", obj, name, obj.f.get(name, MISSING)))
        obj.f[name] = v

    def set_list(self, pl, items, n=None, fn=None):
        self.trail.append(("list", pl, None, (pl.items, pl.n, pl.fn)))
        pl.items, pl.n, pl.fn = items, n, fn

    def set_dict(self, pd, d, memo=None):
        self.trail.append(("dict", pd, None, (pd.d, pd.memo)))
        pd.d, pd.memo = d, memo

    def undo(self, mark):
        while len(self.trail) > mark:
            self._restore(self.trail.pop())

    def _restore(self, t):
        k, o, n, old = t
        if k == "cell":
            o.fn = old
        elif k == "env":
            if old is MISSING:
                o.vars.pop(n, None)
            else:
                o.vars[n] = old
        elif k == "glob":
            if old is MISSING:
                o.globals.pop(n, None)
            else:
                o.globals[n] = old
        elif k == "fld":
            if old is MISSING:
                o.f.pop(n, None)
            else:
                o.f[n] = old
        elif k == "list":
            o.items, o.n, o.fn = old
        elif k == "dict":
            o.d, o.memo = old

    def check_time(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget("time")

    def decide(self, f):
        if isinstance(f, bool):
            return f
        if f.op == "true":
            return True
        if f.op == "false":
            return False
        self.check_time()
        if self.facts.entails(f):
            return True
        g = f_not(f)
        if self.facts.entails(g):
            return False
        if self.nofork:
            raise Unsupported("branch on a bound variable of the specification")
        d = self.deciders[-1]
        if d.pos < len(d.trace):
            b = d.trace[d.pos]
        else:
            b = True
            d.trace.append(True)
            if len(d.trace) > 60:
                raise Unsupported("too many branches on one path")
        d.pos += 1
        h = f if b else g
        d.conds.append(h)
        self.facts.push(h)
        return b

    def fork(self):
        """free two-way choice of the specification (not part of the path condition)"""
        d = self.deciders[-1]
        if d.pos < len(d.trace):
            b = d.trace[d.pos]
        else:
            b = True
            d.trace.append(True)
        d.pos += 1
        return b

    def assume(self, f):
        """add a fact; ends the path when it is inconsistent"""
        self.facts.push(f)

    def prove(self, f):
        return self.prover.prove(f)

    def run_paths(self, fn, maxpaths=3000):
        """run fn over all decision paths (from the same initial state); yields nothing"""
        trace = []
        n = 0
        while True:
            n += 1
            if n > maxpaths:
                raise Budget("paths")
            mark, fm = len(self.trail), self.facts.mark()
            d = Decider(trace)
            self.deciders.append(d)
            try:
                fn(n)
            finally:
                self.deciders.pop()
                self.undo(mark)
                self.facts.pop(fm)
            trace = next_trace(trace)
            if trace is None:
                return n

    # ------------------------------------------------------------------- modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        p = os.path.join(REPO_SRC, *name.split("."))
        if os.path.isdir(p):
            q = os.path.join(p, "__init__.py")
        else:
            q = p + ".py"
        if not os.path.exists(q):
            return None
        m = ModuleV(self, name, q)
        self.modules[name] = m
        return m

    def prelude(self, name):
        """the definition in prelude.py that stands for an external function, or None"""
        if "<prelude>" not in self.modules:
            self.modules["<prelude>"] = ModuleV(self, "<prelude>", os.path.join(os.path.dirname(os.path.abspath(__file__)), "prelude.py"))
        v = self.modules["<prelude>"].lookup(name.replace(".", "__"))
        return v if isinstance(v, Func) else None

    def do_import(self, st, alias, module):
        if isinstance(st, ast.Import):
            if alias.asname:
                return self.import_name(alias.name)
            return self.import_name(alias.name.split(".")[0])
        base = st.module or ""
        if st.level:
            parts = module.name.split(".")
            if not module.ispkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (st.level - 1)]
            base = ".".join(parts + ([base] if base else []))
        if base.split(".")[0] == "sleplet":
            m = self.module(base)
            sub = self.module(base + "." + alias.name)
            if m is not None and alias.name in m.defs and m.defs[alias.name] is not None:
                d = m.defs[alias.name]
                if not (isinstance(d, tuple) and m is module):
                    v = m.lookup(alias.name)
                    if v is not MISSING:
                        return v
            if sub is not None:
                return sub
            raise Unsupported(f"import {base}.{alias.name}")
        if base == "__future__":
            return None
        return ExtRef(base + "." + alias.name)

    def import_name(self, name):
        if name.split(".")[0] == "sleplet":
            m = self.module(name)
            if m is None:
                raise PyExc("ImportError", (name,))
            return m
        return ExtMod(name)

    # ------------------------------------------------------------------ functions
    def make_func(self, node, module, env, cls):
        f = Func(node, module, env, cls)
        for d in getattr(node, "decorator_list", []):
            s = ast.unparse(d)
            if s == "staticmethod":
                f.static = True
            elif s == "classmethod":
                f.classm = True
            elif s in ("property", "functools.cached_property", "cached_property"):
                f.prop = True
            elif "field_validator" in s:
                f.classm = True
                if isinstance(d, ast.Call):
                    f.validator = [a.value for a in d.args if isinstance(a, ast.Constant)]
                    mode = [k.value.value for k in d.keywords if k.arg == "mode"]
                    if mode and mode[0] not in ("after",):
                        f.validator = ("unsupported", f.validator)
            elif "njit" in s or "jit" in s or "abstractmethod" in s or "override" in s or "overload" in s:
                pass
            elif s in ("functools.cache", "functools.lru_cache") or "lru_cache" in s:
                f.qual += ""
            else:
                f.deco.append(d)
        a = node.args
        env2 = env if env is not None else Env(module)
        if f.defaults is None:
            f.defaults = ([self.eval(x, env2) for x in a.defaults],
                          [None if x is None else (self.eval(x, env2),) for x in a.kw_defaults])
        return f

    def note_func(self, f):
        if f.module.name != "<prelude>" and f.qual not in self.touched:
            self.touched[f.qual] = f

    def make_class(self, node, module, outer=None):
        bases = []
        env = Env(module, outer, outer.func if outer else None)
        for b in node.bases:
            try:
                bases.append(self.eval(b, env))
            except Unsupported:
                bases.append(None)
        c = Cls(node.name, module, node, bases)
        for d in node.decorator_list:
            s = ast.unparse(d)
            if "dataclass" in s:
                c.dataclass = "pydantic" if "pydantic" in s else "std"
                if isinstance(d, ast.Call):
                    for k in d.keywords:
                        if k.arg == "kw_only" and isinstance(k.value, ast.Constant) and k.value.value:
                            c.kw_only = True
        kw = c.kw_only
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                c.attrs[st.name] = self.make_func(st, module, outer, c)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                ann = ast.unparse(st.annotation)
                if "KW_ONLY" in ann:
                    kw = True
                    continue
                if "ClassVar" in ann:
                    c.attrs[st.target.id] = self.eval(st.value, env)
                    continue
                fld = {"name": st.target.id, "ann": ann, "kw": kw, "default": None, "cls": c}
                if st.value is not None:
                    v = st.value
                    s = ast.unparse(v.func) if isinstance(v, ast.Call) else ""
                    if s.endswith("Field") or s.endswith("field"):
                        for k in v.keywords:
                            if k.arg == "default":
                                fld["default"] = ("expr", k.value)
                            elif k.arg == "default_factory":
                                fld["default"] = ("factory", k.value)
                            elif k.arg == "kw_only":
                                fld["kw"] = k.value.value
                    else:
                        fld["default"] = ("expr", v)
                if c.dataclass:
                    c.own_fields.append(fld)
                elif st.value is not None:
                    c.attrs[st.target.id] = self.eval(st.value, env)
            elif isinstance(st, ast.Assign):
                e2 = Env(module, outer, outer.func if outer else None)
                e2.vars.update(c.attrs)
                v = self.eval(st.value, e2)
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = v
        return c

    # ---------------------------------------------------------------------- calls
    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        self.check_time()
        if isinstance(f, Bound):
            return self.call(f.func, (f.selfv,) + tuple(args), kwargs)
        if isinstance(f, Func):
            h = self.summaries.get(f.qual)
            if h is not None:
                self.used_summaries.add(f.qual)
                self.path_summaries.add(f.qual)
                return h(self, args, kwargs)
            if f.deco:
                g = Func(f.node, f.module, f.env, f.cls)
                g.static, g.classm, g.prop, g.validator, g.defaults, g.qual = f.static, f.classm, f.prop, f.validator, f.defaults, f.qual
                env = f.env if f.env is not None else Env(f.module)
                for d in reversed(f.deco):
                    g = self.call(self.eval(d, env), (g,))
                if not isinstance(g, Func) or g.qual != f.qual:
                    return self.call(g, args, kwargs)
            return self.call_func(f, args, kwargs)
        if isinstance(f, Native):
            return f.fn(self, args, kwargs)
        if isinstance(f, Cls):
            return self.construct(f, args, kwargs)
        if isinstance(f, ExtMod):
            m = self.extra_models.get(f.name) or self.models.MODELS.get(f.name)
            if m is None:
                g = self.prelude(f.name)
                if g is not None:
                    return self.call(g, args, kwargs)
                if f.name.split(".")[-1] in EXC_PARENT:
                    return ExcVal(f.name.split(".")[-1], args)
                raise Unsupported(f"external function {f.name}")
            if kwargs and f.name in self.models.UFUNCS and ("out" in kwargs or "where" in kwargs):
                return self.models.ufunc_out(self, f.name, m, args, kwargs)
            return m(self, args, kwargs)
        if isinstance(f, ExcCls):
            return ExcVal(f.name, args)
        if isinstance(f, Obj):
            c = f.cls.find("__call__") if isinstance(f.cls, Cls) else None
            if c:
                return self.call(Bound(c[0], f), args, kwargs)
        raise Unsupported(f"call of {type(f).__name__}")

    def call_func(self, f, args, kwargs):
        self.note_func(f)
        env = Env(f.module, f.env, f)
        env.cls = f.cls
        if f.cls is None and f.env is not None:
            env.cls, env.selfv = f.env.cls, f.env.selfv
        self.bind(f, env, args, kwargs)
        if f.cls is not None and not f.static and args:
            env.selfv = args[0]
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Unsupported("recursion depth")
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env)
            if is_generator(f.node):
                return GenV(self, f, env)
            self.exec_block(f.node.body, env)
            return None
        except _Return as r:
            return r.v
        finally:
            self.depth -= 1

    def bind(self, f, env, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        vals = {}
        for n, v in zip(names, args):
            vals[n] = v
        if len(args) > len(names):
            if a.vararg is None:
                raise PyExc("TypeError", (f"{f.name}: too many arguments",))
            vals[a.vararg.arg] = tuple(args[len(names):])
        elif a.vararg is not None:
            vals[a.vararg.arg] = ()
        kwn = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in vals and k in names:
                raise PyExc("TypeError", (f"{f.name}: multiple values for {k}",))
            if k in names or k in kwn:
                vals[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyExc("TypeError", (f"{f.name}: unexpected keyword {k}",))
        if a.kwarg is not None:
            vals[a.kwarg.arg] = PDict(extra)
        pd, kd = f.defaults
        off = len(names) - len(pd)
        for i, n in enumerate(names):
            if n not in vals:
                if i < off:
                    raise PyExc("TypeError", (f"{f.name}: missing argument {n}",))
                vals[n] = pd[i - off]
        for n, d in zip(kwn, kd):
            if n not in vals:
                if d is None:
                    raise PyExc("TypeError", (f"{f.name}: missing argument {n}",))
                vals[n] = d[0]
        env.vars.update(vals)

    # ---------------------------------------------------------------- class instances
    def construct(self, c, args, kwargs):
        h = self.summaries.get(c.qual)
        if h is not None:
            self.used_summaries.add(c.qual)
            self.path_summaries.add(c.qual)
            return h(self, args, kwargs)
        if any(isinstance(b, ExtMod) and b.name.split(".")[-1] in EXC_PARENT for b in c.bases) or any(isinstance(b, ExcCls) for b in c.bases):
            return ExcVal(c.name, args)
        o = Obj(c)
        flds = c.all_fields()
        if not any(k.dataclass for k in c.mro()):
            init = c.find("__init__")
            o.ready = True
            if init:
                self.call(Bound(init[0], o), args, kwargs)
            elif args or kwargs:
                raise PyExc("TypeError", ("no arguments",))
            return o
        pos = [f for f in flds if not f["kw"]]
        kwargs = dict(kwargs)
        vals = {}
        if len(args) > len(pos):
            raise PyExc("TypeError", ("too many positional arguments",))
        for f, v in zip(pos, args):
            vals[f["name"]] = v
        for k, v in kwargs.items():
            if k in vals:
                raise PyExc("TypeError", ("multiple values",))
            if k not in [f["name"] for f in flds]:
                raise PyExc("ValidationError" if c.dataclass == "pydantic" else "TypeError", (f"unexpected keyword {k}",))
            vals[k] = v
        for f in flds:
            n = f["name"]
            if n in vals:
                v = vals[n]
            elif f["default"] is None:
                raise PyExc("ValidationError" if c.dataclass == "pydantic" else "TypeError", (f"missing {n}",))
            else:
                env = Env(f["cls"].module)
                env.vars.update({})
                k, e = f["default"]
                v = self.eval(e, env)
                if k == "factory":
                    v = self.call(v, ())
            if c.dataclass == "pydantic":
                v = self.validate(c, o, f, v)
            self.set_field(o, n, v)
        o.ready = True
        post = c.find("__post_init__")
        if post:
            self.call(Bound(post[0], o), ())
        return o

    def validate(self, c, o, f, v):
        v = self.coerce(f["ann"], v)
        seen = set()
        for k in c.mro():
            for name, a in k.attrs.items():
                if isinstance(a, Func) and a.validator and name not in seen:
                    seen.add(name)
                    if isinstance(a.validator, tuple):
                        raise Unsupported("validator mode")
                    if f["name"] in a.validator or "*" in a.validator:
                        info = Obj("info", {"data": PDict(dict(o.f)), "field_name": f["name"]})
                        nargs = len(a.node.args.args)
                        try:
                            v = self.call(a, (c, v, info)[:nargs])
                        except PyExc as e:
                            if exc_isa(e.name, "ValueError") or e.name == "AssertionError":
                                raise PyExc("ValidationError", e.vals)
                            raise
        return v

    def coerce(self, ann, v):
        opts = [a.strip() for a in ann.split("|")]
        if v is None:
            if "None" in opts or any(o.startswith("typing.Optional") or "Any" in o for o in opts):
                return v
            raise PyExc("ValidationError", ("none is not allowed",))
        simple = {"int", "float", "bool", "str"}
        base = [o for o in opts if o != "None"]
        if base == ["float"] and is_scalar(v):
            if isinstance(v, (bool, int)):
                return Num(P(int(v)), "f")
            if kind(v) in ("i", "b"):
                return Num(poly(v), "f")
            if kind(v) == "c":
                raise PyExc("ValidationError", ("complex",))
            return v
        if base == ["int"]:
            if isinstance(v, bool):
                return int(v)
            if is_scalar(v):
                if kind(v) in ("i", "b"):
                    return v if not isinstance(v, Bool) else num(iv(v.f), "i")
                p = poly(v)
                if p.is_const() and p.const()[1] == 0:
                    if p.is_int_const():
                        return p.const()[0]
                    raise PyExc("ValidationError", ("not an integer",))
                if p.sort == "I":
                    return num(p, "i")
                raise Unsupported("float into an integer field")
            raise PyExc("ValidationError", ("not an int",))
        if base == ["bool"]:
            if isinstance(v, (bool, Bool)):
                return v
            if v in (0, 1):
                return bool(v)
            if is_scalar(v) and kind(v) != "c":
                raise Unsupported("number into a bool field")
            raise PyExc("ValidationError", ("not a bool",))
        if base == ["str"]:
            if isinstance(v, (str, SStr)):
                return v
            raise PyExc("ValidationError", ("not a str",))
        if len(base) == 1 and "NDArray" in base[0] and not isinstance(v, (Arr, Sel)):
            if isinstance(v, (RowSel, Poison)):
                return v
            raise PyExc("ValidationError", ("not an array",))
        return v

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            c = o.cls
            if isinstance(c, Cls) and o.ready and any(k.dataclass == "pydantic" for k in c.mro()):
                for f in c.all_fields():
                    if f["name"] == name:
                        saved = o
                        tmp = Obj(c, {k: x for k, x in o.f.items() if k != name})
                        v = self.validate(c, tmp, f, v)
                        break
                else:
                    raise PyExc("ValidationError", ("Object has no attribute " + name,))
            self.set_field(o, name, v)
            return
        if isinstance(o, Arr) and name in ("real", "imag"):
            if o.dt == "c" or name == "real":
                A.setitem(self.getattr(o, name), (), v) if not o.shape else A.setitem(self.getattr(o, name), (Ellipsis,), v)
                return
            raise PyExc("TypeError", ("array does not have imaginary part to set",))
        raise Unsupported(f"attribute assignment on {type(o).__name__}")

    # ------------------------------------------------------------------ attributes
    def getattr(self, o, name):
        if isinstance(o, Obj):
            if name in o.f:
                v = o.f[name]
                if isinstance(v, Poison):
                    raise v.error()
                return v
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return PDict(dict(o.f))
            if isinstance(o.cls, Cls):
                r = o.cls.find(name)
                if r is not None:
                    a, c = r
                    if isinstance(a, Func):
                        if a.prop:
                            return self.call(Bound(a, o), ())
                        if a.static:
                            return a
                        if a.classm:
                            return Bound(a, o.cls)
                        return Bound(a, o)
                    return a
                if getattr(o, "stub", False) and name not in getattr(o, "absent", ()):
                    raise Unsupported(f"field {name} of a stand-in object")
                raise PyExc("AttributeError", (name,))
            if o.cls == "opaque" or o.cls == "logger":
                return Native(lambda it, a, k: None)
            m = self.models.obj_attr(self, o, name)
            if m is not MISSING:
                return m
            if getattr(o, "stub", False):
                raise Unsupported(f"field {name} of a stand-in object")
            raise PyExc("AttributeError", (name,))
        if isinstance(o, ModuleV):
            v = o.lookup(name)
            if v is not MISSING:
                return v
            if name == "__file__":
                return PathV(o.path)
            m = self.module(o.name + "." + name) if o.ispkg else None
            if m is not None:
                return m
            raise PyExc("AttributeError", (f"module {o.name} has no attribute {name}",))
        if isinstance(o, ExtMod):
            full = o.name + "." + name
            if full in self.models.CONSTS:
                return self.models.CONSTS[full]
            return ExtRef(full)
        if isinstance(o, Cls):
            if name == "__name__" or name == "__qualname__":
                return o.name
            r = o.find(name)
            if r is None:
                raise PyExc("AttributeError", (name,))
            a = r[0]
            if isinstance(a, Func) and a.classm:
                return Bound(a, o)
            return a
        if isinstance(o, Super):
            r = o.selfv.cls.find(name, after=o.cls)
            if r is None:
                if name in ("__init__", "__init_subclass__", "__setattr__"):
                    return Native(lambda it, a, k: None)
                raise PyExc("AttributeError", (name,))
            a = r[0]
            if isinstance(a, Func):
                return a if a.static else Bound(a, o.selfv.cls if a.classm else o.selfv)
            return a
        if isinstance(o, (Func, Bound)) and name in ("__name__", "__qualname__"):
            return (o if isinstance(o, Func) else o.func).name
        if isinstance(o, ExcVal):
            if name == "args":
                return tuple(o.args)
        m = self.models.getattr_value(self, o, name)
        if m is not MISSING:
            return m
        raise Unsupported(f"attribute {name} of {type(o).__name__}")

    # ---------------------------------------------------------------- statements
    def exec_block(self, body, env):
        for st in body:
            self.exec_stmt(st, env)

    def exec_stmt(self, st, env):
        m = getattr(self, "st_" + type(st).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(st).__name__}")
        m(st, env)

    def st_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, env)

    def st_Pass(self, st, env):
        pass

    def st_Return(self, st, env):
        raise _Return(None if st.value is None else self.eval(st.value, env))

    def st_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def st_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.set_var(env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts), any(isinstance(e, ast.Starred) for e in t.elts))
            if any(isinstance(e, ast.Starred) for e in t.elts):
                k = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)][0]
                post = len(t.elts) - k - 1
                if len(items) < k + post:
                    raise PyExc("ValueError", ("unpack",))
                for e, x in zip(t.elts[:k], items[:k]):
                    self.assign(e, x, env)
                self.assign(t.elts[k].value, PList(list(items[k:len(items) - post])), env)
                for e, x in zip(t.elts[k + 1:], items[len(items) - post:]):
                    self.assign(e, x, env)
                return
            if len(items) != len(t.elts):
                raise PyExc("ValueError", ("wrong number of values to unpack",))
            for e, x in zip(t.elts, items):
                self.assign(e, x, env)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            self.setitem(o, self.eval_index(t.slice, env), v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n, star=False):
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, PList) and v.items is not None:
            return list(v.items)
        if isinstance(v, PList):
            if not star and self.decide(f_eq(v.n, n)):
                return [v.fn(P(i)) for i in range(n)]
            if not star:
                raise PyExc("ValueError", ("unpack",))
        if isinstance(v, Arr):
            if not v.shape:
                raise PyExc("TypeError", ("cannot unpack",))
            if v.shape[0].is_int_const():
                return [A.getitem(v, i) for i in range(v.shape[0].const()[0])]
            if not star:
                if self.decide(f_eq(v.shape[0], n)):
                    return [A.getitem(v, i) for i in range(n)]
                raise PyExc("ValueError", ("unpack",))
        return list(self.concrete_iter(v))

    def setitem(self, o, idx, v):
        if isinstance(o, Arr):
            A.setitem(o, idx, v)
        elif isinstance(o, PList):
            if o.items is None:
                raise Unsupported("assignment into symbolic list")
            i = A.as_int(idx)
            if not i.is_int_const():
                raise Unsupported("symbolic list index")
            i = i.const()[0]
            if not -len(o.items) <= i < len(o.items):
                raise PyExc("IndexError", ())
            it = list(o.items)
            it[i] = v
            self.set_list(o, it)
        elif isinstance(o, PDict):
            self.dict_set(o, idx, v)
        elif isinstance(o, Sel):
            raise Unsupported("assignment into a selection")
        else:
            raise Unsupported(f"item assignment on {type(o).__name__}")

    def dict_set(self, o, key, v):
        if isinstance(key, Num) or o.memo is not None:
            # functional memo table: value must be a function of the key alone
            self.memo_store(o, key, v)
            return
        d = dict(o.d)
        d[self.hashkey(key)] = v
        self.set_dict(o, d, o.memo)

    def hashkey(self, k):
        if isinstance(k, (str, int, bool, tuple, type(None), float)):
            return k
        if isinstance(k, Num) and k.p.is_const():
            return ("num", k.p)
        if isinstance(k, SStr):
            raise Unsupported("symbolic dictionary key")
        if isinstance(k, (Cls, Func, ExtMod)):
            return k
        raise Unsupported("dictionary key")

    def memo_store(self, o, key, v):
        if o.d:
            raise Unsupported("memo table with other keys")
        kp = as_int(key) if kind(key) == "i" else poly(key)
        v = freeze(v)
        old = o.memo
        if kp.is_int_const():
            if old is None:
                raise Unsupported("memo key constant")
            if not same_value(value_subst(old[1], {old[0]: kp}), v):
                raise Unsupported("memo table values are not a function of the key")
            if old[2] is not None and kp not in old[2]:
                self.set_dict(o, o.d, old[:2] + (old[2] + (kp,),))
            return
        g = T.fresh("memo")
        sol = None
        for m, c in kp.d.items():       # key = +-s + rest: s = +-(key - rest)
            if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "sym" and c[0] in (1, -1) and not any(m[0][0] in a.fv for q in kp.d for a, _ in q if q != m):
                sol = (m[0][0], (g - (kp - Poly({m: c}))).scale(c))
        if sol is None:
            raise Unsupported("memo key")
        tmpl = value_subst(v, {sol[0]: sol[1]})
        if old is None:
            self.set_dict(o, o.d, (T.the_sym(g), tmpl, (kp,)))
        else:
            if not same_value(value_subst(tmpl, {T.the_sym(g): P(old[0])}), old[1]):
                raise Unsupported("memo table values are not a function of the key")
            if old[2] is not None and kp not in old[2]:
                self.set_dict(o, o.d, old[:2] + (old[2] + (kp,),))

    def st_AugAssign(self, st, env):
        op = OPS[type(st.op)]
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.eval(t, env)
            v = self.eval(st.value, env)
            r = self.aug(op, cur, v)
            if not (r is cur and isinstance(cur, (Arr, PList)) and env.vars.get(t.id) is cur):
                self.set_var(env, t.id, r)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, t.attr)
            v = self.eval(st.value, env)
            self.setattr(o, t.attr, self.aug(op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            idx = self.eval_index(t.slice, env)
            m = idx[0] if isinstance(idx, tuple) and len(idx) == 1 else idx
            if isinstance(o, Arr) and isinstance(m, Arr) and m.dt == "b" and m.shape:
                v = self.eval(st.value, env)
                if is_scalar(v):
                    A.inplace_mask(op, o, m, v)
                    return
            cur = self.getitem(o, idx)
            v = self.eval(st.value, env)
            if isinstance(cur, Arr) and A_is_view(o, cur):
                A.inplace(op, cur, v)
                return
            if isinstance(cur, RowSel):
                rv = A.rowsel_values(cur)
                if not is_scalar(v):
                    raise Unsupported("selection update")
                vp, vk = poly(v), kind(v)
                k = kmax(rv.dt, vk)
                f = rv.fn
                new = A.RowSelVal(rv.key, lambda pt, rest: scalar_op(op, f(pt, rest), vp, k, True, rv.dt, vk)[0], k)
                if KORD[k] > KORD[o.dt]:
                    raise PyExc("TypeError", ())
                A.setitem(o, idx, new)
                return
            self.setitem(o, idx, self.aug(op, cur, v))
        else:
            raise Unsupported("augmented assignment")

    def aug(self, op, cur, v):
        if isinstance(cur, Arr):
            return A.inplace(op, cur, v)
        if isinstance(cur, PList):
            if op == "+":
                if not isinstance(v, Arr):
                    self.call(self.getattr(cur, "extend"), (v,))
                    return cur
            raise Unsupported("list update")
        return binop(op, cur, v)

    def st_If(self, st, env):
        if self.truth(self.eval(st.test, env)):
            self.exec_block(st.body, env)
        else:
            self.exec_block(st.orelse, env)

    def truth(self, v):
        if isinstance(v, (Arr,)):
            if len(v.shape) == 0:
                return self.decide(A.tf(v.fn()(())) if v.dt == "b" else f_not(f_eq(v.fn()(()), 0)))
            if prod_is_one(v.shape):
                raise Unsupported("truth of an array")
            raise PyExc("ValueError", ("truth value of an array is ambiguous",))
        if isinstance(v, PList):
            return self.decide(f_gt(v.length()))
        if isinstance(v, PDict):
            return bool(v.d)
        if isinstance(v, (Obj, Func, Cls, Native, Bound, ModuleV, ExtMod, Once, GenV)):
            return True
        if isinstance(v, (set, frozenset)):
            return bool(v)
        if isinstance(v, SStr):
            if any(isinstance(p, str) and p for p in v.parts):
                return True
            raise Unsupported("truth of symbolic string")
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        return self.decide(formula(v))

    def st_Assert(self, st, env):
        if not self.truth(self.eval(st.test, env)):
            raise PyExc("AssertionError", ())

    def st_Raise(self, st, env):
        if st.exc is None:
            cur = getattr(self, "cur_exc", None)
            if cur is not None:
                raise cur
            raise Unsupported("re-raise")
        v = self.eval(st.exc, env)
        if isinstance(v, ExcVal):
            raise PyExc(v.name, v.args)
        if isinstance(v, ExcCls):
            raise PyExc(v.name, ())
        if isinstance(v, ExtMod):
            raise PyExc(v.name.split(".")[-1], ())
        if isinstance(v, Cls):
            raise PyExc(v.name, ())
        raise Unsupported("raise")

    def st_Try(self, st, env):
        try:
            try:
                self.exec_block(st.body, env)
            except PyExc as e:
                for h in st.handlers:
                    if h.type is None or self.exc_match(e, h.type, env):
                        saved = getattr(self, "cur_exc", None)
                        self.cur_exc = e
                        if h.name:
                            self.set_var(env, h.name, ExcVal(e.name, e.vals))
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            self.cur_exc = saved
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, env)
        except (PyExc, _Return, _Break, _Continue, _Through, _Left):
            self.exec_block(st.finalbody, env)
            raise
        self.exec_block(st.finalbody, env)

    def exc_match(self, e, t, env):
        v = self.eval(t, env)
        vs = v if isinstance(v, tuple) else (v,)
        for x in vs:
            n = x.name.split(".")[-1]
            if exc_isa(e.name, n):
                return True
        return False

    def st_With(self, st, env, i=0):
        if i == len(st.items):
            self.exec_block(st.body, env)
            return
        item = st.items[i]
        v = self.eval(item.context_expr, env)

        def body(x):
            if item.optional_vars is not None:
                self.assign(item.optional_vars, x, env)
            self.st_With(st, env, i + 1)

        if isinstance(v, self.models.CtxV):
            v.run(self, body)
        elif isinstance(v, GenV):
            raise PyExc("TypeError", ("a generator is not a context manager",))
        elif isinstance(v, Obj) and isinstance(v.cls, Cls) and v.cls.find("__enter__"):
            x = self.call(self.getattr(v, "__enter__"), ())
            leave = self.getattr(v, "__exit__")
            try:
                body(x)
            except PyExc as e:
                if not self.truth(self.call(leave, (ExcCls(e.name), ExcVal(e.name, e.vals), None))):
                    raise
                return
            except (_Return, _Break, _Continue, _Through, _Left):
                self.call(leave, (None, None, None))
                raise
            self.call(leave, (None, None, None))
        else:
            body(v)

    def st_FunctionDef(self, st, env):
        f = self.make_func(st, env.module, env, None)
        f.qual = (env.func.qual if env.func else env.module.name) + ".<locals>." + st.name
        self.set_var(env, st.name, f)

    def st_ClassDef(self, st, env):
        self.set_var(env, st.name, self.make_class(st, env.module, env))

    def st_Import(self, st, env):
        for a in st.names:
            self.set_var(env, a.asname or a.name.split(".")[0], self.do_import(st, a, env.module))

    st_ImportFrom = st_Import

    def st_ImportFrom(self, st, env):
        for a in st.names:
            self.set_var(env, a.asname or a.name, self.do_import(st, a, env.module))

    def st_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.trail.append(("env", env, t.id, env.vars.get(t.id, MISSING)))
                env.vars.pop(t.id, None)
            else:
                raise Unsupported("del")

    def st_Nonlocal(self, st, env):
        env.nonloc = (env.nonloc or set()) | set(st.names)

    def st_Global(self, st, env):
        env.globs = (env.globs or set()) | set(st.names)

    def st_Break(self, st, env):
        raise _Break()

    def st_Continue(self, st, env):
        raise _Continue()

    def counting(self, st, env):
        """a while loop that counts: ``k < bound`` (or <=, >, >=, either way round) whose body has exactly one
        assignment to k, a top-level ``k += c`` with a literal c: (name, sign, strict, bound expression, step)"""
        t = st.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            return None
        a, b, op = t.left, t.comparators[0], type(t.ops[0])
        flip = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}
        if op not in flip:
            return None

        def step_of(name):
            found = []
            for i, x in enumerate(st.body):
                if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == name:
                    c = x.value
                    neg = isinstance(x.op, ast.Sub)
                    if not isinstance(x.op, (ast.Add, ast.Sub)):
                        return None
                elif isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) \
                        and x.targets[0].id == name and isinstance(x.value, ast.BinOp) \
                        and isinstance(x.value.op, (ast.Add, ast.Sub)) \
                        and isinstance(x.value.left, ast.Name) and x.value.left.id == name:
                    c = x.value.right
                    neg = isinstance(x.value.op, ast.Sub)
                else:
                    continue
                if not (isinstance(c, ast.Constant) and type(c.value) is int and c.value > 0):
                    return None
                found.append((i, -c.value if neg else c.value))
            stores = [x for y in st.body for x in ast.walk(y)
                      if isinstance(x, ast.Name) and x.id == name and not isinstance(x.ctx, ast.Load)]
            if len(found) != 1 or len(stores) != 1:
                return None
            for y in st.body[:found[0][0]]:     # a continue before the step would skip it
                if any(isinstance(x, ast.Continue) for x in ast.walk(y)):
                    return None
            if any(isinstance(x, ast.Break) for y in st.body for x in ast.walk(y)):
                return None
            return found[0][1]

        for name, bound, o in ((a, b, op), (b, a, flip[op])):
            if isinstance(name, ast.Name) and name.id in env.vars:
                c = step_of(name.id)
                if c is None or any(isinstance(x, (ast.NamedExpr, ast.Await)) for x in ast.walk(bound)):
                    continue
                up = o in (ast.Lt, ast.LtE)
                if up == (c > 0):
                    return name.id, up, o in (ast.Lt, ast.Gt), bound, c
        return None

    def st_While(self, st, env):
        c = self.counting(st, env)
        if c is not None:
            name, up, strict, bound, step = c
            k0, e = env.vars.get(name), self.eval(bound, env)
            if is_scalar(k0) and is_scalar(e) and kind(k0) == "i" and kind(e) == "i" \
                    and not (poly(k0).is_int_const() and poly(e).is_int_const()):
                k0, e = poly(k0), poly(e)
                if not self.truth(self.eval(st.test, env)):
                    self.exec_block(st.orelse, env)
                    return
                d = (e - k0 if up else k0 - e) + (0 if strict else 1)
                n = d if abs(step) == 1 else idiv(d + (abs(step) - 1), P(abs(step)))

                def body(k):
                    self.set_var(env, name, num(k0 + P(step) * P(k), "i"))
                    now = self.eval(bound, env)
                    if not is_scalar(now) or not (poly(now) - e).is_zero():
                        raise Unsupported("while loop whose bound changes")
                    try:
                        self.exec_block(st.body, env)
                    except _Continue:
                        pass

                if n.is_int_const() and n.const()[0] <= UNROLL:
                    for i in range(n.const()[0]):
                        body(P(i))
                else:
                    self.sym_loop(n, body)      # no break, see counting()
                self.set_var(env, name, num(k0 + P(step) * n, "i"))
                self.exec_block(st.orelse, env)
                return
        n = 0
        while True:
            n += 1
            if n > 200:
                raise Unsupported("while loop bound")
            t = self.eval(st.test, env)
            f = formula(t) if is_scalar(t) else None
            if f is not None and f.op not in ("true", "false"):
                if not (self.facts.entails(f) or self.facts.entails(f_not(f))):
                    raise Unsupported("while loop on a symbolic condition")
            if not self.truth(t):
                self.exec_block(st.orelse, env)
                return
            try:
                self.exec_block(st.body, env)
            except _Break:
                return
            except _Continue:
                pass

    def st_Match(self, st, env):
        v = self.eval(st.subject, env)
        for c in st.cases:
            if self.match(c.pattern, v, env) and (c.guard is None or self.truth(self.eval(c.guard, env))):
                self.exec_block(c.body, env)
                return

    def match(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return self.truth(compare("==", v, self.eval(p.value, env)))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, env):
                return False
            if p.name:
                self.set_var(env, p.name, v)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, env) for q in p.patterns)
        if isinstance(p, ast.MatchSequence) and isinstance(v, (tuple, PList)):
            its = list(v) if isinstance(v, tuple) else v.items
            if its is None or any(isinstance(q, ast.MatchStar) for q in p.patterns):
                raise Unsupported("match pattern")
            return len(its) == len(p.patterns) and all(self.match(q, x, env) for q, x in zip(p.patterns, its))
        raise Unsupported("match pattern")

    # ------------------------------------------------------------------------ loops
    def once(self, v):
        """an iterator over v (a list or an IterV)"""
        e = Env(None)
        e.vars["rest"] = v
        return Once(e)

    def rest(self, o):
        v = o.env.vars["rest"]
        if isinstance(v, Poison):
            raise v.error()
        if v is None:
            raise Unsupported("an iterator left part-way")
        return v

    def unonce(self, v):
        """v, or the sequence an iterator v goes through (which uses it up)"""
        if not isinstance(v, Once):
            return v
        r = self.to_iter(v)
        return PList(list(r)) if isinstance(r, list) else r if r.parallel else PList(None, r.n, r.fn)

    def to_iter(self, v):
        """concrete Python list, or IterV"""
        if isinstance(v, Once):
            r = self.rest(v)
            self.set_var(v.env, "rest", [])
            return self._small(r) if isinstance(r, IterV) else list(r)
        if isinstance(v, IterV):
            return self._small(v)
        if isinstance(v, GenV):
            v = self.listed(v)
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, PList):
            if v.items is not None:
                return list(v.items)
            return self._small(IterV(v.n, v.fn))
        if isinstance(v, RangeV):
            return self._small(IterV(v.length(), lambda k, v=v: num(v.at(P(k)), "i")))
        if isinstance(v, Arr):
            if not v.shape:
                raise PyExc("TypeError", ("iteration over a 0-d array",))
            def at(k, v=v):
                k = P(k)
                mark = self.facts.mark()
                self.facts.push(f_ge(k))     # an iterator stays in range
                self.facts.push(f_gt(v.shape[0] - k))
                try:
                    return A.getitem(v, num(k, "i"))
                finally:
                    self.facts.pop(mark)
            return self._small(IterV(v.shape[0], at))
        if isinstance(v, PDict):
            return list(v.d)
        if isinstance(v, (set, frozenset)):
            if any(isinstance(x, TextKey) for x in v):
                raise Unsupported("iteration over a set of symbolic texts")
            return sorted(v, key=repr)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, self.models.ChunkV):
            return IterV(v.n, lambda k: num(P(k), "i", True), parallel=True)
        if isinstance(v, self.models.ChunksV):
            return [self.models.ChunkV(v.n)]
        raise Unsupported(f"iteration over {type(v).__name__}")

    def _small(self, it):
        n = it.n
        if n.is_int_const() and n.const()[0] <= UNROLL:
            return [it.fn(P(i)) for i in range(max(0, n.const()[0]))]
        return it

    def concrete_iter(self, v):
        r = self.to_iter(v)
        if isinstance(r, IterV):
            raise Unsupported("symbolic iteration here")
        return r

    def st_For(self, st, env):
        seq = self.eval(st.iter, env)
        if isinstance(seq, GenV):
            def step(x):
                self.assign(st.target, x, env)
                try:
                    self.exec_block(st.body, env)
                except _Continue:
                    pass
                except _Break:
                    raise _Left(mine)
            mine = object()
            try:
                seq.run(step)
            except _Left as e:
                if e.mark is not mine:
                    raise
                return
            self.exec_block(st.orelse, env)
            return
        it = self.to_iter(seq)
        if not isinstance(it, IterV):
            live = seq.items if isinstance(seq, PList) else None
            for i, x in enumerate(it):
                if live is not None and seq.items is not live:
                    raise Unsupported("a list changed while it is iterated")
                self.assign(st.target, x, env)
                try:
                    self.exec_block(st.body, env)
                except _Break:
                    if isinstance(seq, Once):
                        self.set_var(seq.env, "rest", it[i + 1:])
                    return
                except _Continue:
                    continue
                except _Return:
                    if isinstance(seq, Once):
                        self.set_var(seq.env, "rest", it[i + 1:])
                    raise
            if live is not None and seq.items is not live:
                raise Unsupported("a list changed while it is iterated")
            self.exec_block(st.orelse, env)
            return
        def body(k):
            self.assign(st.target, it.fn(k), env)
            try:
                self.exec_block(st.body, env)
            except _Continue:
                pass
        try:
            self.sym_loop(it.n, body, parallel=it.parallel)
        except (_Break, _Return) as e:
            if isinstance(seq, Once):
                self.set_var(seq.env, "rest", None)
            if isinstance(e, _Return):
                raise
            return
        self.exec_block(st.orelse, env)

    def explore(self, run, maxpaths=64):
        """all sub-paths of run() from the current state: list of (conds, {loc: value}, outcome)"""
        out = []
        trace = []
        while True:
            self.check_time()
            if len(out) > maxpaths:
                raise Unsupported("too many paths in a loop body")
            mark, fm = len(self.trail), self.facts.mark()
            d = Decider(trace)
            self.deciders.append(d)
            try:
                try:
                    res = ("ok", run())
                except PyExc as e:
                    res = ("exc", e)
                state = {}
                for t in self.trail[mark:]:
                    k = loc_key(t)
                    if k not in state:
                        state[k] = (t, freeze(loc_value(t)))
            finally:
                self.deciders.pop()
                self.undo(mark)
                self.facts.pop(fm)
            out.append((d.conds, state, res))
            trace = next_trace(trace)
            if trace is None:
                return out

    def sym_loop(self, n, body, parallel=False):
        from .loops import run_loop
        run_loop(self, n, body, parallel)

    # ------------------------------------------------------------------ expressions
    def eval(self, e, env):
        m = getattr(self, "ex_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, env)

    def ex_Constant(self, e, env):
        v = e.value
        if isinstance(v, float):
            return Num(P(v), "f")
        if isinstance(v, complex):
            return Num(P(v), "c")
        return v

    def ex_Name(self, e, env):
        return self.lookup(e.id, env)

    def lookup(self, name, env):
        x = env
        while x is not None:
            if name in x.vars:
                v = x.vars[name]
                if isinstance(v, Poison):
                    raise v.error()
                return v
            x = x.parent
        v = env.module.lookup(name)
        if v is not MISSING:
            return v
        b = self.models.BUILTINS.get(name)
        if b is not None:
            return b
        if name in EXC_PARENT:
            return ExcCls(name)
        if name == "super":
            return Native(lambda it, a, k: Super(env_cls(env), env_self(env)))
        if name == "__file__":
            return PathV(env.module.path)
        if name == "__name__":
            return env.module.name
        raise PyExc("NameError", (name,))

    def ex_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr)

    def ex_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        op = OPS.get(type(e.op))
        if op is None:
            raise Unsupported("operator")
        if op == "%" and isinstance(a, (str, SStr)):
            return self.models.percent_format(self, a, b)
        return binop(op, a, b)

    def ex_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            if is_scalar(v):
                return mkbool(f_not(formula(v)))
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, (Arr, Sel)):
                return binop("*", -1, v)
            if type(v) in (int, bool):
                return -v
            return Num(-poly(v), "i" if kind(v) == "b" else kind(v), isnp(v))
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if isinstance(v, Arr) and v.dt == "b":
                f = v.fn()
                return new_arr(v.shape, "b", lambda i: f_not(f(i)))
            if isinstance(v, Bool):
                return mkbool(f_not(v.f))
            if type(v) is int:
                return ~v
        raise Unsupported("unary operator")

    def ex_BoolOp(self, e, env):
        v = None
        isand = isinstance(e.op, ast.And)
        vals = e.values
        # pure scalar conditions are combined without forking when safe
        for i, x in enumerate(vals):
            v = self.eval(x, env)
            if i == len(vals) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v if not isinstance(v, Bool) else False
            if not isand and t:
                return v if not isinstance(v, Bool) else True
        return v

    def ex_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env)
            c = self.compare1(op, left, right)
            if res is None:
                res = c
            else:
                if isinstance(res, (Arr,)) or isinstance(c, Arr):
                    raise Unsupported("chained array comparison")
                res = mkbool(f_and(formula(res), formula(c)))
            left = right
        return res

    def compare1(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = a is b or (a is None and b is None)
            if isinstance(a, bool) and isinstance(b, bool):
                r = a == b
            elif isinstance(a, Bool) and isinstance(b, bool):
                r = mkbool(a.f if b else f_not(a.f))
            if isinstance(op, ast.IsNot):
                return mkbool(f_not(formula(r)))
            return r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return mkbool(f_not(formula(r))) if isinstance(op, ast.NotIn) else r
        return compare({ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[type(op)], a, b)

    def contains(self, c, x):
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, SStr) and isinstance(x, str):
            for p in c.parts:
                if isinstance(p, str) and x in p:
                    return True
            # a symbolic number piece cannot contain letters; refuse when ambiguous
            if all(isinstance(p, str) or is_scalar(p.v) for p in c.parts) and any(ch.isalpha() and ch not in "einfajE" for ch in x):
                pad = "".join(p if isinstance(p, str) else "\0" for p in c.parts)
                return x in pad
            raise Unsupported("substring of a symbolic string")
        if isinstance(c, PDict):
            if isinstance(x, Num) or c.memo is not None:
                if c.d:
                    raise Unsupported("membership in a mixed dictionary")
                self.assumptions.add("a memo dictionary keyed by an index is treated as absent on lookup; its stored values are shown to be a function of the key, so presence makes no difference")
                return False
            return self.hashkey(x) in c.d
        if isinstance(c, (set, frozenset)) and isinstance(x, (str, int)):
            decidable_sets(c, {x})
            return x in c
        if isinstance(c, (tuple, PList)):
            its = list(c) if isinstance(c, tuple) else c.items
            if its is None:
                raise Unsupported("membership in symbolic list")
            f = FALSE
            for y in its:
                if type(x) is str and type(y) is str:
                    r = x == y
                else:
                    r = compare("==", x, y)
                f = f_or(f, formula(r))
            return mkbool(f)
        if isinstance(c, RangeV) and c.step == 1:
            p = as_int(x)
            return mkbool(f_and(f_ge(p - c.lo), f_gt(c.hi - p)))
        if isinstance(c, self.models.RegistryV):
            return self.models.registry_contains(self, c, x)
        raise Unsupported(f"membership in {type(c).__name__}")

    def ex_IfExp(self, e, env):
        if self.truth(self.eval(e.test, env)):
            return self.eval(e.body, env)
        return self.eval(e.orelse, env)

    def ex_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def ex_List(self, e, env):
        return self.newlist(self.elts(e.elts, env))

    def newlist(self, items):
        return PList(items)

    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out += self.concrete_iter(self.eval(x.value, env))
            else:
                out.append(self.eval(x, env))
        return out

    def ex_Set(self, e, env):
        return frozenset(self.hashkey(x) for x in self.elts(e.elts, env))

    def ex_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.eval(v, env).d)
            else:
                d[self.hashkey(self.eval(k, env))] = self.eval(v, env)
        return PDict(d)

    def ex_Lambda(self, e, env):
        f = Func(e, env.module, env)
        a = e.args
        f.defaults = ([self.eval(x, env) for x in a.defaults], [None if x is None else (self.eval(x, env),) for x in a.kw_defaults])
        return f

    def ex_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        while env.comp:
            env = env.parent
        self.set_var(env, e.target.id, v)
        return v

    def ex_JoinedStr(self, e, env):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                v = self.eval(x.value, env)
                spec = ""
                if x.format_spec is not None:
                    s = self.ex_JoinedStr(x.format_spec, env)
                    if not isinstance(s, str):
                        raise Unsupported("symbolic format")
                    spec = s
                if x.conversion not in (-1, 115):
                    parts.append(Piece(v, "!r"))
                    continue
                parts += SStr.of(self.models.tostr(self, v, spec))
        return mkstr(parts)

    def ex_FormattedValue(self, e, env):
        return self.ex_JoinedStr(ast.JoinedStr([e]), env)

    def ex_Subscript(self, e, env):
        o = self.eval(e.value, env)
        if isinstance(o, (ExtMod, Cls)) or (isinstance(o, Native) and o.name in ("list", "dict", "tuple", "set", "type")):
            return o      # typing subscript
        return self.getitem(o, self.eval_index(e.slice, env))

    def eval_index(self, s, env):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.eval(x, env)
            return SliceV(f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            out = []
            for x in s.elts:
                if isinstance(x, ast.Starred):
                    out += self.concrete_iter(self.eval(x.value, env))
                else:
                    out.append(self.eval_index(x, env))
            return tuple(out)
        return self.eval(s, env)

    def getitem(self, o, idx):
        if isinstance(o, self.models.ArgW) and o.mask is not None:
            return self.models.first_point(self, o, idx)
        if isinstance(o, self.models.ArgW) and isinstance(idx, tuple) and len(idx) == 2 and isinstance(idx[0], SliceV) and idx[0].t == (None, None, None) and type(idx[1]) is int and idx[1] in (0, -1):
            return o.sel
        if isinstance(o, (Arr, Sel)):
            if isinstance(idx, tuple) and len(idx) == 1 and isinstance(idx[0], Sel):
                idx = idx[0]
            return A.getitem(o, idx)
        if isinstance(o, (tuple, str)):
            if isinstance(idx, SliceV):
                a, b, c = idx.t
                if any(isinstance(x, Num) for x in (a, b, c)):
                    raise Unsupported("symbolic slice of a tuple")
                return o[slice(a, b, c)]
            i = as_int(idx)
            if not i.is_int_const():
                raise Unsupported("symbolic tuple index")
            i = i.const()[0]
            if not -len(o) <= i < len(o):
                raise PyExc("IndexError", ())
            return o[i]
        if isinstance(o, PList):
            if o.items is None:
                if isinstance(idx, SliceV):
                    lo, size, st = A.slice_bounds(idx.t, o.n)
                    return PList(None, size, lambda k: o.fn(lo + P(st) * P(k)))
                return o.fn(A.norm_index(idx, o.n))
            if isinstance(idx, SliceV):
                a, b, c = idx.t
                if any(isinstance(x, Num) for x in (a, b, c)):
                    raise Unsupported("symbolic slice of a list")
                return PList(o.items[slice(a, b, c)])
            i = as_int(idx)
            if not i.is_int_const():
                if not (self.decide(f_ge(i)) and self.decide(f_gt(len(o.items) - i))):
                    raise Unsupported("symbolic list index")
                for j in range(len(o.items)):
                    if j == len(o.items) - 1 or self.decide(f_eq(i, j)):
                        return o.items[j]
            i = i.const()[0]
            if not -len(o.items) <= i < len(o.items):
                raise PyExc("IndexError", ())
            return o.items[i]
        if isinstance(o, PDict):
            if o.memo is not None:
                kp = as_int(idx)
                if o.memo[2] is not None and kp not in o.memo[2]:
                    raise PyExc("KeyError", (idx,))     # not stored on this path: may be absent
                return value_subst(o.memo[1], {o.memo[0]: kp})
            if isinstance(idx, Num) and not o.d:
                raise PyExc("KeyError", (idx,))
            k = self.hashkey(idx)
            if k not in o.d:
                raise PyExc("KeyError", (k,))
            return o.d[k]
        if isinstance(o, RangeV):
            return num(o.at(A.norm_index(idx, o.length())), "i")
        if isinstance(o, RowSel):
            raise Unsupported("index of selected rows")
        if o is None:
            raise PyExc("TypeError", ("'NoneType' object is not subscriptable",))
        if isinstance(o, self.models.ChunksV):
            raise Unsupported("index of chunks")
        raise Unsupported(f"subscript of {type(o).__name__}")

    def ex_Call(self, e, env):
        f = self.eval(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.concrete_iter(self.eval(a.value, env))
            else:
                args.append(self.eval(a, env))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                kwargs.update(d.d)
            else:
                kwargs[k.arg] = self.eval(k.value, env)
        return self.call(f, tuple(args), kwargs)

    def ex_ListComp(self, e, env):
        return self.comp(e.elt, e.generators, env)

    def ex_GeneratorExp(self, e, env):
        g = e.generators
        if len(g) > 1 or g[0].ifs:
            inner = Env(env.module, env, env.func)
            inner.comp = True
            inner.cls, inner.selfv = env.cls, env.selfv
            first = self.to_iter(self.eval(g[0].iter, inner))
            if isinstance(first, IterV) or len(g) > 1:
                return CompV(self, e.elt, g, inner, first)
        return self.once(self.to_iter(self.comp(e.elt, e.generators, env)))

    def ex_SetComp(self, e, env):
        r = self.comp(e.elt, e.generators, env)
        if r.items is None:
            raise Unsupported("symbolic set")
        return frozenset(self.hashkey(x) for x in r.items)

    def ex_DictComp(self, e, env):
        r = self.comp(ast.Tuple([e.key, e.value], ast.Load()), e.generators, env)
        if r.items is None:
            raise Unsupported("symbolic dict")
        return PDict({self.hashkey(k): v for k, v in r.items})

    def comp(self, elt, gens, env):
        inner = Env(env.module, env, env.func)
        inner.comp = True
        inner.cls, inner.selfv = env.cls, env.selfv
        return self.comp_rec(elt, gens, inner)

    def comp_rec(self, elt, gens, env):
        g = gens[0]
        it = self.to_iter(self.eval(g.iter, env))
        if not isinstance(it, IterV):
            out = []
            for x in it:
                self.assign(g.target, x, env)
                if all(self.truth(self.eval(c, env)) for c in g.ifs):
                    if len(gens) > 1:
                        r = self.comp_rec(elt, gens[1:], env)
                        if r.items is None:
                            if len(it) == 1:
                                return r
                            raise Unsupported("nested symbolic comprehension")
                        out += r.items
                    else:
                        out.append(self.eval(elt, env))
            return PList(out)
        if len(gens) > 1 or g.ifs:
            acc = PList([])
            self.comp_loop(elt, gens, env, lambda x: self.call(self.getattr(acc, "append"), (x,)), it)
            return acc
        def element(k):
            self.assign(g.target, it.fn(k), env)
            return freeze(self.eval(elt, env))
        return self.mapped(it, element, env)

    def mapped(self, it, element, local=None):
        """the list of element(k), k = 0..it.n - 1 (local: where its variables live)"""
        from .loops import preexisting
        k, stamp = T.fresh("k"), next(_ids)
        fm = self.facts.mark()
        self.facts.push(f_ge(k))
        self.facts.push(f_gt(it.n - k))
        try:
            res = self.explore(lambda: element(k))
        finally:
            self.facts.pop(fm)
        if any(t[1] is not local and preexisting(t, stamp) for _, state, _ in res for t, _ in state.values()):
            acc = PList([])     # one element changes what the next one sees
            self.sym_loop(it.n, lambda j: self.call(self.getattr(acc, "append"), (element(j),)), parallel=it.parallel)
            return acc
        from .loops import merge_values, loop_exceptions
        loop_exceptions(self, it.n, k, res)
        okres = [(c, r[1]) for c, s, r in res if r[0] == "ok"]
        if not okres:
            raise Unsupported("comprehension")
        v = merge_values(okres)
        ks = T.the_sym(k)
        return PList(None, it.n, lambda i: value_subst(v, {ks: P(i)}))

    def comp_loop(self, elt, gens, env, use, it=None):
        """a comprehension as the loop it abbreviates: use(element) for each"""
        if not gens:
            use(self.eval(elt, env))
            return
        g = gens[0]
        if it is None:
            it = self.to_iter(self.eval(g.iter, env))

        def step(x):
            self.assign(g.target, x, env)
            if all(self.truth(self.eval(c, env)) for c in g.ifs):
                self.comp_loop(elt, gens[1:], env, use)

        if isinstance(it, IterV):
            self.sym_loop(it.n, lambda k: step(it.fn(k)), parallel=it.parallel)
        else:
            for x in it:
                step(x)

    def comp_exists(self, c, neg=False):
        """any(...) of a comprehension that is not consumed yet, as one formula (neg: some element is false)"""
        def rec(gens, env, it):
            if not gens:
                f = formula(self.eval(c.elt, env))
                return f_not(f) if neg else f
            g = gens[0]
            if it is None:
                it = self.to_iter(self.eval(g.iter, env))

            def at(x):
                self.assign(g.target, x, env)
                fs = []
                for t in g.ifs:
                    f = formula(self.eval(t, env))
                    if f.op == "false":
                        return FALSE
                    fs.append(f)
                    self.facts.push(f)
                return f_and(*fs, rec(gens[1:], env, None))

            def each(x):
                mark = self.facts.mark()
                try:
                    return at(x)
                finally:
                    self.facts.pop(mark)

            if not isinstance(it, IterV):
                return f_or(*[each(x) for x in it])
            k = T.fresh("k")
            mark = self.facts.mark()
            self.facts.push(f_ge(k))
            self.facts.push(f_gt(it.n - k))
            stamp = next(_ids)
            try:
                res = self.explore(lambda: each(it.fn(k)))
            finally:
                self.facts.pop(mark)
            from .loops import loop_exceptions, preexisting
            if any(t[1] is not env and preexisting(t, stamp) for _, state, _ in res for t, _ in state.values()):
                raise Unsupported("any/all of elements with side effects")
            loop_exceptions(self, it.n, k, res)
            f = f_or(*[f_and(*cs, r[1]) for cs, st, r in res if r[0] == "ok"])
            ks = T.the_sym(k)
            return A.quant_formula("exists", [it.n], lambda i: subst(f, {ks: i[0]}))
        return rec(c.gens, c.env, c.first)

    def ex_Yield(self, e, env):
        x = env
        while x is not None and "<yield>" not in x.vars:
            x = x.parent
        if x is None:
            raise Unsupported("yield here")
        x.vars["<yield>"](self.eval(e.value, env) if e.value is not None else None)
        return None

    def ex_YieldFrom(self, e, env):
        x = env
        while x is not None and "<yield>" not in x.vars:
            x = x.parent
        if x is None:
            raise Unsupported("yield from here")
        self.each(self.eval(e.value, env), x.vars["<yield>"])
        return None

    def each(self, v, step):
        """step(x) for every element of v, in order"""
        if isinstance(v, GenV):
            v.run(step)
            return
        it = self.to_iter(v)
        if isinstance(it, IterV):
            self.sym_loop(it.n, lambda k: step(it.fn(k)), parallel=it.parallel)
        else:
            for x in it:
                step(x)

    def listed(self, v):
        """a generator's elements, all at once (it is consumed where it stands)"""
        acc = PList([])
        v.run(lambda x: self.call(self.getattr(acc, "append"), (x,)))
        return acc

    def ex_Starred(self, e, env):
        raise Unsupported("starred")

    def ex_Await(self, e, env):
        raise Unsupported("await")

class ExcCls:
    def __init__(self, name):
        self.name = name

class ExcVal:
    def __init__(self, name, args):
        self.name, self.args = name, args

OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
       ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.MatMult: "@", ast.LShift: "<<", ast.RShift: ">>"}

def next_trace(trace):
    trace = list(trace)
    while trace and trace[-1] is False:
        trace.pop()
    if not trace:
        return None
    trace[-1] = False
    return trace

def env_cls(env):
    while env is not None:
        if env.cls is not None:
            return env.cls
        env = env.parent
    raise Unsupported("super outside a class")

def env_self(env):
    while env is not None:
        if env.selfv is not None:
            return env.selfv
        env = env.parent
    raise Unsupported("super outside a method")

def is_generator(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo += ast.iter_child_nodes(n)
    return False

def prod_is_one(shape):
    return all(s.is_int_const() and s.const()[0] == 1 for s in shape)

def A_is_view(o, cur):
    return isinstance(o, Arr) and cur.cell is o.cell

def loc_key(t):
    k, o, n, _ = t
    return (k, id(o), n)

def loc_value(t):
    k, o, n, _ = t
    if k == "cell":
        return o.fn
    if k == "env":
        return o.vars.get(n, MISSING)
    if k == "glob":
        return o.globals.get(n, MISSING)
    if k == "fld":
        return o.f.get(n, MISSING)
    if k == "list":
        return (o.items, o.n, o.fn)
    if k == "dict":
        return (o.d, o.memo)

def freeze(v):
    """immutable snapshot of a value"""
    if isinstance(v, Arr):
        r = Arr(Cell(v.shape, v.dt, v.fn()))
        if isinstance(v.tag, tuple) and v.tag[0] == "grown" and v.tag[3] is v.cell.fn and v.vmap is None:
            r.tag = v.tag[:3] + (r.cell.fn,)
        return r
    if isinstance(v, tuple):
        return tuple(freeze(x) for x in v)
    if type(v) is list:
        return [freeze(x) for x in v]
    if isinstance(v, list):      # a list a loop is filling (loops._Mark)
        return type(v)([freeze(x) for x in v.appended()])
    if type(v) is dict:
        return {k: freeze(x) for k, x in v.items()}
    if isinstance(v, PList):
        if v.items is not None:
            return PList([freeze(x) for x in v.items])
        return PList(None, v.n, v.fn)
    return v

def value_subst(v, sub):
    if isinstance(v, Num):
        return num(subst(v.p, sub), v.k, v.np)
    if isinstance(v, Bool):
        return mkbool(subst(v.f, sub))
    if isinstance(v, Arr):
        f = v.fn()
        nd = len(v.shape)
        syms = [T.fresh("e") for _ in range(nd)]
        c = V.ctx()
        mark = c.facts.mark()
        try:
            for s, d in zip(syms, v.shape):
                c.facts.push(f_ge(s))
                c.facts.push(f_gt(d - s))
            body = f(tuple(syms))
        finally:
            c.facts.pop(mark)
        body = subst(body, sub)
        sa = [T.the_sym(s) for s in syms]
        return new_arr([subst(d, sub) for d in v.shape], v.dt, lambda idx: subst(body, dict(zip(sa, idx))))
    if isinstance(v, tuple):
        return tuple(value_subst(x, sub) for x in v)
    if isinstance(v, PList) and v.items is not None:
        return PList([value_subst(x, sub) for x in v.items])
    if isinstance(v, (int, str, bool, type(None), float, Func, Cls, ModuleV, ExtMod, Native)):
        return v
    if isinstance(v, SStr):
        return mkstr([p if isinstance(p, str) else Piece(value_subst(p.v, sub), p.spec) for p in v.parts])
    raise Unsupported(f"substitution in {type(v).__name__}")

def same_value(a, b):
    if is_scalar(a) and is_scalar(b):
        return poly(a) == poly(b)
    if isinstance(a, Arr) and isinstance(b, Arr) and len(a.shape) == len(b.shape) and a.dt == b.dt:
        if tuple(a.shape) != tuple(b.shape):
            return False
        syms = tuple(T.fresh("e") for _ in a.shape)
        x, y = a.fn()(syms), b.fn()(syms)
        if isinstance(x, Formula):
            return x == y
        return x == y or V.ctx().prover.prove_zero(x - y)
    return False
