"""Models (assumed contracts) of the external functions the verified code calls, and of Python builtins."""
from __future__ import annotations

import math
from fractions import Fraction

from . import terms as T
from . import arrays as A
from . import solver as SV
from .terms import P, Poly, Formula, TRUE, FALSE, f_not, f_and, f_or, f_ge, f_gt, f_eq, iv, ite, subst
from .values import *
from .values import ctx
from .arrays import RowSel, SliceV

MODELS: dict = {}
BUILTINS: dict = {}
TRUSTED: dict = {}     # model name -> one-line assumed contract

class ChunkV:
    """one worker's share of 0..n-1: iterated in an unknown order, disjoint from the other shares"""
    def __init__(self, n):
        self.n = P(n)

class ChunksV:
    """the list of all workers' shares (contract of split_arr_into_chunks)"""
    def __init__(self, n):
        self.n = P(n)

class RegistryV:
    def __init__(self, names=None, oracle=None):
        self.oracle = oracle

class CtxV:
    """a context manager: run(it, body) calls body(value) where the with-block stands"""
    def __init__(self, run):
        self.run = run

def registry_contains(it, c, x):
    return c.oracle(it, x)

class ArgW:
    """result of np.argwhere (mask: its argument, for several dimensions)"""
    def __init__(self, sel, mask=None):
        self.sel, self.mask = sel, mask

def first_point(it, w, i):
    """row 0 of np.argwhere(mask): the first point in row-major order where it holds"""
    if not (isinstance(i, int) and i == 0):
        raise Unsupported("argwhere row")
    m = w.mask
    lam = lam_of(m)
    if maximised(m.shape, lam) is None:
        if not it.decide(A.quant_formula("exists", m.shape, lambda q: m.fn()(tuple(q)))):
            raise PyExc("IndexError", ("index 0 is out of bounds",))
    pts = [T.app("first%d" % k, tuple(m.shape), "I", (lam,)) for k in range(len(m.shape))]
    def fn(idx):
        v = pts[-1]
        for k in range(len(pts) - 2, -1, -1):
            v = T.ite(f_eq(idx[0], k), pts[k], v)
        return v
    return new_arr((P(len(pts)),), "i", fn)

def maximised(dims, lam):
    """x where the condition is (x == max x), which holds somewhere; else None"""
    syms = tuple(T.fresh("am") for _ in dims)
    b = T.app_lam(lam, syms)
    for ind in T.all_atoms(b, deep=False):
        if ind.kind == "iv" and P(ind) == b and ind.data[0].op == "eq":
            e = ind.data[0].args[0]
            for a in T.all_atoms(e):
                if a.kind == "app" and a.data[0] == "arrmax" and tuple(a.data[1]) == tuple(P(d) for d in dims):
                    x = T.app_lam(a.data[2][0], syms)
                    if e in (x - P(a), P(a) - x):
                        return a.data[2][0]
    return None

def _first_ax(a):
    """the point is in range and the condition holds there (used only where it holds somewhere)"""
    dims, lam = a.data[1], a.data[2][0]
    pts = tuple(T.app("first%d" % k, dims, "I", (lam,)) for k in range(len(dims)))
    return [f for p, d in zip(pts, dims) for f in (f_ge(p), f_gt(d - p))] + [f_eq(T.app_lam(lam, pts), 1)]
for _k in range(3):
    SV.AXIOMS["first%d" % _k] = _first_ax

class DType:
    def __init__(self, k):
        self.k = k

    def __repr__(self):
        return f"dtype({self.k})"

def model(*names, trust=None):
    def deco(f):
        for n in names:
            MODELS[n] = f
            if trust:
                TRUSTED[n] = trust
        return f
    return deco

def native(name):
    def deco(f):
        from .interp import Native
        BUILTINS[name] = Native(f, name)
        return f
    return deco

def _args(args, kwargs, names, defaults=None, extra=()):
    """bind positional/keyword arguments"""
    out = dict(defaults or {})
    for n, v in zip(names, args):
        out[n] = v
    if len(args) > len(names):
        raise PyExc("TypeError", ("too many arguments",))
    for k, v in kwargs.items():
        if k not in names and k not in extra:
            raise Unsupported(f"keyword {k}")
        out[k] = v
    for n in names:
        if n not in out:
            raise PyExc("TypeError", (f"missing {n}",))
    return out

DK = {"complex128": "c", "float64": "f", "int_": "i", "int64": "i", "bool_": "b", "float32": "f", "complex64": "c",
      "int32": "i", "int": "i", "float": "f", "bool": "b", "complex": "c", "intp": "i", "double": "f", "cdouble": "c", "uint64": "i"}

def dtype_kind(d, default="f"):
    from .interp import ExtMod, Native
    if d is None:
        return default
    if isinstance(d, DType):
        return d.k
    if isinstance(d, Native):
        return DK[d.name]
    if isinstance(d, str):
        if d in DK:
            return DK[d]
        raise Unsupported(f"dtype {d}")
    if isinstance(d, ExtMod):
        n = d.name.split(".")[-1]
        if n in DK:
            return DK[n]
    raise Unsupported("dtype")

CONSTS = {
    "numpy.pi": Num(T.PI_, "f"), "math.pi": Num(T.PI_, "f"), "numpy.newaxis": None,
    "numpy.nan": Poison("nan"), "numpy.inf": Poison("inf"), "math.inf": Poison("inf"), "numpy.e": Num(T.mk_exp(P(1)), "f"), "math.e": Num(T.mk_exp(P(1)), "f"),
    "typing.TYPE_CHECKING": False,
}

# ------------------------------------------------------------------ array creation
def shape_of(v):
    if isinstance(v, PList):
        v = tuple(v.items)
    if isinstance(v, Arr):
        v = tuple(A.getitem(v, i) for i in range(v.shape[0].const()[0]))
    if not isinstance(v, tuple):
        v = (v,)
    out = []
    for x in v:
        p = as_int(x)
        if p.is_int_const():
            if p.const()[0] < 0:
                raise PyExc("ValueError", ("negative dimensions",))
        elif not ctx().decide(f_ge(p)):
            raise PyExc("ValueError", ("negative dimensions",))
        out.append(p)
    return tuple(out)

def const_fn(k, v):
    if k == "b":
        f = TRUE if v else FALSE
        return lambda idx: f
    p = P(v)
    return lambda idx: p

@model("numpy.zeros")
def np_zeros(it, args, kw):
    a = _args(args, kw, ["shape", "dtype"], {"dtype": None})
    k = dtype_kind(a["dtype"])
    return new_arr(shape_of(a["shape"]), k, const_fn(k, 0))

@model("numpy.ones")
def np_ones(it, args, kw):
    a = _args(args, kw, ["shape", "dtype"], {"dtype": None})
    k = dtype_kind(a["dtype"])
    return new_arr(shape_of(a["shape"]), k, const_fn(k, 1))

@model("numpy.empty")
def np_empty(it, args, kw):
    a = _args(args, kw, ["shape", "dtype"], {"dtype": None})
    k = dtype_kind(a["dtype"])
    sh = shape_of(a["shape"])
    name = T.the_sym(T.fresh("uninit")).data[0] if False else f"uninit{T.the_sym(T.fresh('u')).id}"
    if k == "b":
        return new_arr(sh, k, lambda idx: f_batom(T.app(name, tuple(idx), "B")))
    return new_arr(sh, k, lambda idx: T.app(name, tuple(idx), SORT[k]))

from .terms import f_batom

@model("numpy.full")
def np_full(it, args, kw):
    a = _args(args, kw, ["shape", "fill", "dtype"], {"dtype": None}, ("fill_value",))
    v = a.get("fill_value", a["fill"])
    k = dtype_kind(a["dtype"], kind(v))
    p = A.cast_store(poly(v), kind(v), k, True) if k != "b" else None
    if k == "b":
        f = formula(v)
        return new_arr(shape_of(a["shape"]), k, lambda idx: f)
    return new_arr(shape_of(a["shape"]), k, lambda idx: p)

def _like(v):
    def f(it, args, kw):
        a = _args(args, kw, ["a", "dtype"], {"dtype": None})
        x = A.as_arr(a["a"])
        k = dtype_kind(a["dtype"], x.dt)
        return new_arr(x.shape, k, const_fn(k, v))
    return f
MODELS["numpy.zeros_like"] = _like(0)
MODELS["numpy.ones_like"] = _like(1)

@model("numpy.empty_like")
def np_empty_like(it, args, kw):
    a = _args(args, kw, ["a", "dtype"], {"dtype": None})
    x = A.as_arr(a["a"])
    return np_empty(it, (tuple(num(d, "i") for d in x.shape),), {"dtype": DType(dtype_kind(a["dtype"], x.dt))})

@model("numpy.eye", "numpy.identity")
def np_eye(it, args, kw):
    a = _args(args, kw, ["n", "dtype"], {"dtype": None})
    n = shape_of(a["n"])[0]
    k = dtype_kind(a["dtype"])
    return new_arr((n, n), k, lambda i: iv(f_eq(i[0], i[1])))

@model("numpy.arange")
def np_arange(it, args, kw):
    args = list(args)
    dt = kw.get("dtype")
    if len(args) == 1:
        lo, hi, st = 0, args[0], 1
    elif len(args) == 2:
        (lo, hi), st = args, 1
    else:
        lo, hi, st = args[:3]
    st = as_int(st)
    if any(kind(x) not in ("i", "b") for x in (lo, hi)):
        raise Unsupported("arange of non-integers")
    if not st.is_int_const() or st.const()[0] == 0:
        raise Unsupported("arange step")
    s = st.const()[0]
    lo, hi = as_int(lo), as_int(hi)
    r = RangeV(lo, hi, s)
    n = r.length()
    if not (n.is_int_const() and n.const()[0] >= 0) and not it.decide(f_ge(n)):
        n = P(0)
    k = dtype_kind(dt, "i")
    return new_arr((n,), k, lambda i: lo + P(s) * i[0])

@model("numpy.array", "numpy.asarray", "numpy.ascontiguousarray", "numpy.asanyarray", "numpy.asfortranarray")
def np_array(it, args, kw):
    a = _args(args, kw, ["object", "dtype"], {"dtype": None}, ("copy", "order"))
    v = a["object"]
    if isinstance(v, Sel):
        return v
    if isinstance(v, RangeV):
        v = np_arange(it, (num(v.lo, "i"), num(v.hi, "i"), v.step), {})
    r = A.array_of(v) if not is_scalar(v) else A.as_arr(v)
    if a["dtype"] is not None:
        r = A.copy(r, dtype_kind(a["dtype"]))
    return r

# ------------------------------------------------------------------------- ufuncs
def _uf(name, f, k):
    def g(it, args, kw):
        if kw or len(args) > 1:
            raise Unsupported(f"{name} keywords")
        x = args[0]
        if isinstance(x, (PList, tuple)):
            x = A.array_of(x)
        if is_scalar(x):
            return num(f(poly(x)), k(kind(x)), True)
        return A.ufunc(f, x, k)
    MODELS["numpy." + name] = g
    return g

KF = lambda k: "c" if k == "c" else "f"
KS = lambda k: "i" if k == "b" else k
nn = lambda q: ctx().facts.nonneg(q)

_uf("abs", T.mk_abs, lambda k: "f" if k == "c" else KS(k))
_uf("absolute", T.mk_abs, lambda k: "f" if k == "c" else KS(k))
_uf("fabs", T.mk_abs, lambda k: "f")
_uf("sqrt", lambda p: T.mk_sqrt(p, nn), KF)
_uf("exp", T.mk_exp, KF)
_uf("sin", T.mk_sin, KF)
_uf("cos", T.mk_cos, KF)
_uf("log", T.mk_log, KF)
_uf("log10", lambda p: T.mk_log(p) * T.inv(T.mk_log(P(10))), KF)
_uf("log2", lambda p: T.mk_log(p) * T.inv(T.mk_log(P(2))), KF)
_uf("conj", T.conj, KS)
_uf("conjugate", T.conj, KS)
_uf("real", T.real_part, lambda k: "f" if k == "c" else KS(k))
_uf("imag", T.imag_part, lambda k: "f" if k == "c" else KS(k))
_uf("floor", floor_poly, lambda k: "f")
_uf("ceil", lambda p: -floor_poly(-p), lambda k: "f")
_uf("deg2rad", lambda p: p * T.PI_ * Fraction(1, 180), lambda k: "f")
_uf("radians", lambda p: p * T.PI_ * Fraction(1, 180), lambda k: "f")
_uf("rad2deg", lambda p: p * T.inv(T.PI_) * 180, lambda k: "f")
_uf("degrees", lambda p: p * T.inv(T.PI_) * 180, lambda k: "f")
_uf("square", lambda p: p * p, KS)
_uf("negative", lambda p: -p, KS)
_uf("sign", lambda p: iv(f_gt(p)) - iv(f_gt(-p)), KS)

def round_poly(p):
    if p.sort == "I":
        return p
    return T.app("round", (p,), "I")
def _round_rb(args, sort, lams):
    p = args[0]
    if p.is_const():
        return P(round(p.const()[0]))
    return round_poly(p)
T.REBUILD["round"] = _round_rb
def _round_ax(a):
    p = a.data[1][0]
    R = P(a)
    return [f_ge(P(1) - (p - R) * 2), f_ge(P(1) - (R - p) * 2)]
SV.AXIOMS["round"] = _round_ax
def _floor_ax(a):
    p = a.data[1][0]
    return [f_ge(p - P(a)), f_gt(P(a) + 1 - p)]
SV.AXIOMS["floor"] = _floor_ax

def trunc_poly(p):
    if p.sort == "I":
        return p
    return ite(f_ge(p), floor_poly(p), -floor_poly(-p))

_uf("round", round_poly, lambda k: "f" if k != "i" else "i")
_uf("rint", round_poly, lambda k: "f")

_round0 = MODELS["numpy.round"]

@model("numpy.round", "numpy.around")
def np_round(it, args, kw):
    a = _args(args, kw, ["a", "decimals"], {"decimals": 0})
    x, d = a["a"], a["decimals"]
    if isinstance(x, (PList, tuple)):
        x = A.array_of(x)
    k = kind(x) if is_scalar(x) else x.dt
    if k == "c" or not isinstance(d, int):
        raise Unsupported("rounding of complex values")
    if d == 0 or k == "i" and d > 0:
        return _round0(it, (x,), {})
    t = P(10 ** d) if d > 0 else P(Fraction(1, 10 ** -d))
    f = lambda p: round_poly(p * t) * T.inv(t)
    return num(f(poly(x)), "f", True) if is_scalar(x) else A.ufunc(f, x, lambda k: "f")
_uf("trunc", trunc_poly, lambda k: "f")

def angle_poly(p):
    return T.app("angle", (p,), "R")
_uf("angle", angle_poly, lambda k: "f")

def _bin(name, op):
    def g(it, args, kw):
        if kw:
            raise Unsupported(f"{name} keywords")
        return binop(op, args[0] if not isinstance(args[0], PList) else A.array_of(args[0]), args[1] if not isinstance(args[1], PList) else A.array_of(args[1]))
    MODELS["numpy." + name] = g
for n_, o_ in [("multiply", "*"), ("add", "+"), ("subtract", "-"), ("divide", "/"), ("true_divide", "/"), ("power", "**"), ("floor_divide", "//"), ("mod", "%"), ("remainder", "%"),
               ("bitwise_and", "&"), ("bitwise_or", "|")]:
    _bin(n_, o_)
def _asnp(v):
    return Num(poly(v), kind(v) if kind(v) != "b" else "i", True) if is_scalar(v) else v

@model("re.sub")
def re_sub(it, args, kw):
    import re
    if kw or len(args) != 3 or not all(isinstance(a, str) for a in args):
        raise Unsupported("re.sub on a symbolic string")
    return re.sub(*args)

@model("numpy.float_power")
def np_float_power(it, args, kw):
    a, b = args
    if is_scalar(a) and is_scalar(b):
        r, k = power(poly(a), poly(b), "f", kind(b), True)
        return Num(r, "c" if k == "c" else "f", True)
    a = _asnp_arr(a)
    if is_scalar(a):
        a = Num(poly(a), "c" if kind(a) == "c" else "f", True)
    elif a.dt != "c":
        a = A.copy(a, "f")
    return binop("**", a, _asnp_arr(b))

def _cmpm(name, op):
    def g(it, args, kw):
        return compare(op, args[0], args[1])
    MODELS["numpy." + name] = g
for n_, o_ in [("greater", ">"), ("greater_equal", ">="), ("less", "<"), ("less_equal", "<="), ("equal", "=="), ("not_equal", "!=")]:
    _cmpm(n_, o_)

@model("numpy.logical_and")
def np_logical_and(it, args, kw):
    return A.ewise(lambda p, q: f_and(A.tf(p) if not isinstance(p, Formula) else p, A.tf(q)), "b", *args)

@model("numpy.logical_or")
def np_logical_or(it, args, kw):
    return A.ewise(lambda p, q: f_or(A.tf(p), A.tf(q)), "b", *args)

@model("numpy.logical_not", "numpy.invert")
def np_logical_not(it, args, kw):
    return A.ewise(lambda p: f_not(A.tf(p)), "b", *args)

@model("numpy.maximum")
def np_maximum(it, args, kw):
    k = kmax(A.as_kind(args[0]), A.as_kind(args[1]))
    return A.ewise(lambda p, q: T.mk_max(p, q), k, *args)

@model("numpy.minimum")
def np_minimum(it, args, kw):
    k = kmax(A.as_kind(args[0]), A.as_kind(args[1]))
    return A.ewise(lambda p, q: T.mk_min(p, q), k, *args)

UFUNCS = {"numpy." + n for n in ("multiply add subtract divide true_divide power floor_divide mod remainder negative square abs absolute sqrt exp sin cos "
          "log log10 log2 conj conjugate maximum minimum sign floor ceil round around logical_and logical_or logical_not sum mean dot matmul cumsum clip reciprocal").split()}

def ufunc_out(it, name, m, args, kw):
    """f(..., out=A, where=M): A holds the result where M is true and keeps its value elsewhere"""
    kw = dict(kw)
    out, where = kw.pop("out", None), kw.pop("where", True)
    if isinstance(out, tuple) and len(out) == 1:
        out = out[0]
    if where is True and out is None:
        return m(it, args, kw)
    if name == "numpy.sum":
        if out is not None or "axis" in kw or len(args) > 1:
            raise Unsupported("sum where=/out=")
        return np_sum(it, (A.where3(bool_arr(where), args[0], 0),), kw)
    if not isinstance(out, Arr):
        raise Unsupported("where= without out=")
    r = m(it, args, kw)
    if where is not True:
        r = A.where3(bool_arr(where) if not is_scalar(where) else where, r, out)
    rk, ok = (r.dt if isinstance(r, Arr) else kind(r)), out.dt
    if "bifc".index(rk) > "bifc".index(ok):
        raise PyExc("UFuncTypeError", ("cannot cast the result to the output",))
    if isinstance(r, Arr) and len(r.shape) > len(out.shape):
        raise PyExc("ValueError", ("non-broadcastable output",))
    A.setitem(out, Ellipsis if not out.shape else SliceV(None, None, None), A.copy(r) if isinstance(r, Arr) else r)
    return out

# --------------------------------------------------------------------- reductions
def _axis(kw, args, i=1):
    return kw.get("axis", args[i] if len(args) > i else None)

@model("numpy.sum")
def np_sum(it, args, kw):
    if isinstance(args[0], PList) and args[0].items is None:
        return py_sum(it, args, {})
    return A.reduce_sum(_asnp_arr(args[0]), _axis(kw, args), keepdims=bool(kw.get("keepdims", False)))

def _asnp_arr(v):
    if isinstance(v, (PList, tuple)):
        return A.array_of(v)
    return v

@model("numpy.any")
def np_any(it, args, kw):
    return A.reduce_any(_asnp_arr(args[0]), _axis(kw, args), "exists")

@model("numpy.all")
def np_all(it, args, kw):
    return A.reduce_any(_asnp_arr(args[0]), _axis(kw, args), "forall")

def size_of(a):
    if isinstance(a, Sel):
        return A.sel_count(a)
    return A.prod(a.shape)

@model("numpy.mean")
def np_mean(it, args, kw):
    a = _asnp_arr(args[0])
    ax = _axis(kw, args)
    if isinstance(a, Sel):
        s = A.reduce_sum(a)
        return Num(poly(s) * T.inv(size_of(a)), KF(a.dt), True)
    s = A.reduce_sum(a, ax)
    n = A.prod([a.shape[j] for j in A.norm_axis(ax, len(a.shape))])
    if is_scalar(s):
        return Num(poly(s) * T.inv(n), KF(a.dt), True)
    return binop("/", s, num(n, "i", True))

@model("numpy.average")
def np_average(it, args, kw):
    if len(args) == 1 and set(kw) <= {"axis"}:
        return np_mean(it, args, kw)
    a = _args(args, kw, ["a", "axis", "weights"], {"axis": None, "weights": None})
    x = A.as_arr(_asnp_arr(a["a"]))
    if a["weights"] is None:
        return np_mean(it, (x, a["axis"]), {})
    w = A.as_arr(_asnp_arr(a["weights"]))
    if a["axis"] is not None or len(w.shape) != len(x.shape):
        raise Unsupported("weighted average along an axis")
    return binop("/", A.reduce_sum(binop("*", x, w)), _asnp(A.reduce_sum(w)))

def lam_of(a):
    syms = [T.fresh("e") for _ in a.shape]
    f = a.fn()
    c = ctx()
    mark = c.facts.mark()
    try:
        for s, d in zip(syms, a.shape):
            c.facts.push(f_ge(s))
            c.facts.push(f_gt(d - s))
        body = f(tuple(syms))
    finally:
        c.facts.pop(mark)
    return T.mk_lam(syms, body if isinstance(body, Poly) else iv(body))

def _extreme(name):
    def g(it, args, kw):
        a = _asnp_arr(args[0])
        ax = _axis(kw, args)
        if isinstance(a, Sel):
            raise Unsupported(f"{name} of a selection")
        a = A.as_arr(a)
        if "initial" in kw and ax is None and set(kw) <= {"initial", "axis"}:
            init = kw["initial"]
            if not it.decide(f_gt(A.prod(a.shape))):
                return _asnp(init)
            m = MODELS["numpy." + name](it, (a,), {})
            return num((T.mk_max if name == "max" else T.mk_min)(poly(m), poly(init)), kmax(kmax(kind(m), kind(init)), "i"), True)
        if "initial" in kw or "where" in kw:
            raise Unsupported(f"{name} keywords")
        axs = A.norm_axis(ax, len(a.shape))
        f = A.tofn(a)
        keep = [j for j in range(len(a.shape)) if j not in axs]
        dims = [a.shape[j] for j in axs]
        for d in dims:
            if it.decide(f_eq(d, 0)):
                raise PyExc("ValueError", ("zero-size array",))
        def fn(idx):
            def full(s):
                out = [None] * len(a.shape)
                for v, j in zip(s, axs):
                    out[j] = v
                for v, j in zip(idx, keep):
                    out[j] = v
                return f(tuple(out))
            if a.dt != "c" and all(d.is_int_const() and d.const()[0] <= 4 for d in dims) and len(dims) == 1:
                r = full((P(0),))
                for i in range(1, dims[0].const()[0]):
                    r = (T.mk_max if name == "max" else T.mk_min)(r, full((P(i),)))
                return r
            syms = [T.fresh("e") for _ in dims]
            return T.app("arr" + name, tuple(dims), SORT[a.dt], (T.mk_lam(syms, full(tuple(syms))),))
        k = "i" if a.dt == "b" else a.dt
        if not keep:
            return num(fn(()), k, True)
        return new_arr([a.shape[j] for j in keep], k, fn)
    return g

MODELS["numpy.max"] = MODELS["numpy.amax"] = _extreme("max")
MODELS["numpy.min"] = MODELS["numpy.amin"] = _extreme("min")

@model("numpy.ptp")
def np_ptp(it, args, kw):
    return binop("-", MODELS["numpy.max"](it, args, kw), MODELS["numpy.min"](it, args, kw))

def _argext(name):
    def g(it, args, kw):
        a = A.as_arr(_asnp_arr(args[0]))
        if len(a.shape) != 1 or _axis(kw, args) not in (None, 0, -1):
            raise Unsupported(name)
        if a.dt == "c":
            raise Unsupported("ordering of complex values")
        if it.decide(f_eq(a.shape[0], 0)):
            raise PyExc("ValueError", ("empty",))
        return num(T.app(name, (a.shape[0],), "I", (lam_of(a),)), "i", True)
    return g
MODELS["numpy.argmin"] = _argext("argmin")
MODELS["numpy.argmax"] = _argext("argmax")

def _arg_ax(a):
    n = a.data[1][0]
    return [f_ge(P(a)), f_gt(n - P(a))]

def solve_scaled(p, va):
    """p = c*va + d with c a non-zero monomial: (c, -d/c)"""
    c, d = {}, {}
    for m, k in p.d.items():
        if any(a is va and e == 1 for a, e in m) and not any(va in a.fv for a, e in m if a is not va):
            c[tuple(x for x in m if x[0] is not va)] = k
        elif any(va in a.fv for a, _ in m):
            return None
        else:
            d[m] = k
    if len(c) != 1:
        return None
    (m, k), = c.items()
    for a, e in m:
        # known non-zero: pi, and anything occurring as a denominator
        if not (a is T.PI_ATOM or e < 0 or a.kind == "inv"):
            return None
    c = Poly({m: k})
    return c, -T.div(Poly(d), c)

def _argmin_ax(a):
    """value at the minimiser is not above the value at a zero of |c*(x-w)|; such a zero is the unique minimiser"""
    n, = a.data[1]
    out = list(_arg_ax(a))
    x = T.fresh("x")
    body = T.app_lam(a.data[2][0], (x,))
    if len(body.d) == 1:
        (m, k), = body.d.items()
        ab = [b for b, e in m if b.kind == "abs" and e == 1]
        if len(ab) == 1 and k[1] == 0 and k[0] > 0 and all(b is ab[0] or (T.the_sym(x) not in b.fv and (b is T.PI_ATOM)) for b, e in m):
            r = solve_scaled(ab[0].data[0], T.the_sym(x))
            if r is not None and r[1].sort == "I":
                w = r[1]
                out.append(T.f_or(f_gt(-w), f_ge(w - n), f_eq(P(a), w)))
            elif r is not None and r[1].sort != "C":
                # the whole number nearest to w (at most half a step away), if w is not beyond the ends
                w, h = r[1], P(Fraction(1, 2))
                out.append(T.f_or(f_gt(-w - h), f_gt(w + h - n), f_and(f_ge(h - P(a) + w), f_ge(h - w + P(a)))))
    return out
SV.AXIOMS["argmin"] = _argmin_ax
SV.AXIOMS["argmax"] = _arg_ax

@model("numpy.trace")
def np_trace(it, args, kw):
    a = args[0]
    f = A.tofn(a)
    n = T.mk_min(a.shape[0], a.shape[1]) if a.shape[0] != a.shape[1] else a.shape[0]
    s = T.fresh("s")
    return num(T.Sum0(s, n, f((s, s))), a.dt, True)

@model("numpy.diag", "numpy.diagonal")
def np_diag(it, args, kw):
    a = args[0]
    f = A.tofn(a)
    if len(a.shape) == 2:
        if a.shape[0] != a.shape[1]:
            raise Unsupported("diag")
        return new_arr((a.shape[0],), a.dt, lambda i: f((i[0], i[0])))
    return new_arr((a.shape[0], a.shape[0]), a.dt, lambda i: iv(f_eq(i[0], i[1])) * f((i[0],)))

@model("numpy.prod")
def np_prod(it, args, kw):
    a = A.as_arr(_asnp_arr(args[0]))
    if set(kw) - {"axis"} or len(args) > 2:
        raise Unsupported("prod keywords")
    axs = A.norm_axis(_axis(kw, args), len(a.shape))
    if not all(a.shape[j].is_int_const() and 0 <= a.shape[j].const()[0] <= 16 for j in axs):
        raise Unsupported("product of a symbolic number of factors")
    import itertools
    f = A.tofn(a)
    keep = [j for j in range(len(a.shape)) if j not in axs]

    def fn(i):
        r = P(1)
        for s in itertools.product(*[range(a.shape[j].const()[0]) for j in axs]):
            ix = dict(zip(axs, map(P, s)))
            ix.update(zip(keep, i))
            r = r * f(tuple(ix[j] for j in range(len(a.shape))))
        return r
    k = KS(a.dt)
    if not keep:
        return num(fn(()), k, True)
    return new_arr([a.shape[j] for j in keep], k, fn)

@model("numpy.cumsum")
def np_cumsum(it, args, kw):
    a = A.as_arr(_asnp_arr(args[0]))
    if len(a.shape) != 1:
        raise Unsupported("cumsum")
    f = A.tofn(a)
    def fn(idx):
        s = T.fresh("s")
        return T.Sum0(s, idx[0] + 1, f((s,)))
    return new_arr(a.shape, KS(a.dt), fn)

@model("numpy.dot", "numpy.matmul")
def np_dot(it, args, kw):
    a, b = _asnp_arr(args[0]), _asnp_arr(args[1])
    if is_scalar(a) or is_scalar(b):
        return binop("*", a, b)
    return A.matmul(a, b)

@model("numpy.vdot")
def np_vdot(it, args, kw):
    a, b = A.as_arr(args[0]), A.as_arr(args[1])
    if len(a.shape) != 1 or len(b.shape) != 1:
        raise Unsupported("vdot")
    return A.matmul(A.ufunc(T.conj, a, KS), b)

@model("numpy.inner")
def np_inner(it, args, kw):
    a, b = A.as_arr(args[0]), A.as_arr(args[1])
    if len(b.shape) == 2:
        b = A.transpose(b)
    return A.matmul(a, b)

@model("numpy.outer")
def np_outer(it, args, kw):
    return A.outer(args[0], args[1])

@model("numpy.einsum")
def np_einsum(it, args, kw):
    spec = args[0]
    if kw or not isinstance(spec, str) or "." in spec:
        raise Unsupported("einsum")
    spec = spec.replace(" ", "")
    ins, arrow, out = spec.partition("->")
    ins = ins.split(",")
    ops = [A.as_arr(x) for x in args[1:]]
    if not arrow:
        letters = "".join(ins)
        out = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != len(o.shape):
            raise PyExc("ValueError", ("einsum",))
        for c, d in zip(s, o.shape):
            if c in dims and dims[c] != d and not A.dim_is(dims[c], d):
                raise PyExc("ValueError", ("einsum",))
            dims.setdefault(c, d)
    k = "b"
    for o in ops:
        k = kmax(k, o.dt)
    fs = [A.tofn(o) for o in ops]
    summed = [c for c in dims if c not in out]
    def fn(idx):
        env = dict(zip(out, idx))
        syms = {c: T.fresh("s") for c in summed}
        env.update(syms)
        r = P(1)
        for s, f in zip(ins, fs):
            r = r * f(tuple(env[c] for c in s))
        for c in reversed(summed):
            r = T.Sum0(syms[c], dims[c], r)
        return r
    if not out:
        return num(fn(()), k, True)
    return new_arr([dims[c] for c in out], k, fn)

@model("numpy.tensordot")
def np_tensordot(it, args, kw):
    a = _args(args, kw, ["a", "b", "axes"], {"axes": 2})
    x, y = A.as_arr(a["a"]), A.as_arr(a["b"])
    ax = a["axes"]
    if type(ax) is int:
        xs, ys = list(range(len(x.shape) - ax, len(x.shape))), list(range(ax))
    else:
        l, r = (ax.items if isinstance(ax, PList) else ax)
        tl = lambda v: [v] if type(v) is int else list(v.items if isinstance(v, PList) else v)
        xs, ys = [i % len(x.shape) for i in tl(l)], [i % len(y.shape) for i in tl(r)]
    for i, j in zip(xs, ys):
        if x.shape[i] != y.shape[j] and not A.dim_is(x.shape[i], y.shape[j]):
            raise PyExc("ValueError", ("shape-mismatch for sum",))
    fx, fy = A.tofn(x), A.tofn(y)
    kx = [i for i in range(len(x.shape)) if i not in xs]
    ky = [i for i in range(len(y.shape)) if i not in ys]
    def fn(idx):
        syms = [T.fresh("s") for _ in xs]
        ix, iy = [None] * len(x.shape), [None] * len(y.shape)
        for v, i, j in zip(syms, xs, ys):
            ix[i], iy[j] = v, v
        for v, i in zip(idx, kx):
            ix[i] = v
        for v, j in zip(idx[len(kx):], ky):
            iy[j] = v
        r = fx(tuple(ix)) * fy(tuple(iy))
        for v, i in reversed(list(zip(syms, xs))):
            r = T.Sum0(v, x.shape[i], r)
        return r
    sh = [x.shape[i] for i in kx] + [y.shape[j] for j in ky]
    k = kmax(x.dt, y.dt)
    return new_arr(sh, k, fn) if sh else num(fn(()), k, True)

# ------------------------------------------------------------------- rearrangement
@model("numpy.where")
def np_where(it, args, kw):
    if len(args) == 3:
        return A.where3(*[_asnp_arr(x) for x in args])
    return np_nonzero(it, args, kw)

def bool_arr(a):
    a = A.as_arr(_asnp_arr(a))
    if a.dt == "b":
        return a
    f = a.fn()
    return new_arr(a.shape, "b", lambda i: f_not(f_eq(f(i), 0)))

@model("numpy.nonzero")
def np_nonzero(it, args, kw):
    m = bool_arr(args[0])
    mf, key = A.mask_sel(m)
    return A.TupleIdx([Sel(m.shape, mf, (lambda i, j=j: i[j]), "i", key) for j in range(len(m.shape))])

@model("numpy.flatnonzero")
def np_flatnonzero(it, args, kw):
    r = np_nonzero(it, args, kw)
    if len(r) != 1:
        raise Unsupported("flatnonzero")
    return r[0]

@model("numpy.argwhere")
def np_argwhere(it, args, kw):
    r = np_nonzero(it, args, kw)
    if len(r) != 1:
        return ArgW(None, bool_arr(args[0]))
    return ArgW(r[0])

@model("numpy.count_nonzero")
def np_count_nonzero(it, args, kw):
    return A.reduce_sum(bool_arr(args[0]), _axis(kw, args))

@model("numpy.isin")
def np_isin(it, args, kw):
    a, t = A.as_arr(_asnp_arr(args[0])), args[1]
    f = A.tofn(a)
    if isinstance(t, ArgW):
        t = t.sel
    if isinstance(t, Sel):
        if len(t.dom) == 1:
            v = T.fresh("w")
            if t.fn((v,)) == v:
                n = t.dom[0]
                return new_arr(a.shape, "b", lambda i: (lambda x: f_and(f_ge(x), f_gt(n - x), t.pred((x,))))(f(i)))
        def fn(i):
            x = f(i)
            return A.quant_formula("exists", t.dom, lambda q: f_and(t.pred(q), f_eq(t.fn(q), x)))
        return new_arr(a.shape, "b", fn)
    t = A.as_arr(_asnp_arr(t))
    g = A.tofn(t)
    return new_arr(a.shape, "b", lambda i: (lambda x: A.quant_formula("exists", t.shape, lambda q: f_eq(g(q), x)))(f(i)))

@model("numpy.triu_indices")
def np_triu_indices(it, args, kw):
    a = _args(args, kw, ["n", "k", "m"], {"k": 0, "m": None})
    n = as_int(a["n"])
    k = as_int(a["k"])
    m = n if a["m"] is None else as_int(a["m"])
    pred = lambda i: f_ge(i[1] - i[0] - k)
    key = ("triu", n, k) if m == n else ("triu", n, k, m)
    return A.TupleIdx([Sel((n, m), pred, (lambda i, j=j: i[j]), "i", key) for j in range(2)])

@model("numpy.tril_indices")
def np_tril_indices(it, args, kw):
    a = _args(args, kw, ["n", "k", "m"], {"k": 0, "m": None})
    n = as_int(a["n"])
    k = as_int(a["k"])
    m = n if a["m"] is None else as_int(a["m"])
    pred = lambda i: f_ge(i[0] + k - i[1])
    key = ("tril", n, k) if m == n else ("tril", n, k, m)
    return A.TupleIdx([Sel((n, m), pred, (lambda i, j=j: i[j]), "i", key) for j in range(2)])

def _tri(sgn):
    def g(it, args, kw):
        a = _args(args, kw, ["m", "k"], {"k": 0})
        x, k = a["m"], as_int(a["k"])
        f = A.tofn(x)
        if sgn > 0:
            return new_arr(x.shape, x.dt, lambda i: iv(f_ge(i[1] - i[0] - k)) * f(i))
        return new_arr(x.shape, x.dt, lambda i: iv(f_ge(i[0] + k - i[1])) * f(i))
    return g
MODELS["numpy.triu"] = _tri(1)
MODELS["numpy.tril"] = _tri(-1)

@model("numpy.hstack")
def np_hstack(it, args, kw):
    v = args[0]
    if isinstance(v, PList) and v.items is None:
        return np_concatenate(it, args, kw)
    items = [A.as_arr(_asnp_arr(x)) for x in (v.items if isinstance(v, PList) else v)]
    return A.concatenate(items, 0 if len(items[0].shape) == 1 else 1)

@model("numpy.column_stack")
def np_column_stack(it, args, kw):
    v = args[0]
    items = [A.as_arr(_asnp_arr(x)) for x in (v.items if isinstance(v, PList) else v)]
    items = [A.getitem(x, (SliceV(None, None, None), None)) if len(x.shape) == 1 else x for x in items]
    return A.concatenate(items, 1)

@model("numpy.concatenate")
def np_concatenate(it, args, kw):
    v = args[0]
    items = list(v.items) if isinstance(v, PList) and v.items is not None else list(v) if isinstance(v, tuple) else None
    if items is None and isinstance(v, PList) and v.fn is not None and _axis(kw, args) in (None, 0):
        return A.ragged(v.n, v.fn)
    if items is None:
        raise Unsupported("concatenation of a symbolic list")
    if any(isinstance(x, Sel) for x in items):
        raise Unsupported("concatenation of selections")
    ax = _axis(kw, args)
    return A.concatenate([_asnp_arr(x) for x in items], 0 if ax is None else ax)

@model("numpy.vstack")
def np_vstack(it, args, kw):
    v = args[0]
    items = [A.as_arr(_asnp_arr(x)) for x in (v.items if isinstance(v, PList) else v)]
    items = [A.getitem(x, None) if len(x.shape) == 1 else x for x in items]
    return A.concatenate(items, 0)

@model("numpy.append")
def np_append(it, args, kw):
    a = _args(args, kw, ["arr", "values", "axis"], {"axis": None})
    x, y = A.as_arr(_asnp_arr(a["arr"])), A.as_arr(_asnp_arr(a["values"]))
    if a["axis"] is None:
        fl = lambda z: A.reshape(z, (-1,)) if len(z.shape) != 1 else z
        return A.concatenate([fl(x), fl(y)], 0)
    return A.concatenate([x, y], a["axis"])

@model("numpy.stack")
def np_stack(it, args, kw):
    v = args[0]
    ax = _axis(kw, args)
    r = A.array_of(v)
    if ax in (None, 0):
        return r
    nd = len(r.shape)
    if not isinstance(ax, int) or not -nd <= ax < nd:
        raise Unsupported("stack axis")
    order = list(range(1, nd))
    order.insert(ax % nd, 0)
    return A.copy(A.transpose(r, order))

@model("numpy.insert")
def np_insert(it, args, kw):
    a = _args(args, kw, ["arr", "obj", "values", "axis"], {"axis": None})
    x = a["arr"]
    ax = a["axis"]
    if ax is None:
        if len(x.shape) != 1:
            raise Unsupported("flattening insert")
        ax = 0
    nd = len(x.shape)
    ax = A.norm_axis(ax, nd)[0]
    n = x.shape[ax]
    pos = as_int(a["obj"])
    if pos.is_int_const() and pos.const()[0] < 0:
        pos = n + pos
    if not it.decide(f_and(f_ge(pos), f_ge(n - pos))):
        raise PyExc("IndexError", ("insert",))
    vals = a["values"]
    rest = [d for j, d in enumerate(x.shape) if j != ax]
    v = A.as_arr(_asnp_arr(vals)) if not is_scalar(vals) else A.as_arr(vals)
    # a scalar position: values are the new slice
    if nd > 1 and len(v.shape) > len(rest):
        raise Unsupported("insert of several slices")
    sh, maps = A.bcast([tuple(rest), v.shape])
    if tuple(sh) != tuple(rest):
        raise PyExc("ValueError", ("insert broadcast",))
    xf, vf = A.tofn(x), A.tofn(v)
    k = x.dt
    def fn(idx):
        i = idx[ax]
        r = tuple(idx[:ax]) + tuple(idx[ax + 1:])
        at = lambda j: xf(tuple(idx[:ax]) + (j,) + tuple(idx[ax + 1:]))
        c = ctx().facts
        if c.entails(f_gt(pos - i)):
            return at(i)
        if c.entails(f_eq(i, pos)):
            return A.cast_store(vf(maps[1](r)), v.dt, k if k != "b" else "i", False)
        return ite(f_gt(pos - i), at(i), ite(f_eq(i, pos), A.cast_store(vf(maps[1](r)), v.dt, k if k != "b" else "i", False), at(i - 1)))
    shape = list(x.shape)
    shape[ax] = n + 1
    if k == "b" and v.dt == "b":
        def bfn(idx):
            i = idx[ax]
            at = lambda j: A.tf(xf(tuple(idx[:ax]) + (j,) + tuple(idx[ax + 1:])))
            w = A.tf(vf(maps[1](tuple(idx[:ax]) + tuple(idx[ax + 1:]))))
            c = ctx().facts
            if c.entails(f_gt(pos - i)):
                return at(i)
            if c.entails(f_eq(i, pos)):
                return w
            return f_or(f_and(f_gt(pos - i), at(i)), f_and(f_eq(i, pos), w), f_and(f_gt(i - pos), at(i - 1)))
        return new_arr(shape, "b", bfn)
    if k == "b":
        return new_arr(shape, "b", lambda idx: A.tf(fn(idx)))
    return new_arr(shape, k, fn)

@model("numpy.pad")
def np_pad(it, args, kw):
    a = _args(args, kw, ["array", "pad_width", "mode", "constant_values"], {"mode": "constant", "constant_values": 0})
    x = A.as_arr(_asnp_arr(a["array"]))
    if a["mode"] != "constant":
        raise Unsupported("pad mode")
    cv = a["constant_values"]
    if not is_scalar(cv):
        raise Unsupported("pad constants")
    pw = a["pad_width"]
    tl = lambda v: list(v.items) if isinstance(v, PList) else list(v) if isinstance(v, tuple) else [v]
    nd = len(x.shape)
    pl = tl(pw)
    if all(is_scalar(p) for p in pl):
        if len(pl) == 1:
            pl = [(pl[0], pl[0])] * nd
        elif len(pl) == 2:
            pl = [tuple(pl)] * nd
        else:
            raise PyExc("ValueError", ("pad_width",))
    else:
        pl = [tuple(tl(p)) for p in pl]
        pl = [p if len(p) == 2 else (p[0], p[0]) for p in pl]
        if len(pl) == 1:
            pl = pl * nd
        if len(pl) != nd:
            raise PyExc("ValueError", ("pad_width",))
    pl = [(as_int(p), as_int(q)) for p, q in pl]
    for p, q in pl:
        for z in (p, q):
            if not it.decide(f_ge(z)):
                raise PyExc("ValueError", ("index can't contain negative values",))
    f = A.tofn(x)
    k = kmax(x.dt, "b")
    c0 = A.cast_store(poly(cv), kind(cv), k if k != "b" else "i", True)
    def fn(idx):
        conds = []
        src = []
        for i, (p, q), n in zip(idx, pl, x.shape):
            if not p.is_zero():
                conds.append(f_ge(i - p))
            if not q.is_zero():
                conds.append(f_gt(n + p - i))
            src.append(i - p)
        return ite(f_and(*conds), f(tuple(src)), c0)
    sh = [n + p + q for (p, q), n in zip(pl, x.shape)]
    if x.dt == "b":
        return new_arr(sh, "b", lambda i: A.tf(fn(i)))
    return new_arr(sh, x.dt, fn)

@model("numpy.fromiter")
def np_fromiter(it, args, kw):
    a = _args(args, kw, ["iter", "dtype", "count"], {"count": -1})
    v = it.to_iter(a["iter"])
    if isinstance(v, IterV) and v.parallel:
        raise Unsupported("fromiter")
    r = A.array_of(PList(None, v.n, v.fn) if isinstance(v, IterV) else PList(list(v)))
    if a["count"] != -1 and not it.truth(compare("==", num(r.shape[0], "i"), a["count"])):
        raise Unsupported("fromiter with a count")
    if len(r.shape) != 1:
        raise PyExc("ValueError", ("setting an array element with a sequence",))
    return A.copy(r, dtype_kind(a["dtype"]))

@model("numpy.repeat")
def np_repeat(it, args, kw):
    a = _args(args, kw, ["a", "repeats", "axis"], {"axis": None})
    x = A.as_arr(_asnp_arr(a["a"]))
    if a["axis"] is not None and len(x.shape) > 1:
        j = A.norm_axis(a["axis"], len(x.shape))[0]
        ix = np_repeat(it, (new_arr((x.shape[j],), "i", lambda i: i[0]), a["repeats"]), {})
        return A.getitem(x, tuple([SliceV(None, None, None)] * j + [ix]))
    if len(x.shape) > 1:
        x = A.reshape(x, (-1,))
    f = x.fn()
    if is_scalar(a["repeats"]):
        c = as_int(a["repeats"])
        if not it.decide(f_gt(c)):
            raise Unsupported("repeat")
        return new_arr((x.shape[0] * c,), x.dt, lambda i: f((idiv(i[0], c),)))
    r = A.as_arr(a["repeats"])
    k = T.fresh("k")
    if len(r.shape) != 1 or not (r.shape[0] - x.shape[0]).is_zero() or r.dt != "i" or not (r.fn()((k,)) - (P(2) * k + 1)).is_zero():
        raise Unsupported("repeat")
    # element l appears 2l + 1 times
    return new_arr((x.shape[0] * x.shape[0],), x.dt, lambda i: f((find_isqrt(i[0]),)))

@model("numpy.tile")
def np_tile(it, args, kw):
    a = _args(args, kw, ["A", "reps"], {})
    x = A.as_arr(a["A"])
    reps = a["reps"]
    reps = tuple(reps.items) if isinstance(reps, PList) else reps if isinstance(reps, tuple) else (reps,)
    reps = [as_int(r) for r in reps]
    f = x.fn()
    if len(x.shape) == 1 and len(reps) == 2 and reps[1].is_int_const() and reps[1].const()[0] == 1:
        n = reps[0]
        if not (n.is_int_const() and n.const()[0] >= 0) and not it.decide(f_ge(n)):
            n = P(0)
        r = new_arr((n, x.shape[0]), x.dt, lambda i: f((i[1],)))
        return r
    nd = max(len(x.shape), len(reps))
    reps = [P(1)] * (nd - len(reps)) + reps
    pad = nd - len(x.shape)
    if any(not it.decide(f_ge(r)) for r in reps):
        raise Unsupported("tile")
    sh = [P(1)] * pad + list(x.shape)
    ix = lambda i, j: i[j] if A.is1(reps[j]) else imod(i[j], sh[j])
    return new_arr(tuple(s * r for s, r in zip(sh, reps)), x.dt, lambda i: f(tuple(ix(i, j) for j in range(pad, nd))))

@model("numpy.transpose")
def np_transpose(it, args, kw):
    return A.transpose(args[0], *[tuple(x.items) if isinstance(x, PList) else x for x in args[1:]])

@model("numpy.reshape")
def np_reshape(it, args, kw):
    s = args[1]
    s = tuple(s.items) if isinstance(s, PList) else s if isinstance(s, tuple) else (s,)
    return A.reshape(args[0], s)

@model("numpy.ravel")
def np_ravel(it, args, kw):
    return A.reshape(args[0], (-1,))

@model("numpy.expand_dims")
def np_expand_dims(it, args, kw):
    ax = _axis(kw, args)
    x = args[0]
    if ax == 0:
        return A.getitem(x, None)
    x = A.as_arr(_asnp_arr(x))
    ax = tuple(ax.items) if isinstance(ax, PList) else ax if isinstance(ax, tuple) else (ax,)
    n = len(x.shape) + len(ax)
    if not all(type(j) is int and -n <= j < n for j in ax) or len({j % n for j in ax}) != len(ax):
        raise Unsupported("expand_dims")
    ax = {j % n for j in ax}
    return A.getitem(x, tuple(None if j in ax else SliceV(None, None, None) for j in range(n)))

@model("numpy.squeeze")
def np_squeeze(it, args, kw):
    x = args[0]
    return A.getitem(x, tuple(0 if A.is1(d) else SliceV(None, None, None) for d in x.shape))

@model("numpy.broadcast_to")
def np_broadcast_to(it, args, kw):
    x = A.as_arr(args[0])
    sh = shape_of(args[1])
    s2, maps = A.bcast([x.shape, sh])
    if tuple(s2) != tuple(sh):
        raise PyExc("ValueError", ("broadcast",))
    f = x.fn()
    return new_arr(sh, x.dt, lambda i: f(maps[0](i)))

@model("numpy.diff")
def np_diff(it, args, kw):
    a = A.as_arr(_asnp_arr(args[0]))
    if len(a.shape) != 1 or len(args) > 1 or kw:
        raise Unsupported("diff")
    f = A.tofn(a)
    n = a.shape[0] - 1
    if not (n.is_int_const() and n.const()[0] >= 0) and not it.decide(f_ge(n)):
        n = P(0)
    return new_arr((n,), a.dt if a.dt != "b" else "i", lambda i: f((i[0] + 1,)) - f((i[0],)))

@model("numpy.ediff1d")
def np_ediff1d(it, args, kw):
    a = A.as_arr(_asnp_arr(args[0]))
    if len(a.shape) != 1:
        raise Unsupported("ediff1d")
    return np_diff(it, (a,), {})

def flip1(a, axis=0):
    f = a.fn()
    n = a.shape[axis]
    return new_arr(a.shape, a.dt, lambda i: f(tuple(n - 1 - x if j == axis else x for j, x in enumerate(i))))

@model("numpy.flip")
def np_flip(it, args, kw):
    a = args[0]
    ax = _axis(kw, args)
    r = a
    for j in (A.norm_axis(ax, len(a.shape)) if ax is not None else range(len(a.shape))):
        r = flip1(r, j)
    return r

@model("numpy.flipud")
def np_flipud(it, args, kw):
    return flip1(args[0], 0)

# sorting: an opaque permutation with its axioms
def argsort_app(a, k):
    return T.app("argsort", (k, a.shape[0]), "I", (lam_of(a),))

@model("numpy.take")
def np_take(it, args, kw):
    a = _args(args, kw, ["a", "indices", "axis"], {"axis": None})
    x = A.as_arr(_asnp_arr(a["a"]))
    ax = a["axis"]
    if ax is None and len(x.shape) != 1:
        raise Unsupported("take from a flattened array")
    j = 0 if ax is None else A.norm_axis(ax, len(x.shape))[0]
    return A.getitem(x, tuple([SliceV(None, None, None)] * j + [a["indices"]]))

@model("numpy.argsort")
def np_argsort(it, args, kw):
    a = A.as_arr(_asnp_arr(args[0]))
    if len(a.shape) != 1 or a.dt == "c":
        raise Unsupported("argsort")
    if set(kw) - {"kind", "stable", "axis"} or len(args) > 1:
        raise Unsupported("argsort options")
    lam = lam_of(a)
    n = a.shape[0]
    r = new_arr((n,), "i", lambda i: T.app("argsort", (i[0], n), "I", (lam,)))
    return r

def _argsort_ax(a):
    k, n = a.data[1]
    r = P(a)
    return [f_or(f_gt(-k), f_ge(k - n), f_and(f_ge(r), f_gt(n - r)))]
SV.AXIOMS["argsort"] = _argsort_ax

@model("numpy.sort")
def np_sort(it, args, kw):
    a = A.as_arr(_asnp_arr(args[0]))
    if len(a.shape) != 1 or a.dt == "c" or kw:
        raise Unsupported("sort")
    lam = lam_of(a)
    n = a.shape[0]
    return new_arr((n,), a.dt, lambda i: T.app("sorted", (i[0], n), SORT[a.dt], (lam,)))

@model("numpy.unique")
def np_unique(it, args, kw):
    raise Unsupported("unique")

@model("numpy.array_equal")
def np_array_equal(it, args, kw):
    a, b = A.as_arr(_asnp_arr(args[0])), A.as_arr(_asnp_arr(args[1]))
    if len(a.shape) != len(b.shape):
        return False
    f, g = A.tofn(a), A.tofn(b)
    for x, y in zip(a.shape, b.shape):
        if x != y and not it.decide(f_eq(x, y)):
            return False
    return mkbool(A.quant_formula("forall", a.shape, lambda i: f_eq(f(i), g(i))))

@model("numpy.isclose")
def np_isclose(it, args, kw):
    a = _args(args, kw, ["a", "b", "rtol", "atol"], {"rtol": Num(P(Fraction(1, 10 ** 5)), "f"), "atol": Num(P(Fraction(1, 10 ** 8)), "f")})
    rt, at = poly(a["rtol"]), poly(a["atol"])
    def f(x, y):
        return f_ge(at + rt * T.mk_abs(y) - T.mk_abs(x - y))
    if is_scalar(a["a"]) and is_scalar(a["b"]):
        return mkbool(f(poly(a["a"]), poly(a["b"])))
    return A.ewise(f, "b", a["a"], a["b"])

@model("numpy.allclose")
def np_allclose(it, args, kw):
    r = np_isclose(it, args, kw)
    return r if is_scalar(r) else A.reduce_any(r, None, "forall")

@model("numpy.iscomplexobj")
def np_iscomplexobj(it, args, kw):
    return A.as_kind(args[0]) == "c"

@model("numpy.isnan", "numpy.isinf")
def np_isnan(it, args, kw):
    it.assumptions.add("arrays contain no NaN or infinity")
    if is_scalar(args[0]):
        return False
    return new_arr(A.as_arr(args[0]).shape, "b", lambda i: FALSE)

@model("numpy.isfinite")
def np_isfinite(it, args, kw):
    it.assumptions.add("arrays contain no NaN or infinity")
    if is_scalar(args[0]):
        return True
    return new_arr(A.as_arr(args[0]).shape, "b", lambda i: TRUE)

@model("numpy.copy")
def np_copy(it, args, kw):
    return A.copy(args[0])

@model("numpy.copyto")
def np_copyto(it, args, kw):
    a = _args(args, kw, ["dst", "src", "casting", "where"], {"casting": None, "where": True})
    v = a["src"]
    if a["where"] is not True:
        v = A.where3(bool_arr(a["where"]), _asnp_arr(v), a["dst"])
    A.setitem(a["dst"], SliceV(None, None, None), v)

@model("numpy.size")
def np_size(it, args, kw):
    return num(size_of(A.as_arr(_asnp_arr(args[0]))), "i")

@model("numpy.shape")
def np_shape(it, args, kw):
    return tuple(num(d, "i") for d in A.as_arr(_asnp_arr(args[0])).shape)

@model("numpy.ndim")
def np_ndim(it, args, kw):
    return len(A.as_arr(_asnp_arr(args[0])).shape)

@model("numpy.finfo")
def np_finfo(it, args, kw):
    return Obj("opaque", {"eps": Num(P(Fraction(1, 2 ** 52)), "f"), "tiny": Num(P(Fraction(1, 2 ** 1022)), "f")})

@model("numpy.meshgrid")
def np_meshgrid(it, args, kw):
    ind = kw.get("indexing", "xy")
    if set(kw) - {"indexing", "copy"}:
        raise Unsupported("meshgrid keywords")
    if len(args) == 1:
        return PList([A.copy(A.as_arr(_asnp_arr(args[0])))])
    if len(args) != 2:
        raise Unsupported("meshgrid")
    x, y = A.as_arr(args[0]), A.as_arr(args[1])
    fx, fy = A.tofn(x), A.tofn(y)
    if ind == "xy":
        sh = (y.shape[0], x.shape[0])
        return PList([new_arr(sh, x.dt, lambda i: fx((i[1],))), new_arr(sh, y.dt, lambda i: fy((i[0],)))])
    sh = (x.shape[0], y.shape[0])
    return PList([new_arr(sh, x.dt, lambda i: fx((i[0],))), new_arr(sh, y.dt, lambda i: fy((i[1],)))])

def _scalar_type(name, k):
    def g(it, args, kw):
        if not args:
            return num(P(0), k, True)
        v = args[0]
        if is_scalar(v):
            p = poly(v)
            if k == "i":
                p = trunc_poly(p) if kind(v) == "f" else p
            if k == "b":
                return mkbool(formula(v))
            if k == "f" and kind(v) == "c":
                p = T.real_part(p)
            return Num(p, k, True)
        return A.copy(A.as_arr(_asnp_arr(v)), k)
    MODELS["numpy." + name] = g
for n_ in ("float64", "complex128", "int64", "int_", "bool_"):
    _scalar_type(n_, DK[n_])

@model("numpy.dtype")
def np_dtype(it, args, kw):
    return DType(dtype_kind(args[0]))

# linear algebra -----------------------------------------------------------------
@model("numpy.linalg.norm")
def la_norm(it, args, kw):
    a = A.as_arr(args[0])
    ax = _axis(kw, args, 2)
    f = A.tofn(a)
    sq = new_arr(a.shape, "f", lambda i: (lambda z: z * T.conj(z))(f(i)))
    s = A.reduce_sum(sq, ax, keepdims=bool(kw.get("keepdims", False)))
    if len(args) > 1 and args[1] is not None and args[1] != 2:
        raise Unsupported("norm order")
    if is_scalar(s):
        return Num(T.mk_sqrt(poly(s), lambda q: True), "f", True)
    return A.ufunc(lambda p: T.mk_sqrt(p, lambda q: True), s, KF)

EIGH_DOC = ("numpy.linalg.eigh(A) of a Hermitian A: real eigenvalues in ascending order and an orthonormal set of eigenvectors in the columns "
            "(A v_k = w_k v_k), both functions of the matrix (its lower triangle)")

def eigh_parts(a):
    """(w, v) with the matrix recorded through its lower triangle"""
    n = a.shape[0]
    f = A.tofn(a)
    i, j = T.fresh("i"), T.fresh("j")
    c = ctx()
    mark = c.facts.mark()
    for s in (i, j):
        c.facts.push(f_ge(s))
        c.facts.push(f_gt(n - s))
    c.facts.push(f_ge(i - j))
    try:
        body = f((i, j))
        body = c.prover.simp(body)
    finally:
        c.facts.pop(mark)
    lam = T.mk_lam([i, j], iv(f_ge(i - j)) * body)
    vk = "c" if a.dt == "c" else "f"
    w = new_arr((n,), "f", lambda x: T.app("eigh_w", (x[0], n), "R", (lam,)))
    v = new_arr((n, n), vk, lambda x: T.app("eigh_v", (x[0], x[1], n), SORT[vk], (lam,)))
    return w, v

@model("numpy.linalg.eigh", trust=EIGH_DOC)
def la_eigh(it, args, kw):
    if kw or len(args) != 1:
        raise Unsupported("eigh options")
    a = A.as_arr(args[0])
    if len(a.shape) != 2 or not (a.shape[0] == a.shape[1] or it.decide(f_eq(a.shape[0], a.shape[1]))):
        raise PyExc("LinAlgError", ())
    h = it.extra_models.get("hook:eigh")
    if h:
        h(it, a)
    w, v = eigh_parts(a)
    return (w, v)

@model("scipy.sparse.linalg.eigsh", trust="scipy.sparse.linalg.eigsh returns k real eigenvalues and an (n, k) array of eigenvectors, functions of its arguments")
def sp_eigsh(it, args, kw):
    a = args[0]
    k = as_int(kw["k"] if "k" in kw else args[1])
    n = a.shape[0] if isinstance(a, Arr) else P(a.f["n"])
    ident = T.app("sparse", (P(a.ident if isinstance(a, Obj) else 0),), "R")
    lam = lam_of(a) if isinstance(a, Arr) else a.f["lam"]
    w = new_arr((k,), "f", lambda x: T.app("eigsh_w", (x[0], k, n), "R", (lam,)))
    v = new_arr((n, k), "f", lambda x: T.app("eigsh_v", (x[0], x[1], k, n), "R", (lam,)))
    return (w, v)

# --------------------------------------------------------------- random numbers
@model("numpy.random.default_rng", trust="a seeded generator yields a sequence of draws determined by the seed alone")
def rng_new(it, args, kw):
    seed = args[0] if args else kw.get("seed")
    if seed is None:
        T_ = T.fresh("entropy")
        sp = T_
    else:
        sp = poly(seed)
    return Obj("rng", {"seed": sp, "count": 0})

def rng_method(it, o, name):
    from .interp import Native
    if name == "standard_normal":
        def g(it, args, kw):
            if args or kw:
                size = args[0] if args else kw.get("size")
                if size is None or not is_scalar(size):
                    raise Unsupported("vector draws")
                c0 = poly(o.f["count"])
                n = as_int(size)
                it.set_field(o, "count", num(c0 + n, "i"))
                sd = o.f["seed"]
                return new_arr((n,), "f", lambda i: T.app("randn", (sd, c0 + i[0]), "R"))
            c = poly(o.f["count"])
            it.set_field(o, "count", num(c + 1, "i"))
            return Num(T.app("randn", (o.f["seed"], c), "R"), "f", True)
        return Native(g, name)
    raise Unsupported(f"rng.{name}")

# ---------------------------------------------------------------------- pyssht
SSHT_DOC = ("pyssht with MWSS sampling: sample_positions/sample_shape give theta_t = t pi/L (t=0..L), phi_p = p pi/L (p=0..2L-1); elm2ind(l,m)=l^2+l+m and ind2elm "
            "its inverse; inverse(flm)[t,p] = sum_q flm[q] sY_q(theta_t, phi_p) and forward is the linear quadrature exact on band-limited fields; "
            "rotate_flms multiplies by exp(-i m alpha) d^l_mn(beta) exp(-i n gamma); gaussian_smoothing multiplies by exp(-l^2 sigma^2); "
            "create_ylm(theta, phi, L)[q] = Y_q(theta, phi)")

def _ssht(name):
    return model("pyssht." + name, trust=SSHT_DOC)

@_ssht("elm2ind")
def ssht_elm2ind(it, args, kw):
    a = _args(args, kw, ["el", "m"])
    if is_scalar(a["el"]) and is_scalar(a["m"]):
        el, m = as_int(a["el"]), as_int(a["m"])
        return num(el * el + el + m, "i")
    return binop("+", binop("+", binop("*", a["el"], a["el"]), a["el"]), a["m"])

@_ssht("ind2elm")
def ssht_ind2elm(it, args, kw):
    q = as_int(args[0])
    r = find_isqrt(q)
    return (num(r, "i"), num(q - r * r - r, "i"))

def find_isqrt(q):
    """isqrt(q), folded when q is visibly l^2+l+m with |m|<=l under the facts"""
    if q.is_int_const():
        return SV.isqrt(q)
    l = ctx().prover.fold_isqrt(q)
    if l is not None:
        return l
    return SV.isqrt(q)

def _method(kw, args, names):
    m = kw.get("Method", "MW")
    if m not in ("MW", "MWSS", "mw", "mwss"):
        raise Unsupported("sampling method")
    return m.upper()

def sample_shape(L, method):
    if method == "MWSS":
        return (L + 1, L * 2)
    return (L, L * 2 - 1)

def theta_at(t, L, method):
    if method == "MWSS":
        return t * T.PI_ * T.inv(L)
    return (t * 2 + 1) * T.PI_ * T.inv(L * 2 - 1)

def phi_at(p, L, method):
    if method == "MWSS":
        return p * T.PI_ * T.inv(L)
    return p * 2 * T.PI_ * T.inv(L * 2 - 1)

@_ssht("sample_shape")
def ssht_sample_shape(it, args, kw):
    a = _args(args, kw, ["L", "Method"], {"Method": "MW"})
    sh = sample_shape(as_int(a["L"]), a["Method"].upper())
    return tuple(num(d, "i") for d in sh)

@_ssht("sample_positions")
def ssht_sample_positions(it, args, kw):
    a = _args(args, kw, ["L", "Method", "Grid"], {"Method": "MW", "Grid": False})
    L = as_int(a["L"])
    me = a["Method"].upper()
    nt, nph = sample_shape(L, me)
    if a["Grid"]:
        return (new_arr((nt, nph), "f", lambda i: theta_at(i[0], L, me)), new_arr((nt, nph), "f", lambda i: phi_at(i[1], L, me)))
    return (new_arr((nt,), "f", lambda i: theta_at(i[0], L, me)), new_arr((nph,), "f", lambda i: phi_at(i[0], L, me)))

def ylm(q, th, ph, spin=0):
    spin = P(spin)
    if spin.is_zero():
        return T.app("Ylm", (q, th, ph), "C")
    return T.app("sYlm", (spin, q, th, ph), "C")

@_ssht("create_ylm")
def ssht_create_ylm(it, args, kw):
    a = _args(args, kw, ["theta", "phi", "L", "Spin", "recursion"], {"Spin": 0, "recursion": "Kostelec"})
    L = as_int(a["L"])
    th, ph = a["theta"], a["phi"]
    sp = as_int(a["Spin"])
    if is_scalar(th) and is_scalar(ph):
        t, p = poly(th), poly(ph)
        return new_arr((L * L, 1, 1), "c", lambda i: ylm(i[0], t, p, sp))
    th, ph = A.as_arr(th), A.as_arr(ph)
    ft, fp = A.tofn(th), A.tofn(ph)
    if len(th.shape) == 2 and len(ph.shape) == 2:
        return new_arr((L * L,) + tuple(th.shape), "c", lambda i: ylm(i[0], ft(i[1:]), fp(i[1:]), sp))
    raise Unsupported("create_ylm on arrays")

def _tt(v, default):
    """boolean option: decided"""
    if isinstance(v, bool):
        return v
    return ctx().decide(formula(v))

def need_shape(it, shape, want, what):
    if len(shape) != len(want):
        raise PyExc("ssht_input_error", (what,))
    for a, b in zip(shape, want):
        if a != b and not it.decide(f_eq(a, b)):
            raise PyExc("ssht_input_error", (what,))

@_ssht("inverse")
def ssht_inverse(it, args, kw):
    a = _args(args, kw, ["flm", "L", "Spin", "Method", "Reality", "backend", "nthreads"], {"Spin": 0, "Method": "MW", "Reality": False, "backend": "SSHT", "nthreads": 1})
    flm = a["flm"]
    if not isinstance(flm, Arr):
        raise PyExc("TypeError", ("flm",)) if is_scalar(flm) or flm is None else Unsupported("inverse argument")
    L, sp = as_int(a["L"]), as_int(a["Spin"])
    me = a["Method"].upper()
    need_shape(it, flm.shape, (L * L,), "flm must be a 1D array of L^2 entries")
    if flm.dt != "c":
        raise PyExc("ValueError", ("Buffer dtype mismatch",))
    nt, nph = sample_shape(L, me)
    f = flm.fn()
    real = _tt(a["Reality"], False)
    def fn(i):
        q = T.fresh("q")
        mark = it.facts.mark()
        it.facts.push(f_ge(q))
        it.facts.push(f_gt(L * L - q))
        try:
            y = ylm(q, theta_at(i[0], L, me), phi_at(i[1], L, me), sp)
            v = f((q,))
        finally:
            it.facts.pop(mark)
        if real:
            # only m >= 0 is used: f = sum_{m=0} Re(f Y) + 2 sum_{m>0} Re(f Y)
            l = SV.isqrt(q)
            m = q - l * l - l
            v = v * y
            v = T.real_part(v) * (iv(f_eq(m, 0)) + iv(f_gt(m)) * 2)
            return T.Sum0(q, L * L, v)
        return T.Sum0(q, L * L, v * y)
    if real and not sp.is_zero():
        raise PyExc("ssht_spin_error", ("Reality with spin",))
    return new_arr((nt, nph), "f" if real else "c", fn)

def quadk(q, t, p, L, sp, me):
    return T.app("SHTK" + me, (q, t, p, L, sp), "C")

@_ssht("forward")
def ssht_forward(it, args, kw):
    a = _args(args, kw, ["f", "L", "Spin", "Method", "Reality", "backend", "nthreads"], {"Spin": 0, "Method": "MW", "Reality": False, "backend": "SSHT", "nthreads": 1})
    f = a["f"]
    if not isinstance(f, Arr):
        raise PyExc("TypeError", ("f",)) if is_scalar(f) or f is None else Unsupported("forward argument")
    L, sp = as_int(a["L"]), as_int(a["Spin"])
    me = a["Method"].upper()
    nt, nph = sample_shape(L, me)
    need_shape(it, f.shape, (nt, nph), "f must have the sampling shape")
    ff = A.tofn(f)
    real = _tt(a["Reality"], False)
    dt = f.dt
    if real and not sp.is_zero():
        raise PyExc("ssht_spin_error", ("Reality with spin",))
    def fn(i):
        t, p = T.fresh("t"), T.fresh("p")
        mark = it.facts.mark()
        for s, d in ((t, nt), (p, nph)):
            it.facts.push(f_ge(s))
            it.facts.push(f_gt(d - s))
        try:
            v = ff((t, p))
            if real and dt == "c":
                v = T.real_part(v)
        finally:
            it.facts.pop(mark)
        return T.Sum0(t, nt, T.Sum0(p, nph, v * quadk(i[0], t, p, L, sp, me)))
    return new_arr((L * L,), "c", fn)

def dl_app(l, m, n, beta):
    return T.app("dl", (l, m, n, beta), "R")

@_ssht("generate_dl")
def ssht_generate_dl(it, args, kw):
    a = _args(args, kw, ["beta", "L"])
    b, L = poly(a["beta"]), as_int(a["L"])
    return new_arr((L, L * 2 - 1, L * 2 - 1), "f", lambda i: dl_app(i[0], i[1] - (L - 1), i[2] - (L - 1), b))

@_ssht("rotate_flms")
def ssht_rotate(it, args, kw):
    a = _args(args, kw, ["f_lm", "alpha", "beta", "gamma", "L", "dl_array_in", "M_in", "Axisymmetric", "Keep_dl"],
              {"dl_array_in": None, "M_in": 0, "Axisymmetric": False, "Keep_dl": False})
    if a["dl_array_in"] is not None or a["M_in"] != 0 or a["Axisymmetric"] or a["Keep_dl"]:
        raise Unsupported("rotate_flms options")
    L = as_int(a["L"])
    f = a["f_lm"]
    need_shape(it, f.shape, (L * L,), "f_lm")
    ff = A.tofn(f)
    al, be, ga = poly(a["alpha"]), poly(a["beta"]), poly(a["gamma"])
    def fn(i):
        q = i[0]
        l = find_isqrt(q)
        m = q - l * l - l
        n = T.fresh("n")
        body = T.mk_exp(-T.IMAG * m * al) * dl_app(l, m, n - l, be) * T.mk_exp(-T.IMAG * (n - l) * ga) * ff((l * l + n,))
        return T.Sum0(n, l * 2 + 1, body)
    return new_arr((L * L,), "c", fn)

@_ssht("gaussian_smoothing")
def ssht_smooth(it, args, kw):
    a = _args(args, kw, ["f_lm", "L", "sigma_in"], {"sigma_in": None}, ("sigma",))
    L = as_int(a["L"])
    f = a["f_lm"]
    need_shape(it, f.shape, (L * L,), "f_lm")
    ff = A.tofn(f)
    s = poly(a["sigma_in"] if a["sigma_in"] is not None else a["sigma"])
    def fn(i):
        l = find_isqrt(i[0])
        return ff(i) * T.mk_exp(-l * l * s * s)
    return new_arr((L * L,), "c", fn)

@_ssht("theta_to_index")
def ssht_t2i(it, args, kw):
    a = _args(args, kw, ["theta", "L", "Method"], {"Method": "MW"})
    th, L = poly(a["theta"]), as_int(a["L"])
    return num(T.app("theta_to_index" + a["Method"].upper(), (th, L), "I"), "i")

@_ssht("phi_to_index")
def ssht_p2i(it, args, kw):
    a = _args(args, kw, ["phi", "L", "Method"], {"Method": "MW"})
    th, L = poly(a["phi"]), as_int(a["L"])
    return num(T.app("phi_to_index" + a["Method"].upper(), (th, L), "I"), "i")

def _cart(r, theta, phi):
    st = T.mk_sin(theta)
    return {"x": r * T.mk_cos(phi) * st, "y": r * T.mk_sin(phi) * st, "z": r * T.mk_cos(theta)}

@_ssht("s2_to_cart")
def ssht_s2c(it, args, kw):
    a = _args(args, kw, ["theta", "phi"])
    for n in ("theta", "phi"):
        if isinstance(a[n], (int, float)) or isinstance(a[n], Num) and not a[n].np:
            raise PyExc("AttributeError", ("shape",))
    return tuple(A.ewise(lambda p, q, n=n: _cart(P(1), p, q)[n], "f", a["theta"], a["phi"]) for n in "xyz")

@_ssht("spherical_to_cart")
def ssht_sph2c(it, args, kw):
    return tuple(A.ewise(lambda r, p, q, n=n: _cart(r, p, q)[n], "f", *args) for n in "xyz")

# --------------------------------------------------------------------- pys2let, igl
S2LET_DOC = "pys2let.axisym_wav_l(B, L, J_min) returns the scaling tiling (L,) and the wavelet tilings (L, J_max - J_min + 1), functions of B, L, J_min; pys2let_j_max(B, L, J_min) = J_max"

def jmax_app(B, L, jmin):
    return T.app("j_max", (B, L), "I")

@model("pys2let.pys2let_j_max", trust=S2LET_DOC)
def s2_jmax(it, args, kw):
    B, L, j = [as_int(x) for x in args]
    return num(jmax_app(B, L, j), "i")

@model("pys2let.axisym_wav_l", trust=S2LET_DOC)
def s2_axisym(it, args, kw):
    B, L, j = [as_int(x) for x in args]
    ns = jmax_app(B, L, j) - j + 1
    it.facts.push(f_ge(ns))
    k0 = new_arr((L,), "f", lambda i: T.app("kappa0", (i[0], B, L, j), "R"))
    k = new_arr((L, ns), "f", lambda i: T.app("kappa", (i[0], i[1], B, L, j), "R"))
    return (k0, k)

IGL_DOC = "igl: read_triangle_mesh/upsample/per_vertex_normals/cotmatrix are functions of their arguments; average_onto_faces(F, s)[f] is the mean of s over the vertices F[f, :]"

@model("igl.average_onto_faces", trust=IGL_DOC)
def igl_avg(it, args, kw):
    F, s = args
    ff, sf = F.fn(), A.tofn(s)
    if len(s.shape) == 1:
        def fn(i):
            r = P(0)
            n = F.shape[1]
            if n.is_int_const():
                for c in range(n.const()[0]):
                    r = r + sf((ff((i[0], P(c))),))
                return r * Fraction(1, n.const()[0])
            v = T.fresh("c")
            return T.Sum0(v, n, sf((ff((i[0], v)),))) * T.inv(n)
        return new_arr((F.shape[0],), KF(s.dt), fn)
    raise Unsupported("average_onto_faces of a matrix")

@model("igl.per_vertex_normals", trust=IGL_DOC)
def igl_normals(it, args, kw):
    v, f = args[:2]
    lv, lf = lam_of(v), lam_of(f)
    return new_arr((v.shape[0], P(3)), "f", lambda i: T.app("vertex_normals", tuple(i) + (v.shape[0], f.shape[0]), "R", (lv, lf)))

@model("igl.cotmatrix", trust=IGL_DOC)
def igl_cot(it, args, kw):
    v, f = args
    lv, lf = lam_of(v), lam_of(f)
    n = v.shape[0]
    return new_arr((n, n), "f", lambda i: T.app("cotmatrix", tuple(i) + (n, f.shape[0]), "R", (lv, lf)))

@model("igl.read_triangle_mesh", trust=IGL_DOC)
def igl_read(it, args, kw):
    h = it.extra_models.get("hook:read_mesh")
    if h:
        return h(it, args)
    raise Unsupported("read_triangle_mesh")

# -------------------------------------------------------------------- gmpy2, math
def fact_poly(p):
    p = P(p)
    if p.is_int_const():
        n = p.const()[0]
        if n < 0:
            raise PyExc("ValueError", ("factorial() of negative number",))
        return P(math.factorial(n)) if n < 400 else T.app("fact", (p,), "I")
    return T.app("fact", (p,), "I")

def _fact_rb(args, sort, lams):
    p = args[0]
    if p.is_int_const() and 0 <= p.const()[0] < 400:
        return P(math.factorial(p.const()[0]))
    return T.app("fact", args, "I", lams) if False else None
T.REBUILD["fact"] = lambda args, sort, lams: P(math.factorial(args[0].const()[0])) if args[0].is_int_const() and 0 <= args[0].const()[0] < 400 else T.app("fact", args, "I")
SV.AXIOMS["fact"] = lambda a: [f_ge(P(a) - 1)]

@model("gmpy2.factorial", "math.factorial", "gmpy2.fac", trust="gmpy2.factorial / math.factorial: exact factorial of a non-negative integer, refused below zero")
def m_factorial(it, args, kw):
    v = args[0]
    p = poly(v)
    if p.sort != "I":
        raise Unsupported("factorial of a non-integer")
    if not p.is_int_const() and not it.decide(f_ge(p)):
        raise PyExc("ValueError", ("factorial() of negative number",))
    return num(fact_poly(p), "i") if True else None

@model("gmpy2.sqrt", "math.sqrt", trust="gmpy2.sqrt: real square root")
def m_sqrt(it, args, kw):
    return Num(T.mk_sqrt(poly(args[0]), nn), "f")

@model("scipy.special.gammaln", trust="scipy.special.gammaln(n) = log((n-1)!) for a positive integer n")
def sp_gammaln(it, args, kw):
    x = args[0]
    if not is_scalar(x):
        raise Unsupported("gammaln of an array")
    p = poly(x)
    if p.sort == "I" and ctx().facts.entails(f_ge(p - 1)):
        return Num(T.mk_log(fact_poly(p - 1)), "f", True)
    return Num(T.app("gammaln", (p,), "R"), "f", True)

@model("scipy.special.loggamma")
def sp_loggamma(it, args, kw):
    return sp_gammaln(it, args, kw)

def _math1(name, f):
    def g(it, args, kw):
        return Num(f(poly(args[0])), "f")
    MODELS["math." + name] = g
for n_, f_ in [("exp", T.mk_exp), ("sin", T.mk_sin), ("cos", T.mk_cos), ("log", T.mk_log), ("fabs", T.mk_abs),
               ("radians", lambda p: p * T.PI_ * Fraction(1, 180)), ("degrees", lambda p: p * T.inv(T.PI_) * 180)]:
    _math1(n_, f_)
@model("math.floor")
def m_floor(it, args, kw):
    return num(floor_poly(poly(args[0])), "i")
@model("math.ceil")
def m_ceil(it, args, kw):
    return num(-floor_poly(-poly(args[0])), "i")
@model("math.isqrt")
def m_isqrt(it, args, kw):
    return num(find_isqrt(as_int(args[0])), "i")
@model("math.log10")
def m_log10(it, args, kw):
    return Num(T.mk_log(poly(args[0])) * T.inv(T.mk_log(P(10))), "f")
@model("math.pow")
def m_pow(it, args, kw):
    return binop("**", args[0], args[1])
@model("math.isclose")
def m_isclose(it, args, kw):
    raise Unsupported("math.isclose")

# -------------------------------------------------------------- os, logging, paths
@model("os.getenv", "os.environ.get")
def os_getenv(it, args, kw):
    env = it.extra_models.get("env")
    name = args[0]
    if env is not None and name in env:
        return env[name]
    it.assumptions.add("environment variables are unset unless a contract sets them")
    return args[1] if len(args) > 1 else kw.get("default")

@model("os.cpu_count")
def os_cpu(it, args, kw):
    p = T.sym("cpu_count")
    it.facts.push(f_gt(p))
    return num(p, "i")

@model("logging.getLogger")
def get_logger(it, args, kw):
    return Obj("logger")

@model("pathlib.Path")
def path_new(it, args, kw):
    if not args:
        return PathV(".")
    v = args[0]
    return v if isinstance(v, PathV) else PathV(v)

@model("pathlib.Path.open", "open", "io.open")
def path_open(it, args, kw):
    """a bundled data file opened for reading"""
    import os
    from . import interp
    p = args[0].s if isinstance(args[0], PathV) else args[0]
    mode = args[1] if len(args) > 1 else kw.get("mode", "r")
    if not isinstance(p, str) or not p.startswith(os.path.join(interp.REPO_SRC, "")) or mode not in ("r", "rb"):
        raise Unsupported("open")
    if not os.path.isfile(p):
        raise PyExc("FileNotFoundError", (p,))
    return Obj("datafile", {"path": p, "mode": mode})

@model("tomli.load", "tomllib.load", trust="tomli.load parses a TOML file; the files of the package's own data directory are those of the tree")
def toml_load(it, args, kw):
    import tomllib
    o = args[0]
    if not (isinstance(o, Obj) and o.cls == "datafile"):
        raise Unsupported("toml of another file")
    with open(o.f["path"], "rb") as f:
        d = tomllib.load(f)

    def conv(v):
        if isinstance(v, float):
            return Poison("inf") if v != v or v in (float("inf"), float("-inf")) else Num(P(v), "f")
        if isinstance(v, (int, str, bool)):
            return v
        raise Unsupported("toml value")
    return PDict({k: conv(v) for k, v in d.items()})

@model("platformdirs.user_data_path")
def user_data_path(it, args, kw):
    return PathV("<user_data>")

@model("pooch.create", trust="the registry and the user's data directory are finite maps from names to contents; a fetched file has the registry's contents; writing then reading a file returns what was written")
def pooch_create(it, args, kw):
    if it.io is None:
        raise Unsupported("pooch.create")
    return Obj("pooch", {"registry": RegistryV(oracle=lambda i, x: mkbool(TRUE if i.io.in_registry(i, x) else FALSE))})

@model("pooch.os_cache")
def pooch_cache(it, args, kw):
    return PathV("<cache>")

def pooch_attr(it, o, name):
    from .interp import Native
    if name == "load_registry_from_doi":
        def load(i, a, k):
            i.io._set("loads", i.io.o.f["loads"] + 1)
            i.set_field(o, "loaded", True)
        return Native(load)
    if name == "registry":
        return o.f["registry"]
    if name == "fetch":
        def fetch(i, a, k):
            if not i.io.in_registry(i, a[0]):
                raise PyExc("ValueError", ("file is not in the registry",))
            return PathV(SStr.cat("<cache>/", a[0]))
        return Native(fetch)
    raise Unsupported(f"pooch.{name}")

@model("numpy.load")
def np_load(it, args, kw):
    if args[0] is None:
        raise PyExc("TypeError", ("expected str, bytes or os.PathLike object, not NoneType",))
    if it.io is None:
        raise Unsupported("np.load")
    return it.io.load(it, args[0])

@model("numpy.save")
def np_save(it, args, kw):
    if it.io is None:
        raise Unsupported("np.save")
    return it.io.save(it, args[0], args[1])

@model("scipy.io.loadmat")
def sio_loadmat(it, args, kw):
    if it.io is None:
        raise Unsupported("loadmat")
    return it.io.loadmat(it, args[0])

@model("concurrent.futures.ThreadPoolExecutor", "concurrent.futures.ProcessPoolExecutor")
def pool_new(it, args, kw):
    return Obj("pool")

def pool_map(it, o, args, kw):
    f, chunks = args
    if not isinstance(chunks, ChunksV):
        return PList([it.call(f, (c,)) for c in it.concrete_iter(chunks)])
    it.assumptions.add("workers run concurrently on disjoint shares; each share's writes are shown disjoint, exceptions inside a worker are those of the sequential run")
    r = it.call(f, (ChunkV(chunks.n),))
    return PList([r]) if r is None else None

def pool_submit(it, o, args, kw):
    if any(isinstance(a, ChunkV) for a in args):
        it.assumptions.add("workers run concurrently on disjoint shares; each share's writes are shown disjoint, exceptions inside a worker are those of the sequential run")
    return Obj("future", {"value": it.call(args[0], tuple(args[1:]), dict(kw))})

@model("concurrent.futures.wait", "concurrent.futures.as_completed")
def futures_wait(it, args, kw):
    fs = list(it.concrete_iter(args[0]))
    if len(fs) > 1 and any(not isinstance(f, Obj) or f.f.get("value") is not None for f in fs):
        raise Unsupported("results in the order of completion")
    return PList(fs)

@model("multiprocess.shared_memory.SharedMemory", "multiprocessing.shared_memory.SharedMemory", trust="shared memory attached by name aliases the block it was created as; a new block is zero-initialised and distinct")
def shm_new(it, args, kw):
    if kw.get("create", False) or (args and len(args) > 1 and args[1] is True):
        o = Obj("shm", {})
        it.set_field(o, "block", o)
        it.set_field(o, "name", Obj("shmname", {"block": o}))
        it.set_field(o, "size", kw.get("size"))
        it.set_field(o, "buf", Obj("shmbuf", {"block": o}))
        return o
    n = kw.get("name", args[0] if args else None)
    if not isinstance(n, Obj) or n.cls != "shmname":
        raise Unsupported("shared memory name")
    blk = n.f["block"]
    return Obj("shm", {"block": blk, "name": n, "size": blk.f["size"], "buf": Obj("shmbuf", {"block": blk})})

@model("numpy.ndarray")
def np_ndarray(it, args, kw):
    a = _args(args, kw, ["shape", "dtype", "buffer"], {"dtype": None, "buffer": None})
    sh = shape_of(a["shape"])
    k = dtype_kind(a["dtype"])
    b = a["buffer"]
    if b is None:
        return np_empty(it, (a["shape"],), {"dtype": DType(k)})
    if not (isinstance(b, Obj) and b.cls == "shmbuf"):
        raise Unsupported("ndarray over a buffer")
    blk = b.f["block"]
    if "arr" not in blk.f:
        arr = new_arr(sh, k, const_fn(k, 0))
        it.set_field(blk, "arr", arr)
        need = A.prod(sh) * (16 if k == "c" else 1 if k == "b" else 8)
        if blk.f.get("size") is not None and not it.decide(f_ge(poly(blk.f["size"]) - need)):
            raise PyExc("TypeError", ("buffer is too small for requested array",))
        return arr
    arr = blk.f["arr"]
    if arr.dt != k or len(arr.shape) != len(sh) or any(not (x == y or it.decide(f_eq(x, y))) for x, y in zip(arr.shape, sh)):
        raise Unsupported("shared block reinterpreted")
    return Arr(arr.cell, arr.shape, arr.vmap)

@model("functools.reduce")
def f_reduce(it, args, kw):
    f = args[0]
    items = it.concrete_iter(args[1])
    if len(args) > 2:
        acc = args[2]
    else:
        if not items:
            raise PyExc("TypeError", ("reduce() of empty iterable",))
        acc, items = items[0], items[1:]
    for x in items:
        acc = it.call(f, (acc, x))
    return acc

@model("functools.partial")
def f_partial(it, args, kw):
    from .interp import Native
    f, pre = args[0], args[1:]
    return Native(lambda it2, a, k: it2.call(f, tuple(pre) + tuple(a), {**kw, **k}), "partial")

def _op(name, op):
    MODELS["operator." + name] = lambda it, args, kw: binop(op, args[0], args[1])
for n_, o_ in [("mul", "*"), ("add", "+"), ("sub", "-"), ("truediv", "/"), ("floordiv", "//"), ("mod", "%"), ("pow", "**"), ("and_", "&"), ("or_", "|"), ("iadd", "+"), ("concat", "+"),
               ("matmul", "@")]:
    _op(n_, o_)
for n_, o_ in [("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">="), ("eq", "=="), ("ne", "!=")]:
    MODELS["operator." + n_] = lambda it, args, kw, o_=o_: compare(o_, args[0], args[1])
MODELS["operator.neg"] = lambda it, args, kw: binop("*", -1, args[0])
MODELS["operator.getitem"] = lambda it, args, kw: it.getitem(args[0], args[1])
MODELS["operator.not_"] = lambda it, args, kw: not it.truth(args[0])
del MODELS["operator.iadd"]

@model("functools.wraps")
def f_wraps(it, args, kw):
    from .interp import Native
    return Native(lambda it2, a, k: a[0], "wraps")

@model("itertools.chain")
def it_chain(it, args, kw):
    vs = [it.to_iter(a) for a in args]
    if any(isinstance(v, IterV) for v in vs):
        r = None
        for v in vs:
            if isinstance(v, IterV) and v.parallel:
                raise Unsupported("chain of concurrent shares")
            v = PList(None, v.n, v.fn) if isinstance(v, IterV) else PList(list(v))
            r = v if r is None else binop("+", r, v)
        return it.once(it.to_iter(r))
    return it.once([x for v in vs for x in v])

@model("itertools.product")
def it_product(it, args, kw):
    import itertools
    if set(kw) - {"repeat"} or type(kw.get("repeat", 1)) is not int:
        raise Unsupported("product keywords")
    ls = [it.to_iter(a) for a in args] * kw.get("repeat", 1)
    if not any(isinstance(v, IterV) for v in ls):
        return it.once([tuple(t) for t in itertools.product(*ls)])
    if any(isinstance(v, IterV) and v.parallel for v in ls):
        raise Unsupported("product of concurrent shares")
    if any(not isinstance(v, IterV) and len(v) != 1 for v in ls):
        raise Unsupported("product of symbolic and concrete sequences")
    ns = [v.n if isinstance(v, IterV) else P(1) for v in ls]
    for n in ns:
        if not (n.is_int_const() and n.const()[0] >= 0) and not it.decide(f_ge(n)):
            return it.once([])
    def at(k):
        out, k = [], P(k)
        for j in range(len(ls) - 1, -1, -1):
            v = ls[j]
            if not isinstance(v, IterV):
                out.append(v[0])
                continue
            if all(A.is1(n) for n in ns[:j]):
                out.append(v.fn(k))
                k = P(0)
            else:
                out.append(v.fn(imod(k, v.n)))
                k = idiv(k, v.n)
        return tuple(reversed(out))
    return it.once(IterV(A.prod(ns), at))

def _combi(name):
    def g(it, args, kw):
        import itertools
        a = _args(args, kw, ["iterable", "r"], {"r": None})
        r = a["r"]
        if r is not None and type(r) is not int:
            raise Unsupported(name)
        return it.once([tuple(t) for t in getattr(itertools, name)(it.concrete_iter(a["iterable"]), *([] if r is None else [r]))])
    MODELS["itertools." + name] = g
for n_ in ("combinations", "combinations_with_replacement", "permutations"):
    _combi(n_)

@model("itertools.count")
def it_count(it, args, kw):
    a = _args(args, kw, ["start", "step"], {"start": 0, "step": 1})
    return InfV(lambda k: binop("+", a["start"], binop("*", num(P(k), "i"), a["step"])))

@model("itertools.repeat")
def it_repeat(it, args, kw):
    a = _args(args, kw, ["object", "times"], {"times": None})
    if a["times"] is None:
        return InfV(lambda k: a["object"])
    n = as_int(a["times"])
    if not (n.is_int_const() and n.const()[0] >= 0) and not it.decide(f_ge(n)):
        n = P(0)
    return it.once(it.to_iter(PList(None, n, lambda k: a["object"])))

@model("contextlib.contextmanager")
def ctx_manager(it, args, kw):
    from .interp import Native, GenV, _Through, _Break, _Continue
    f = args[0]

    def make(i, a, k):
        g = i.call(f, a, k)
        if not isinstance(g, GenV):
            raise Unsupported("contextmanager of a function that is not a generator")
        def run(i2, body):
            def inner(x):
                try:
                    body(x)
                except (_Break, _Continue) as e:
                    raise _Through(e)
            g.run(inner)
        return CtxV(run)
    return Native(make, "contextmanager")

@model("contextlib.suppress")
def ctx_suppress(it, args, kw):
    from .interp import exc_isa

    def run(i, body):
        try:
            body(None)
        except PyExc as e:
            if not any(exc_isa(e.name, x.name.split(".")[-1]) for x in args):
                raise
    return CtxV(run)

@model("numpy.errstate")
def np_errstate(it, args, kw):
    return Obj("opaque")

@model("contextlib.nullcontext")
def ctx_null(it, args, kw):
    return args[0] if args else None

@model("numpy.isscalar")
def np_isscalar(it, args, kw):
    if isinstance(args[0], (str, SStr)):
        return True
    return is_scalar(args[0]) and args[0] is not None

@model("typing.cast")
def t_cast(it, args, kw):
    return args[1]

@model("pydantic.ConfigDict", "typing.TypeVar")
def opaque_obj(it, args, kw):
    return Obj("opaque")

@model("numba.prange")
def nb_prange(it, args, kw):
    r = py_range(it, args, kw)
    return IterV(r.length(), lambda k: num(r.at(P(k)), "i"), parallel=True)

FRACT_DOC = "fractions.Fraction(x).limit_denominator(): the closest fraction with denominator at most 10^6, in lowest terms"

@model("fractions.Fraction", trust=FRACT_DOC)
def fraction_new(it, args, kw):
    v = args[0]
    p = poly(v)
    if p.is_const():
        fr = Fraction(p.const()[0])
        return Obj("fraction", {"p": p, "const": fr})
    if p.sort == "I":
        return Obj("fraction", {"p": p, "const": None, "int": True})
    return Obj("fraction", {"p": p, "const": None})

def fraction_attr(it, o, name):
    from .interp import Native, MISSING
    if name == "limit_denominator":
        def g(it2, args, kw):
            md = args[0] if args else kw.get("max_denominator", 1000000)
            if type(md) is not int:
                raise Unsupported("limit_denominator")
            fr = o.f["const"]
            return Obj("fraction", {"p": o.f["p"], "int": o.f.get("int"), "const": fr.limit_denominator(md) if fr is not None else None, "md": md})
        return Native(g, name)
    if name in ("numerator", "denominator"):
        if o.f["const"] is not None:
            return getattr(o.f["const"], name)
        md = o.f.get("md")
        if o.f.get("int"):
            return num(o.f["p"], "i") if name == "numerator" else 1
        r = T.app("frac_" + name, (o.f["p"], P(md or 0)), "I")
        if name == "denominator":
            it.facts.push(f_ge(r - 1))
        return num(r, "i")
    return MISSING

# ------------------------------------------------------------------------ builtins
@native("range")
def py_range(it, args, kw):
    a = [as_int(x) for x in args]
    if len(a) == 1:
        r = RangeV(0, a[0])
    elif len(a) == 2:
        r = RangeV(a[0], a[1])
    else:
        if not a[2].is_int_const() or a[2].const()[0] == 0:
            raise Unsupported("range step")
        r = RangeV(a[0], a[1], a[2].const()[0])
    return r

@native("len")
def py_len(it, args, kw):
    v = args[0]
    if isinstance(v, (str, tuple, frozenset, set)):
        if not isinstance(v, (str, tuple)) and len(v) > 1 and any(isinstance(x, TextKey) for x in v):
            raise Unsupported("size of a set of symbolic texts")
        return len(v)
    if isinstance(v, PList):
        return num(v.length(), "i")
    if isinstance(v, Arr):
        if not v.shape:
            raise PyExc("TypeError", ("len() of unsized object",))
        return num(v.shape[0], "i")
    if isinstance(v, Sel):
        return num(A.sel_count(v), "i")
    if isinstance(v, RowSel):
        return num(A.sel_count(v.sel), "i")
    if isinstance(v, RangeV):
        n = v.length()
        return num(T.mk_max(n, P(0)), "i")
    if isinstance(v, PDict):
        return len(v.d)
    raise Unsupported(f"len of {type(v).__name__}")

@native("int")
def py_int(it, args, kw):
    if not args:
        return 0
    v = args[0]
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            raise PyExc("ValueError", ("invalid literal for int()",))
    if isinstance(v, SStr):
        if len(v.parts) == 1 and isinstance(v.parts[0], Piece) and is_scalar(v.parts[0].v) and kind(v.parts[0].v) == "i":
            return v.parts[0].v
        raise Unsupported("int of a string")
    if isinstance(v, Arr):
        if v.shape:
            raise PyExc("TypeError", ("only 0-dimensional arrays can be converted to Python scalars",))
        v = A.elem(v.fn()(tuple(P(0) for _ in v.shape)), v.dt)
    if kind(v) == "c":
        raise PyExc("TypeError", ("int() of complex",))
    return num(trunc_poly(poly(v)), "i")

@native("float")
def py_float(it, args, kw):
    v = args[0] if args else 0
    if isinstance(v, str):
        try:
            return Num(P(float(v)), "f")
        except ValueError:
            raise PyExc("ValueError", ())
    if isinstance(v, Arr):
        if v.shape:
            raise PyExc("TypeError", ("only 0-dimensional arrays can be converted to Python scalars",))
        v = A.elem(v.fn()(()), v.dt)
    if kind(v) == "c":
        raise PyExc("TypeError", ("float() of complex",))
    return Num(poly(v), "f")

@native("complex")
def py_complex(it, args, kw):
    re = poly(args[0]) if args else P(0)
    im = poly(args[1]) if len(args) > 1 else P(0)
    return Num(re + T.IMAG * im, "c")

@native("bool")
def py_bool(it, args, kw):
    v = args[0] if args else False
    if is_scalar(v):
        return mkbool(formula(v))
    return it.truth(v)

@native("abs")
def py_abs(it, args, kw):
    return MODELS["numpy.abs"](it, args, kw) if not is_scalar(args[0]) else num(T.mk_abs(poly(args[0])), "f" if kind(args[0]) == "c" else KS(kind(args[0])), isnp(args[0]))

@native("round")
def py_round(it, args, kw):
    if len(args) > 1 or kw:
        return np_round(it, (args[0], args[1] if len(args) > 1 else kw["ndigits"]), {})
    p = poly(args[0])
    if p.is_const():
        return round(Fraction(p.const()[0]))
    return num(round_poly(p), "i")

def _minmax(name):
    mk = T.mk_max if name == "max" else T.mk_min
    def g(it, args, kw):
        if kw:
            if set(kw) - {"default", "key"} or len(args) != 1:
                raise Unsupported(f"{name} keywords")
            v = it.to_iter(args[0])
            seq = PList(None, v.n, v.fn) if isinstance(v, IterV) else PList(list(v))
            if "default" in kw and not it.truth(compare(">", num(seq.length(), "i"), 0)):
                return kw["default"]
            key = kw.get("key")
            if key is None:
                args = (A.array_of(seq) if seq.items is None else seq,)
            else:
                if seq.items is not None and len(seq.items) == 0:
                    raise PyExc("ValueError", (f"{name}() arg is an empty sequence",))
                keys = A.array_of(py_list(it, (py_map(it, (key, seq), {}),), {}) if seq.items is None else PList([it.call(key, (x,)) for x in seq.items]))
                return it.getitem(seq, MODELS["numpy.arg" + name](it, (keys,), {}))
        items = args
        if len(args) == 1:
            v = args[0]
            if isinstance(v, PList) and v.items is None:
                v = A.array_of(v)
            if isinstance(v, Arr):
                return MODELS["numpy." + name](it, (v,), {})
            items = it.to_iter(v)
            if isinstance(items, IterV):
                return MODELS["numpy." + name](it, (A.array_of(PList(None, items.n, items.fn)),), {})
        r = None
        for x in items:
            if not is_scalar(x):
                raise Unsupported(name)
            if r is None:
                r = x
            else:
                r = num(mk(poly(r), poly(x)), kmax(kmax(kind(r), kind(x)), "i"), isnp(r) or isnp(x))
        return r
    from .interp import Native
    BUILTINS[name] = Native(g, name)

@native("sum")
def py_sum(it, args, kw):
    v = args[0]
    start = args[1] if len(args) > 1 else kw.get("start", 0)
    from .interp import GenV, Env
    v = it.unonce(v)
    if isinstance(v, GenV):
        box = Env(None)
        it.set_var(box, "total", start)
        v.run(lambda x: it.set_var(box, "total", binop("+", it.lookup("total", box), x)))
        return it.lookup("total", box)
    if isinstance(v, Arr) and len(v.shape) == 1:
        s = A.reduce_sum(v)
        return binop("+", start, s)
    if isinstance(v, (PList, IterV)) and (not isinstance(v, PList) or v.items is None):
        n = v.n
        k = T.fresh("s")
        mark = it.facts.mark()
        it.facts.push(f_ge(k))
        it.facts.push(f_gt(n - k))
        try:
            x = v.fn(k)
        finally:
            it.facts.pop(mark)
        if is_scalar(x):
            r = T.Sum0(k, n, poly(x))
            return binop("+", start, num(r, KS(kind(x)), isnp(x)))
        if isinstance(x, Arr):
            f = x.fn()
            ks = T.the_sym(k)
            def fn(idx):
                k2 = T.fresh("s")
                y = v.fn(k2)
                return T.Sum0(k2, n, A.tofn(y)(idx))
            r = new_arr(x.shape, x.dt, fn)
            return binop("+", start, r)
        raise Unsupported("sum")
    acc = start
    for x in it.concrete_iter(v):
        acc = binop("+", acc, x)
    return acc

@native("enumerate")
def py_enumerate(it, args, kw):
    start = args[1] if len(args) > 1 else kw.get("start", 0)
    v = it.to_iter(args[0])
    if isinstance(v, IterV):
        return it.once(IterV(v.n, lambda k: (num(P(k) + as_int(start), "i"), v.fn(k)), v.parallel))
    return it.once([(binop("+", start, i), x) for i, x in enumerate(v)])

@native("zip")
def py_zip(it, args, kw):
    vs = [it.to_iter(a) if not isinstance(a, InfV) else a for a in args]
    fin = [v for v in vs if not isinstance(v, InfV)]
    if len(fin) < len(vs):
        if not fin or kw.get("strict"):
            raise Unsupported("zip of endless sequences")
        n = next((v.n for v in fin if isinstance(v, IterV)), None)
        if n is not None:
            vs = [IterV(n, v.fn) if isinstance(v, InfV) else v for v in vs]
        else:
            vs = [[v.fn(P(k)) for k in range(min(map(len, fin)))] if isinstance(v, InfV) else v for v in vs]
    return it.once(zipped(it, vs, kw))

def zipped(it, vs, kw):
    if all(isinstance(v, IterV) for v in vs):
        if not vs:
            return []
        n = vs[0].n
        for v in vs[1:]:
            if v.n != n and not it.decide(f_eq(v.n, n)):
                n = T.mk_min(n, v.n)
        return IterV(n, lambda k: tuple(v.fn(k) for v in vs))
    if any(isinstance(v, IterV) for v in vs):
        raise Unsupported("zip of symbolic and concrete sequences")
    if kw.get("strict") and len({len(v) for v in vs}) > 1:
        raise PyExc("ValueError", ("zip",))
    return [tuple(t) for t in zip(*vs)]

@native("reversed")
def py_reversed(it, args, kw):
    v = it.to_iter(args[0])
    if isinstance(v, IterV):
        return it.once(IterV(v.n, lambda k: v.fn(v.n - 1 - P(k)), v.parallel))
    return it.once(list(reversed(v)))

def exc_name_of(t):
    return getattr(t, "name", "").split(".")[-1]

@native("isinstance")
def py_isinstance(it, args, kw):
    from .interp import Native, ExtMod, Cls
    v, t = args
    ts = t if isinstance(t, tuple) else (t,)
    for x in ts:
        if isinstance(x, Cls):
            if isinstance(v, Obj) and isinstance(v.cls, Cls) and v.cls.is_subclass(x):
                return True
            continue
        n = x.name.split(".")[-1] if isinstance(x, (Native, ExtMod)) else None
        if n == "int":
            if isinstance(v, (bool, Bool)) or type(v) is int or (isinstance(v, Num) and v.k == "i" and not v.np):
                return True
        elif n == "float":
            if (isinstance(v, Num) and v.k == "f") or isinstance(v, float):
                return True
        elif n == "complex":
            if isinstance(v, Num) and v.k == "c":
                return True
        elif n == "bool":
            if isinstance(v, (bool, Bool)):
                return True
        elif n == "str":
            if isinstance(v, (str, SStr)):
                return True
        elif n == "list":
            if isinstance(v, PList):
                return True
        elif n == "tuple":
            if isinstance(v, tuple):
                return True
        elif n == "dict":
            if isinstance(v, PDict):
                return True
        elif n == "ndarray":
            if isinstance(v, (Arr, Sel, RowSel)):
                return True
        elif n in ("Integral", "integer", "int_", "int64"):
            if type(v) is int or isinstance(v, Num) and v.k == "i":
                return True
        elif n is None or n in ("PathLike", "Path"):
            if isinstance(v, PathV):
                return True
        else:
            raise Unsupported(f"isinstance {n}")
    return False

@native("hasattr")
def py_hasattr(it, args, kw):
    try:
        it.getattr(args[0], args[1])
        return True
    except PyExc as e:
        if e.name == "AttributeError":
            return False
        raise

@native("getattr")
def py_getattr(it, args, kw):
    try:
        return it.getattr(args[0], args[1])
    except PyExc as e:
        if e.name == "AttributeError" and len(args) > 2:
            return args[2]
        raise

@native("setattr")
def py_setattr(it, args, kw):
    it.setattr(args[0], args[1], args[2])

@native("list")
def py_list(it, args, kw):
    if not args:
        return PList([])
    v = args[0]
    if isinstance(v, Arr) and len(v.shape) == 1:
        v = A.copy(v)     # the elements as they are now
    v = it.to_iter(v)
    if isinstance(v, IterV):
        return PList(None, v.n, v.fn)
    return PList(list(v))

@native("tuple")
def py_tuple(it, args, kw):
    if not args:
        return ()
    return tuple(it.concrete_iter(args[0]))

@native("set")
def py_set(it, args, kw):
    if not args:
        return frozenset()
    v = args[0]
    if isinstance(v, SetOfSplit):
        return v
    return frozenset(TextKey(x) if isinstance(x, SStr) else it.hashkey(x) for x in it.concrete_iter(v))

BUILTINS["frozenset"] = None

@native("dict")
def py_dict(it, args, kw):
    d = {}
    if args:
        v = args[0]
        if isinstance(v, PDict):
            d.update(v.d)
        else:
            for k, x in it.concrete_iter(v):
                d[it.hashkey(k)] = x
    d.update(kw)
    return PDict(d)

@native("sorted")
def py_sorted(it, args, kw):
    v = args[0]
    if set(kw) - {"key", "reverse"}:
        raise PyExc("TypeError", ("sorted() keywords",))
    key, rev = kw.get("key"), bool(it.truth(kw.get("reverse", False)))
    if isinstance(v, Arr) and key is None:
        r = np_sort(it, (v,), {})
        f, n = r.fn(), r.shape[0]
        return PList(None, n, lambda k: A.elem(f((n - 1 - P(k) if rev else P(k),)), r.dt))
    items = it.to_iter(v)
    if not isinstance(items, IterV):
        keys = items if key is None else [it.call(key, (x,)) for x in items]
        plain = lambda x: type(x) in (int, str) or isinstance(x, tuple) and all(plain(y) for y in x)
        if all(plain(x) for x in keys):
            return PList([items[i] for i in sorted(range(len(items)), key=lambda i: keys[i], reverse=rev)])
        raise Unsupported("sorted")
    if items.parallel:
        raise Unsupported("sorted")
    seq = PList(None, items.n, items.fn)
    keys = A.array_of(seq if key is None else py_list(it, (py_map(it, (key, seq), {}),), {}))
    if rev:
        keys = binop("*", -1, keys)     # equal keys keep their order either way
    order = np_argsort(it, (keys,), {})
    g = order.fn()
    return PList(None, items.n, lambda k: items.fn(g((P(k),))))

@native("any")
def py_any(it, args, kw):
    v = it.unonce(args[0])
    from .interp import CompV
    if isinstance(v, CompV):
        return mkbool(it.comp_exists(v))
    if isinstance(v, Arr):
        return A.reduce_any(v, None, "exists")
    if isinstance(v, PList) and v.items is None:
        return mkbool(A.quant_formula("exists", [v.n], lambda i: formula(v.fn(i[0]))))
    f = FALSE
    for x in it.concrete_iter(v):
        f = f_or(f, formula(x))
    return mkbool(f)

@native("all")
def py_all(it, args, kw):
    v = it.unonce(args[0])
    from .interp import CompV
    if isinstance(v, CompV):
        return mkbool(f_not(it.comp_exists(v, True)))
    if isinstance(v, Arr):
        return A.reduce_any(v, None, "forall")
    if isinstance(v, PList) and v.items is None:
        return mkbool(A.quant_formula("forall", [v.n], lambda i: formula(v.fn(i[0]))))
    f = TRUE
    for x in it.concrete_iter(v):
        f = f_and(f, formula(x))
    return mkbool(f)

@native("map")
def py_map(it, args, kw):
    f = args[0]
    z = it.to_iter(BUILTINS["zip"].fn(it, args[1:], {}))
    if isinstance(z, IterV):
        if z.parallel:
            raise Unsupported("map over concurrent shares")
        from .interp import freeze
        return it.once(it.to_iter(it.mapped(z, lambda k: freeze(it.call(f, z.fn(k))))))
    return it.once([it.call(f, t) for t in z])

@native("filter")
def py_filter(it, args, kw):
    return it.once([x for x in it.concrete_iter(args[1]) if it.truth(it.call(args[0], (x,)) if args[0] is not None else x)])

@native("print")
def py_print(it, args, kw):
    return None

@native("str")
def py_str(it, args, kw):
    return tostr(it, args[0], "") if args else ""

@native("repr")
def py_repr(it, args, kw):
    return mkstr([Piece(args[0], "!r")])

@native("type")
def py_type(it, args, kw):
    v = args[0]
    if isinstance(v, Obj):
        return v.cls
    if isinstance(v, (bool, Bool)):
        return BUILTINS["bool"]
    if type(v) is int or (isinstance(v, Num) and v.k == "i"):
        return BUILTINS["int"]
    raise Unsupported("type()")

@native("divmod")
def py_divmod(it, args, kw):
    return (binop("//", *args), binop("%", *args))

@native("pow")
def py_pow(it, args, kw):
    return binop("**", *args)

@native("iter")
def py_iter(it, args, kw):
    if isinstance(args[0], Once):
        return args[0]
    if len(args) > 1:
        raise Unsupported("iter with a sentinel")
    return it.once(it.to_iter(args[0]))

@native("next")
def py_next(it, args, kw):
    v = args[0]
    from .interp import GenV
    if isinstance(v, GenV):
        raise Unsupported("next of a generator")
    if isinstance(v, InfV):
        raise Unsupported("next of an endless iterator")
    if not isinstance(v, Once):
        raise PyExc("TypeError", ("not an iterator",))
    r = it.rest(v)
    if isinstance(r, IterV):
        if it.decide(f_gt(r.n)):
            it.set_var(v.env, "rest", IterV(r.n - 1, lambda k: r.fn(P(k) + 1), r.parallel))
            return r.fn(P(0))
    elif r:
        it.set_var(v.env, "rest", list(r[1:]))
        return r[0]
    if len(args) > 1:
        return args[1]
    raise PyExc("StopIteration", ())

@native("callable")
def py_callable(it, args, kw):
    from .interp import Func, Bound, Native, Cls
    return isinstance(args[0], (Func, Bound, Native, Cls))

@native("id")
def py_id(it, args, kw):
    raise Unsupported("id")

@native("object")
def py_object(it, args, kw):
    return Obj("opaque")

@native("slice")
def py_slice(it, args, kw):
    a = list(args)
    if len(a) == 1:
        return SliceV(None, a[0], None)
    return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)

class SetOfSplit(frozenset):
    pass

def init_builtins():
    _minmax("max")
    _minmax("min")
    from .interp import Native
    BUILTINS["frozenset"] = BUILTINS["set"]
    for n in ("property", "staticmethod", "classmethod"):
        BUILTINS[n] = Native(lambda it, a, k: a[0], n)
    BUILTINS["Ellipsis"] = Ellipsis
    BUILTINS["NotImplemented"] = Obj("opaque")
    BUILTINS["__debug__"] = True

# --------------------------------------------------------------------- formatting
def tostr(it, v, spec):
    if isinstance(v, (str, SStr)):
        if spec:
            raise Unsupported("string format")
        return v
    if isinstance(v, bool) or v is None:
        return str(v)
    if type(v) is int:
        return format(v, spec)
    if isinstance(v, Num):
        if v.p.is_const() and v.p.const()[1] == 0 and v.k == "f":
            try:
                return format(float(v.p.const()[0]), spec)
            except ValueError:
                pass
        return mkstr([Piece(v, spec)])
    if isinstance(v, PathV):
        return v.s
    if isinstance(v, Obj) and getattr(v.cls, "name", None) and v.cls.find("__str__"):
        return it.call(it.getattr(v, "__str__"), ())
    return mkstr([Piece(v, spec)])

def str_format(it, s, args, kw):
    import string
    parts, auto = [], 0
    for lit, fld, spec, conv in string.Formatter().parse(s):
        parts.append(lit)
        if fld is None:
            continue
        if conv is not None or "{" in spec or "." in fld or "[" in fld:
            raise Unsupported("str.format")
        if fld == "":
            v, auto = args[auto], auto + 1
        else:
            v = args[int(fld)] if fld.isdigit() else kw[fld]
        parts += SStr.of(tostr(it, v, spec))
    return mkstr(parts)

def percent_format(it, s, b):
    import re
    if not isinstance(s, str):
        raise Unsupported("string formatting")
    vals = list(b) if isinstance(b, tuple) else [b]
    parts, pos, n = [], 0, 0
    for m in re.finditer(r"%(%|s|d|[-0-9.]*[dfeg])", s):
        parts.append(s[pos:m.start()])
        pos = m.end()
        c = m.group(1)
        if c == "%":
            parts.append("%")
            continue
        if n >= len(vals):
            raise PyExc("TypeError", ("not enough arguments for format string",))
        v, n = vals[n], n + 1
        if c == "s":
            parts += SStr.of(tostr(it, v, ""))
        elif c == "d" and (type(v) is int or isinstance(v, Num) and v.k == "i"):
            parts += SStr.of(tostr(it, v, ""))
        else:
            raise Unsupported("string formatting")
    if "%" in s[pos:] or any("%" in x for x in parts if isinstance(x, str) and x != "%"):
        raise Unsupported("string formatting")
    if n != len(vals):
        raise PyExc("TypeError", ("not all arguments converted during string formatting",))
    return mkstr(parts + [s[pos:]])

def string_method(it, s, name):
    from .interp import Native
    if isinstance(s, str):
        def g(it, args, kw):
            if any(isinstance(a, SStr) for a in args):
                if name == "join":
                    pass
                raise Unsupported(f"str.{name} of a symbolic string")
            if name == "join":
                parts = []
                items = it.concrete_iter(args[0])
                for i, x in enumerate(items):
                    if i:
                        parts.append(s)
                    parts += SStr.of(x)
                return mkstr(parts)
            if name == "format":
                return str_format(it, s, args, kw)
            r = getattr(s, name)(*args, **kw)
            if isinstance(r, list):
                return PList(r)
            return r
        return Native(g, name)
    # symbolic strings
    def h(it, args, kw):
        if name in ("replace",):
            a, b = args
            out = []
            for p in s.parts:
                if isinstance(p, str):
                    out.append(p.replace(a, b))
                else:
                    out.append(Piece(p.v, p.spec + f"|{a}>{b}"))
            return mkstr(out)
        if name == "split":
            sep = args[0] if args else None
            if sep is None or len(sep) != 1:
                raise Unsupported("split")
            # numeric pieces never contain the separators used here
            if not all(isinstance(p, str) or (is_scalar(p.v) and sep not in "0123456789.e+-") for p in s.parts):
                raise Unsupported("split of symbolic text")
            toks, cur = [], []
            for p in s.parts:
                if isinstance(p, str):
                    bits = p.split(sep)
                    cur.append(bits[0])
                    for b in bits[1:]:
                        toks.append(mkstr(cur))
                        cur = [b]
                else:
                    cur.append(p)
            toks.append(mkstr(cur))
            return PList(toks)
        if name == "startswith" and isinstance(s.parts[0], str) and isinstance(args[0], str) and len(s.parts[0]) >= len(args[0]):
            return s.parts[0].startswith(args[0])
        if name == "endswith" and isinstance(s.parts[-1], str) and isinstance(args[0], str) and len(s.parts[-1]) >= len(args[0]):
            return s.parts[-1].endswith(args[0])
        if name in ("lower", "upper"):
            return mkstr([getattr(p, name)() if isinstance(p, str) else p for p in s.parts])
        if name in ("removeprefix",) and isinstance(s.parts[0], str) and s.parts[0].startswith(args[0]):
            return mkstr([s.parts[0][len(args[0]):]] + list(s.parts[1:]))
        if name in ("removesuffix",) and isinstance(s.parts[-1], str) and s.parts[-1].endswith(args[0]):
            return mkstr(list(s.parts[:-1]) + [s.parts[-1][:-len(args[0])]])
        raise Unsupported(f"str.{name} of a symbolic string")
    return Native(h, name)

# ------------------------------------------------------------- attributes of values
def nbytes(a):
    return A.prod(a.shape) * (16 if a.dt == "c" else 1 if a.dt == "b" else 8)

def getattr_value(it, o, name):
    from .interp import Native, MISSING, ExtMod, ExtRef
    if isinstance(o, Arr):
        return arr_attr(it, o, name)
    if isinstance(o, Sel):
        if name == "size":
            return num(A.sel_count(o), "i")
        if name == "shape":
            return (num(A.sel_count(o), "i"),)
        if name == "ndim":
            return 1
        if name in ("conj", "conjugate"):
            return Native(lambda i, a, k: A.ufunc(T.conj, o, KS))
        if name == "real":
            return A.ufunc(T.real_part, o, lambda k: "f" if k == "c" else KS(k))
        if name == "imag":
            return A.ufunc(T.imag_part, o, lambda k: "f" if k == "c" else KS(k))
        if name == "sum":
            return Native(lambda i, a, k: A.reduce_sum(o))
        if name in ("any", "all"):
            return Native(lambda i, a, k: A.reduce_any(o, None, "exists" if name == "any" else "forall"))
        if name in ("flatten", "ravel", "copy"):
            return Native(lambda i, a, k: o)
        if name == "reshape":
            return Native(lambda i, a, k: o if a in ((-1,), ((-1,),)) else _uns("reshape"))
        if name == "max":
            return Native(lambda i, a, k: sel_max(i, o, k))
        if name == "item":
            def item(i, a, k):
                w = A.unique_point(o)
                if w is None:
                    raise Unsupported("item of a selection")
                if not i.decide(w[1]):
                    raise PyExc("ValueError", ("can only convert an array of size 1",))
                return A.elem(o.fn(w[0]), o.dt)
            return Native(item)
        return MISSING
    if isinstance(o, ArgW) and o.mask is not None:
        raise Unsupported("argwhere of several dimensions")
    if isinstance(o, ArgW):
        if name in ("reshape", "flatten", "ravel"):
            return Native(lambda i, a, k: o.sel)
        if name == "T":
            return TupleWrap(o.sel)
        return MISSING
    if isinstance(o, RowSel):
        if name == "sum":
            return Native(lambda i, a, k: rowsel_sum(i, o, a, k))
        if name == "shape":
            return (num(A.sel_count(o.sel), "i"),) + tuple(num(d, "i") for d in o.a.shape[1:])
        return MISSING
    if is_scalar(o):
        p = poly(o)
        k = kind(o)
        if name == "real":
            return num(T.real_part(p), "f" if k == "c" else KS(k), isnp(o))
        if name == "imag":
            return num(T.imag_part(p), "f" if k == "c" else KS(k), isnp(o))
        if name in ("conj", "conjugate"):
            return Native(lambda i, a, kw: num(T.conj(p), KS(k), isnp(o)))
        if name == "item":
            return Native(lambda i, a, kw: o)
        if name == "any" or name == "all":
            return Native(lambda i, a, kw: mkbool(formula(o)))
        if name in ("sum", "max", "min", "mean", "copy"):
            return Native(lambda i, a, kw: o)
        if name == "astype":
            return Native(lambda i, a, kw: Num(p, dtype_kind(a[0]), True))
        if name == "shape":
            return ()
        if name == "ndim":
            return 0
        if name == "size":
            return 1
        if name == "dtype":
            return DType(k)
        if name == "is_integer":
            return Native(lambda i, a, kw: mkbool(f_eq(floor_poly(p), p)))
        if name == "numerator" and k == "i":
            return o
        if name == "denominator" and k == "i":
            return 1
        raise PyExc("AttributeError", (name,))
    if isinstance(o, (str, SStr)):
        return string_method(it, o, name)
    if isinstance(o, PList):
        return list_method(it, o, name)
    if isinstance(o, tuple):
        if name == "index":
            return Native(lambda i, a, k: o.index(a[0]))
        if name == "count":
            return Native(lambda i, a, k: o.count(a[0]))
    if isinstance(o, PDict):
        return dict_method(it, o, name)
    if isinstance(o, PathV):
        return path_attr(it, o, name)
    if isinstance(o, RangeV):
        if name == "start":
            return num(o.lo, "i")
        if name == "stop":
            return num(o.hi, "i")
    if isinstance(o, (set, frozenset)):
        if name in ("intersection", "union", "difference", "issubset", "issuperset", "isdisjoint"):
            def setop(i, a, k):
                others = [frozenset(x) if isinstance(x, (set, frozenset)) else frozenset(TextKey(y) if isinstance(y, SStr) else y for y in i.concrete_iter(x)) for x in a]
                for x in others:
                    decidable_sets(o, x)
                return getattr(frozenset(o), name)(*others)
            return Native(setop)
    if isinstance(o, DType):
        if name == "kind":
            return o.k
        if name == "itemsize":
            return 16 if o.k == "c" else 1 if o.k == "b" else 8
    if isinstance(o, Native):
        if name == "__name__":
            return o.name
    if o is None:
        raise PyExc("AttributeError", (f"'NoneType' object has no attribute '{name}'",))
    return MISSING

class TupleWrap:
    def __init__(self, sel):
        self.sel = sel

def _uns(w):
    raise Unsupported(w)

def rowsel_sum(it, o, a, k):
    ax = k.get("axis", a[0] if a else None)
    if ax == 0:
        rv = A.rowsel_values(o)
        s = o.sel
        def fn(idx):
            syms = [T.fresh("s") for _ in s.dom]
            body = iv(s.pred(tuple(syms))) * rv.fn(tuple(syms), tuple(idx))
            for v, n in reversed(list(zip(syms, s.dom))):
                body = T.Sum0(v, n, body)
            return body
        return new_arr(o.a.shape[1:], rv.dt, fn)
    raise Unsupported("sum of selected rows")

def selmax_app(dom, lam, init):
    return T.app("selmax", (dom, init), "I", (lam,))

def sel_max(it, s, kw):
    """largest element of an index selection (identity elements), or `initial`"""
    v = T.fresh("w")
    if len(s.dom) != 1 or s.fn((v,)) != v:
        raise Unsupported("max of a selection")
    init = kw.get("initial")
    if init is None:
        ex = A.quant_formula("exists", s.dom, lambda q: s.pred(q))
        if not it.decide(ex):
            raise PyExc("ValueError", ("zero-size array",))
        init = -1
    w = T.fresh("w")
    lam = T.mk_lam([w], iv(s.pred((w,))))
    return num(selmax_app(s.dom[0], lam, as_int(init)), "i", True)

def _selmax_ax(a):
    n, init = a.data[1]
    lam = a.data[2][0]
    r = P(a)
    at = T.app_lam(lam, (r,))
    return [f_ge(r - init), f_or(f_eq(r, init), f_and(f_ge(r), f_gt(n - r), f_eq(at, 1)))]
SV.AXIOMS["selmax"] = _selmax_ax

def arr_attr(it, o, name):
    from .interp import Native, MISSING
    N = lambda f: Native(f, name)
    if name == "shape":
        return tuple(num(d, "i") for d in o.shape)
    if name == "T":
        return A.transpose(o)
    if name == "ndim":
        return len(o.shape)
    if name == "size":
        return num(A.prod(o.shape), "i")
    if name == "dtype":
        return DType(o.dt)
    if name == "nbytes":
        return num(nbytes(o), "i")
    if name == "itemsize":
        return 16 if o.dt == "c" else 1 if o.dt == "b" else 8
    if name == "real" and o.dt != "c":
        return o
    if name in ("real", "imag") and o.dt == "c":
        return A.part(o, name)
    if name == "imag":
        return A.ufunc(T.imag_part, o, lambda k: "f" if k == "c" else KS(k))
    if name in ("conj", "conjugate"):
        return N(lambda i, a, k: A.ufunc(T.conj, o, KS))
    if name in ("sum", "any", "all", "mean", "max", "min", "trace", "argsort", "argmin", "argmax", "cumsum", "prod"):
        return N(lambda i, a, k: MODELS["numpy." + name](i, (o,) + tuple(a), k))
    if name in ("flatten", "ravel"):
        def flat(i, a, k):
            if a or k:
                raise Unsupported("flatten order")
            if name == "flatten":
                v = A.reshape(o, (-1,))
                r = A.copy(v)
                if isinstance(v.tag, tuple) and v.tag[0] == "flat2":
                    r.tag = ("flat2", A.copy(o), None, r.cell.fn)     # while r holds what it was made with
                return r
            return A.reshape(o, (-1,))
        return N(flat)
    if name == "reshape":
        def rs(i, a, k):
            if k:
                raise Unsupported("reshape order")
            s = a[0] if len(a) == 1 and isinstance(a[0], (tuple, PList)) else a
            s = tuple(s.items) if isinstance(s, PList) else tuple(s)
            return A.reshape(o, s)
        return N(rs)
    if name == "copy":
        return N(lambda i, a, k: A.copy(o))
    if name == "astype":
        return N(lambda i, a, k: A.copy(o, dtype_kind(a[0] if a else k["dtype"])))
    if name == "transpose":
        return N(lambda i, a, k: A.transpose(o, *([tuple(a)] if a and type(a[0]) is int else a)))
    if name == "tolist":
        def tl(i, a, k):
            n = o.shape[0]
            if n.is_int_const():
                return PList([A.getitem(o, j) for j in range(n.const()[0])])
            return PList(None, n, lambda j: A.getitem(o, num(P(j), "i")))
        return N(tl)
    if name == "fill":
        return N(lambda i, a, k: A.setitem(o, SliceV(None, None, None), a[0]))
    if name == "dot":
        return N(lambda i, a, k: np_dot(i, (o,) + tuple(a), k))
    if name == "item":
        return N(lambda i, a, k: A.elem(o.fn()(tuple(P(0) for _ in o.shape)), o.dt))
    if name == "squeeze":
        return N(lambda i, a, k: np_squeeze(i, (o,), k))
    if name == "nonzero":
        return N(lambda i, a, k: np_nonzero(i, (o,), k))
    if name == "diagonal":
        return N(lambda i, a, k: np_diag(i, (o,), k))
    if name == "round":
        return N(lambda i, a, k: np_round(i, (o,) + tuple(a), k))
    if name == "sort":
        def srt(i, a, k):
            r = np_sort(i, (o,), {})
            A.write_all(o, r.fn())
        return N(srt)
    if name == "flat":
        return A.reshape(o, (-1,))
    if name in ("clip", "std", "var", "swapaxes", "compress", "choose"):
        def pre(i, a, k):
            if name in ("compress", "choose"):
                raise Unsupported(name)
            return i.call(i.prelude("numpy." + name), (o,) + tuple(a), k)
        return N(pre)
    if name in ("repeat", "take"):
        return N(lambda i, a, k: MODELS["numpy." + name](i, (o,) + tuple(a), k))
    if name == "base" or name == "flags" or name == "data":
        return Obj("opaque")
    return MISSING

def list_method(it, o, name):
    from .interp import Native, MISSING
    def g(i, a, k):
        if name == "append":
            if o.items is None:
                c = concat_lists(PList(None, o.n, o.fn), PList([a[0]]))
                i.set_list(o, None, c.n, c.fn)
                return None
            i.set_list(o, o.items + [a[0]])
        elif name == "extend":
            x = i.to_iter(a[0])
            if o.items is None:
                c = concat_lists(PList(None, o.n, o.fn), PList(None, x.n, x.fn) if isinstance(x, IterV) else PList(list(x)))
                i.set_list(o, None, c.n, c.fn)
            elif isinstance(x, IterV):
                i.sym_loop(x.n, lambda k: i.set_list(o, o.items + [x.fn(k)]))
            else:
                i.set_list(o, o.items + x)
        elif name == "copy":
            return PList(list(o.items)) if o.items is not None else PList(None, o.n, o.fn)
        elif name == "index":
            for j, x in enumerate(o.items):
                if i.truth(compare("==", x, a[0])):
                    return j
            raise PyExc("ValueError", ())
        elif name == "pop":
            its = list(o.items)
            r = its.pop(*[x for x in a])
            i.set_list(o, its)
            return r
        elif name == "remove":
            if o.items is None:
                raise Unsupported("list.remove")
            for j, x in enumerate(o.items):
                if i.truth(compare("==", x, a[0])):
                    i.set_list(o, o.items[:j] + o.items[j + 1:])
                    return None
            raise PyExc("ValueError", ("list.remove(x): x not in list",))
        elif name in ("index", "pop", "insert", "count", "reverse") and o.items is None:
            raise Unsupported(f"list.{name} of a symbolic list")
        elif name == "insert":
            its = list(o.items)
            its.insert(a[0], a[1])
            i.set_list(o, its)
        elif name == "count":
            return sum(1 for x in o.items if x == a[0])
        elif name == "reverse":
            i.set_list(o, list(reversed(o.items)))
        elif name == "clear":
            i.set_list(o, [])
        else:
            raise Unsupported(f"list.{name}")
    return Native(g, name)

def dict_method(it, o, name):
    from .interp import Native
    def g(i, a, k):
        if o.memo is not None or (a and isinstance(a[0], Num)):
            if name == "get":
                if o.memo is None or len(a) > 1:
                    pass
                return a[1] if len(a) > 1 else None
            if name == "setdefault" and len(a) == 2:
                kp = as_int(a[0])
                if not (o.memo is not None and o.memo[2] is not None and kp in o.memo[2]):
                    i.dict_set(o, a[0], a[1])
                from .interp import value_subst
                return value_subst(o.memo[1], {o.memo[0]: kp})
            raise Unsupported(f"memo dict.{name}")
        if name == "items":
            return PList([(kk, v) for kk, v in o.d.items()])
        if name == "keys":
            return PList(list(o.d))
        if name == "values":
            return PList(list(o.d.values()))
        if name == "get":
            return o.d.get(i.hashkey(a[0]), a[1] if len(a) > 1 else None)
        if name == "copy":
            return PDict(dict(o.d))
        if name == "update":
            d = dict(o.d)
            if a:
                d.update(a[0].d)
            d.update(k)
            i.set_dict(o, d)
            return None
        if name == "setdefault":
            kk = i.hashkey(a[0])
            if kk not in o.d:
                d = dict(o.d)
                d[kk] = a[1] if len(a) > 1 else None
                i.set_dict(o, d)
            return o.d[kk]
        if name == "pop":
            kk = i.hashkey(a[0])
            if kk not in o.d:
                if len(a) > 1:
                    return a[1]
                raise PyExc("KeyError", (kk,))
            d = dict(o.d)
            r = d.pop(kk)
            i.set_dict(o, d)
            return r
        raise Unsupported(f"dict.{name}")
    return Native(g, name)

def path_attr(it, o, name):
    from .interp import Native
    if name == "mkdir":
        return Native(lambda i, a, k: None)
    if name == "resolve":
        return Native(lambda i, a, k: o)
    if name == "exists":
        def ex(i, a, k):
            if i.io is None:
                raise Unsupported("Path.exists")
            return i.io.exists(i, o)
        return Native(ex)
    if name == "parent":
        if isinstance(o.s, str) and "/" in o.s:
            return PathV(o.s.rsplit("/", 1)[0])
        raise Unsupported("Path.parent")
    if name == "name":
        if isinstance(o.s, str):
            return o.s.rsplit("/", 1)[-1]
    if name == "stem" and isinstance(o.s, str):
        return o.s.rsplit("/", 1)[-1].rsplit(".", 1)[0]
    if name == "suffix" and isinstance(o.s, str):
        x = o.s.rsplit("/", 1)[-1]
        return "." + x.rsplit(".", 1)[1] if "." in x[1:] else ""
    if name in ("glob", "iterdir"):
        def glob(i, a, k):
            import os, fnmatch
            from . import interp
            if not isinstance(o.s, str) or not o.s.startswith(os.path.join(interp.REPO_SRC, "")) or any(not isinstance(x, str) or "/" in x or "**" in x for x in a) or not os.path.isdir(o.s):
                raise Unsupported("Path.glob")
            it.assumptions.add("files of the package's own data directory are those of the tree; their order is the name order")
            return PList([PathV(o.s + "/" + f) for f in sorted(os.listdir(o.s)) if not a or fnmatch.fnmatchcase(f, a[0])])
        return Native(glob)
    if name == "joinpath":
        def jp(i, a, k):
            r = o
            for x in a:
                r = binop("/", r, x)
            return r
        return Native(jp)
    if name == "open":
        return Native(lambda i, a, k: path_open(i, [o, *a], k))
    raise Unsupported(f"Path.{name}")

def obj_attr(it, o, name):
    """attributes of opaque model objects"""
    from .interp import Native, MISSING
    if o.cls == "rng":
        return rng_method(it, o, name)
    if o.cls == "pool":
        if name == "map":
            return Native(lambda i, a, k: pool_map(i, o, a, k))
        if name == "submit":
            return Native(lambda i, a, k: pool_submit(i, o, a, k))
        if name == "shutdown":
            return Native(lambda i, a, k: None)
    if o.cls == "future":
        if name == "result":
            return Native(lambda i, a, k: o.f["value"])
        if name == "exception":
            return Native(lambda i, a, k: None)
    if o.cls == "shm":
        if name in ("close", "unlink"):
            return Native(lambda i, a, k: None)
    if o.cls == "fraction":
        return fraction_attr(it, o, name)
    if o.cls == "pooch":
        return pooch_attr(it, o, name)
    return MISSING

# ------------------------------------------------------------- arguments a model does not look at
HARMLESS = {"optimize", "max_workers", "copy", "order", "allow_pickle", "kind"}

def _guard():
    """A model that does not check its arguments itself refuses those it never mentions: an option nobody modelled is
    an unsupported construct, not the default behaviour."""
    import ast
    with open(__file__) as f:
        tree = ast.parse(f.read())
    for n in ast.walk(tree):
        if not isinstance(n, ast.FunctionDef) or [a.arg for a in n.args.args] != ["it", "args", "kw"]:
            continue
        names = [a.value for d in n.decorator_list if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == "model"
                 for a in d.args if isinstance(a, ast.Constant)]
        if not names:
            continue
        allowed, top, whole = set(), 0, False
        for x in ast.walk(n):
            if isinstance(x, ast.Call):
                fn = ast.unparse(x.func)
                if fn == "_args" or fn == "set" and x.args and ast.unparse(x.args[0]) == "kw":
                    break
                if fn == "_axis":
                    allowed.add("axis")
                    top = max(top, (x.args[2].value if len(x.args) > 2 else 1) + 1)
                if fn == "kw.get" and isinstance(x.args[0], ast.Constant):
                    allowed.add(x.args[0].value)
                if any(isinstance(y, ast.Name) and y.id == "kw" for y in x.args):
                    whole = True
            elif isinstance(x, ast.Dict) and any(k is None and isinstance(v, ast.Name) and v.id == "kw" for k, v in zip(x.keys, x.values)):
                whole = True
            elif isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == "kw" and isinstance(x.slice, ast.Constant):
                allowed.add(x.slice.value)
            elif isinstance(x, ast.If) and ast.unparse(x.test) in ("kw",) or isinstance(x, ast.BoolOp) and any(ast.unparse(v) == "kw" for v in x.values):
                break
        else:
            if whole:
                continue
            idx = [x.slice for x in ast.walk(n) if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == "args"]
            ok = all(isinstance(x, ast.Constant) for x in idx)
            if not idx and not allowed and not any(isinstance(x, ast.Name) and x.id in ("args", "kw") for x in ast.walk(n)):
                continue        # an opaque value, whatever the arguments
            bare = [x for x in ast.walk(n) if isinstance(x, ast.Name) and x.id == "args"]
            unpack = [len(x.targets[0].elts) for x in ast.walk(n) if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and x.value.id == "args" and isinstance(x.targets[0], ast.Tuple)]
            lens = sum(1 for x in ast.walk(n) if isinstance(x, ast.Call) and ast.unparse(x) == "len(args)")
            if not ok or len(bare) - lens > len(idx) + len(unpack) + (top > 0):
                limit = None
            else:
                limit = max([top] + [x.value + 1 for x in idx] + unpack)
            for nm in names:
                MODELS[nm] = _guarded(nm, MODELS[nm], frozenset(allowed), limit)

def _guarded(name, f, allowed, limit):
    def g(it, args, kw):
        if kw and not set(kw) <= allowed | HARMLESS:
            raise Unsupported(f"{name} keywords {sorted(set(kw) - allowed)}")
        if limit is not None and len(args) > limit:
            raise Unsupported(f"{name} with {len(args)} arguments")
        return f(it, args, kw)
    return g

_guard()
