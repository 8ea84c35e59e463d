"""Values of the symbolic interpreter."""
from __future__ import annotations

from fractions import Fraction
import itertools as _it

from . import terms as T
from .terms import (P, Poly, Formula, TRUE, FALSE, f_not, f_and, f_or, f_ge, f_gt, f_eq, f_le, f_lt,
                    iv, ite, subst)

class Unsupported(Exception):
    """outside the verified subset: the obligation is not decided"""

class PyExc(Exception):
    """an exception raised by the interpreted program"""

    def __init__(self, name, args=()):
        super().__init__(name)
        self.name, self.vals = name, args

_ids = _it.count(1)

KORD = {"b": 0, "i": 1, "f": 2, "c": 3}
SORT = {"b": "I", "i": "I", "f": "R", "c": "C"}

def kmax(a, b):
    return a if KORD[a] >= KORD[b] else b

CTX = [None]

def ctx():
    return CTX[0]

class Num:
    """exact scalar; k in i,f,c ; np: numpy scalar (division by zero does not raise)"""
    __slots__ = ("p", "k", "np")

    def __init__(self, p, k, np=False):
        self.p, self.k, self.np = P(p), k, np

    def __repr__(self):
        return f"Num<{self.k}>({self.p!r})"

    # operators for specifications written in Python
    def __add__(self, o): return binop("+", self, o)
    def __radd__(self, o): return binop("+", o, self)
    def __sub__(self, o): return binop("-", self, o)
    def __rsub__(self, o): return binop("-", o, self)
    def __mul__(self, o): return binop("*", self, o)
    def __rmul__(self, o): return binop("*", o, self)
    def __truediv__(self, o): return binop("/", self, o)
    def __rtruediv__(self, o): return binop("/", o, self)
    def __floordiv__(self, o): return binop("//", self, o)
    def __rfloordiv__(self, o): return binop("//", o, self)
    def __mod__(self, o): return binop("%", self, o)
    def __rmod__(self, o): return binop("%", o, self)
    def __pow__(self, o): return binop("**", self, o)
    def __rpow__(self, o): return binop("**", o, self)
    def __neg__(self): return Num(-self.p, self.k, self.np)
    def __abs__(self): return Num(T.mk_abs(self.p), "f" if self.k == "c" else self.k, self.np)
    def __lt__(self, o): return compare("<", self, o)
    def __le__(self, o): return compare("<=", self, o)
    def __gt__(self, o): return compare(">", self, o)
    def __ge__(self, o): return compare(">=", self, o)
    def __eq__(self, o): return compare("==", self, o)
    def __ne__(self, o): return compare("!=", self, o)
    __hash__ = object.__hash__
    def __bool__(self):
        return ctx().decide(f_not(f_eq(self.p, 0)))

class Bool:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __repr__(self):
        return f"Bool({self.f!r})"

    def __and__(self, o): return mkbool(f_and(self.f, formula(o)))
    __rand__ = __and__
    def __or__(self, o): return mkbool(f_or(self.f, formula(o)))
    __ror__ = __or__
    def __invert__(self): return mkbool(f_not(self.f))
    def __bool__(self): return ctx().decide(self.f)
    def __mul__(self, o): return binop("*", self, o)
    __rmul__ = __mul__
    def __add__(self, o): return binop("+", self, o)
    __radd__ = __add__
    def __rsub__(self, o): return binop("-", o, self)
    def __sub__(self, o): return binop("-", self, o)

def mkbool(f):
    if f.op == "true":
        return True
    if f.op == "false":
        return False
    return Bool(f)

def formula(v):
    """truth of a scalar value"""
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, Bool):
        return v.f
    if isinstance(v, Formula):
        return v
    if isinstance(v, int):
        return TRUE if v else FALSE
    if isinstance(v, Num):
        return f_not(f_eq(v.p, 0))
    if v is None:
        return FALSE
    if isinstance(v, (str, tuple)):
        return TRUE if v else FALSE
    raise Unsupported(f"truth of {type(v).__name__}")

def is_scalar(v):
    return isinstance(v, (bool, int, float, complex, Num, Bool, Fraction))

def poly(v):
    if isinstance(v, Num):
        return v.p
    if isinstance(v, bool):
        return P(int(v))
    if isinstance(v, int):
        return P(v)
    if isinstance(v, Bool):
        return iv(v.f)
    if isinstance(v, (float, complex, Fraction)):
        return P(v)
    if isinstance(v, Poly):
        return v
    if isinstance(v, Formula):
        return iv(v)
    raise Unsupported(f"not a scalar: {type(v).__name__}")

def kind(v):
    if isinstance(v, (bool, Bool)):
        return "b"
    if isinstance(v, int):
        return "i"
    if isinstance(v, Num):
        return v.k
    if isinstance(v, (float, Fraction)):
        return "f"
    if isinstance(v, complex):
        return "c"
    if isinstance(v, Arr):
        return v.dt
    raise Unsupported(f"kind of {type(v).__name__}")

def isnp(v):
    return isinstance(v, Num) and v.np

def num(p, k, np=False):
    """scalar value, concrete Python int when possible"""
    p = P(p)
    if k in ("b", "i"):
        if p.is_int_const():
            return p.const()[0]
        return Num(p, "i", np)
    return Num(p, k, np)

def as_int(v):
    """Poly of an integer-valued index"""
    if isinstance(v, (bool, int)):
        return P(int(v))
    if isinstance(v, Num) and v.k == "i":
        return v.p
    if isinstance(v, Bool):
        return iv(v.f)
    raise PyExc("TypeError", ("index must be an integer",)) if isinstance(v, Num) else Unsupported(f"index {type(v).__name__}")

# ---------------------------------------------------------------- scalar arithmetic
T_IDIV = "idiv"

def idiv(a, b):
    """floor division of integers (polys)"""
    a, b = P(a), P(b)
    if a.is_int_const() and b.is_int_const() and not b.is_zero():
        return P(a.const()[0] // b.const()[0])
    if b.is_int_const() and b.const()[0] > 0:
        n = b.const()[0]
        q, r = {}, {}
        for m, c in a.d.items():
            if type(c[0]) is int:
                d, mm = divmod(c[0], n)
                if d:
                    q[m] = (d, 0)
                if mm:
                    r[m] = (mm, 0)
        rest = Poly(r)
        if rest.is_const():
            return Poly(q)
        return Poly(q) + T.app("idiv", (rest, b), "I")
    return T.app("idiv", (a, b), "I")

def imod(a, b):
    return P(a) - P(b) * idiv(a, b)

T.REBUILD["idiv"] = lambda args, sort, lams: idiv(*args)

def int_pow_sign(e):
    return T.mk_sgn(e)

def binop(op, a, b):
    if isinstance(a, Arr) or isinstance(b, Arr):
        from . import arrays
        return arrays.arr_binop(op, a, b)
    if isinstance(a, Sel) or isinstance(b, Sel):
        from . import arrays
        return arrays.sel_binop(op, a, b)
    if not is_scalar(a) or not is_scalar(b):
        return py_binop(op, a, b)
    if type(a) in (int, bool) and type(b) in (int, bool):
        return int_binop(op, a, b)
    p, q = poly(a), poly(b)
    k = kmax(kind(a), kind(b))
    np = isnp(a) or isnp(b)
    r, k = scalar_op(op, p, q, k, np, kind(a), kind(b))
    if k == "b":
        return mkbool(f_not(f_eq(r, 0))) if not isinstance(r, Formula) else mkbool(r)
    return num(r, k, np)

def int_binop(op, a, b):
    if op == "+": return a + b
    if op == "-": return a - b
    if op == "*": return a * b
    if op in ("//", "%") and b == 0:
        raise PyExc("ZeroDivisionError", ())
    if op == "//": return a // b
    if op == "%": return a % b
    if op == "/":
        if b == 0:
            raise PyExc("ZeroDivisionError", ())
        return Num(Fraction(a, b), "f")
    if op == "**":
        if b >= 0:
            return a ** b
        return Num(Fraction(1, a ** (-b)), "f")
    if op == "&": return a & b
    if op == "|": return a | b
    if op == "^": return a ^ b
    if op == "<<": return a << b
    if op == ">>": return a >> b
    raise Unsupported(f"operator {op}")

def scalar_op(op, p, q, k, np, ka, kb):
    """(poly, kind) of p op q"""
    if op == "+":
        return p + q, ("i" if k == "b" else k)
    if op == "-":
        return p - q, ("i" if k == "b" else k)
    if op == "*":
        return p * q, ("i" if k == "b" else k)
    if op == "/":
        if not np:
            if ctx().decide(f_eq(q, 0)):
                raise PyExc("ZeroDivisionError", ())
        if q.is_zero():
            raise Unsupported("numpy division by the constant zero")
        return p * T.inv(q), ("c" if k == "c" else "f")
    if op == "//":
        if k in ("b", "i"):
            if not np and ctx().decide(f_eq(q, 0)):
                raise PyExc("ZeroDivisionError", ())
            return idiv(p, q), "i"
        return floor_poly(p * T.inv(q)), "f"
    if op == "%":
        if k in ("b", "i"):
            if not np and ctx().decide(f_eq(q, 0)):
                raise PyExc("ZeroDivisionError", ())
            return imod(p, q), "i"
        return p - q * floor_poly(p * T.inv(q)), "f"
    if op == "**":
        return power(p, q, ka, kb, np)
    if op == "&" and k == "b":
        return f_and(f_not(f_eq(p, 0)), f_not(f_eq(q, 0))), "b"
    if op == "|" and k == "b":
        return f_or(f_not(f_eq(p, 0)), f_not(f_eq(q, 0))), "b"
    if op in ("&", "<<", ">>") and k == "i":
        if op == "&" and not q.is_int_const():
            p, q = q, p
        if q.is_int_const():
            n = int(q.const()[0])
            if op == "&" and n >= 0 and n & (n + 1) == 0:
                return imod(p, P(n + 1)), "i"     # the lowest bits
            if op != "&" and 0 <= n < 64:
                return (p * 2 ** n if op == "<<" else idiv(p, P(2 ** n))), "i"
    raise Unsupported(f"operator {op} on symbolic scalars")

def power(p, q, ka, kb, np):
    if q.is_int_const():
        n = q.const()[0]
        if 0 <= n <= 12:
            return p ** n, ("i" if KORD[ka] <= 1 and KORD[kb] <= 1 else kmax(ka, kb))
        if -12 <= n < 0:
            if not np and ctx().decide(f_eq(p, 0)):
                raise PyExc("ZeroDivisionError", ())
            return T.inv(p) ** (-n), kmax("f", kmax(ka, kb))
    if q.is_const() and q.const() == (Fraction(1, 2), 0):
        return T.mk_sqrt(p, ctx().facts.nonneg), kmax("f", kmax(ka, kb))
    if p.is_const():
        c = p.const()
        if q.sort == "I" and c == (-1, 0):
            nonneg = ctx().facts.nonneg(q)
            return T.mk_sgn(q), ("i" if KORD[ka] <= 1 and nonneg else kmax("f", kmax(ka, kb)))
        if q.sort == "I" and c in ((0, -1), (0, 1)):
            s = 1 if c == (0, 1) else -1
            return T.mk_exp(T.IMAG * T.PI_ * q * Fraction(s, 2)), "c"
        if c == (1, 0):
            return P(1), kmax(ka, kb)
        if c[1] == 0 and c[0] > 0:
            return T.mk_exp(q * T.mk_log(p)), kmax("f", kmax(ka, kb))
        if c == (-1, 0):
            return T.mk_exp(T.IMAG * T.PI_ * q), "c"
    if p.sort != "C" and ctx().facts.entails(f_gt(p)):
        return T.mk_exp(q * T.mk_log(p)), kmax("f", kmax(ka, kb))
    return T.app("pow", (p, q), "C" if kmax(ka, kb) == "c" else "R"), kmax("f", kmax(ka, kb))

def floor_poly(p):
    p = P(p)
    if p.sort == "I":
        return p
    if p.is_const():
        import math
        return P(math.floor(p.const()[0]))
    # pull out integer part
    ints = {m: c for m, c in p.d.items() if Poly({m: c}).sort == "I"}
    rest = p - Poly(ints)
    return Poly(ints) + T.app("floor", (rest,), "I")

T.REBUILD["floor"] = lambda args, sort, lams: floor_poly(args[0])

def compare(op, a, b):
    if isinstance(a, Arr) or isinstance(b, Arr):
        from . import arrays
        return arrays.arr_compare(op, a, b)
    if isinstance(a, Sel) or isinstance(b, Sel):
        from . import arrays
        return arrays.sel_compare(op, a, b)
    if is_scalar(a) and is_scalar(b):
        if op not in ("==", "!=") and "c" in (kind(a), kind(b)) and not (isnp(a) or isnp(b)):
            raise PyExc("TypeError", ("ordering of complex numbers",))
        return mkbool(cmp_formula(op, poly(a), poly(b)))
    return py_compare(op, a, b)

def cmp_formula(op, p, q):
    if op == "==":
        return f_eq(p, q)
    if op == "!=":
        return f_not(f_eq(p, q))
    if p.sort == "C" or q.sort == "C":
        # numpy orders complex numbers by real part, then by imaginary part
        if op in (">", ">="):
            return cmp_formula({">": "<", ">=": "<="}[op], q, p)
        x, y, u, v = T.real_part(p), T.real_part(q), T.imag_part(p), T.imag_part(q)
        return T.f_or(f_gt(y - x), T.f_and(f_eq(x, y), f_gt(v - u) if op == "<" else f_ge(v - u)))
    if op == "<":
        return f_gt(q - p)
    if op == "<=":
        return f_ge(q - p)
    if op == ">":
        return f_gt(p - q)
    if op == ">=":
        return f_ge(p - q)
    raise Unsupported(op)

def concat_lists(a, b):
    """a + b where one of them has a symbolic length"""
    from .loops import merge_values
    na, nb = a.length(), b.length()
    fa, fb = list_fn(a), list_fn(b)
    def at(k):
        k = P(k)
        d = na - k
        c = f_gt(d)
        if c.op == "true":
            return fa(k)
        if c.op == "false":
            return fb(k - na)
        facts = ctx().facts
        out = []
        for g, f, i in ((c, fa, k), (f_not(c), fb, k - na)):
            mark = facts.mark()
            facts.push(g)
            try:
                out.append(([g], f(i)))
            finally:
                facts.pop(mark)
        return merge_values(out)
    if a.items is not None and not a.items:
        at = fb
    elif b.items is not None and not b.items:
        at = fa
    return PList(None, na + nb, at)

def list_fn(a):
    if a.items is None:
        return a.fn
    from .loops import merge_values
    its = list(a.items)
    def at(k):
        k = P(k)
        if k.is_int_const() and 0 <= k.const()[0] < len(its):
            return its[k.const()[0]]
        if len(its) == 1:
            return its[0]
        return merge_values([([f_eq(k, i)], x) for i, x in enumerate(its)])
    return at

def py_binop(op, a, b):
    if op == "/" and isinstance(a, PathV):
        return PathV(SStr.cat(SStr.cat(a.s, "/"), b.s if isinstance(b, PathV) else b))
    if isinstance(a, SStr) or isinstance(b, SStr):
        if op == "+":
            return SStr.cat(a, b)
        raise Unsupported("string operator")
    if isinstance(a, str) and isinstance(b, str) and op == "+":
        return a + b
    if isinstance(a, str) and type(b) is int and op == "*":
        return a * b
    if op == "+" and isinstance(a, PList) and isinstance(b, PList):
        if a.items is None or b.items is None:
            return concat_lists(a, b)
        return PList(a.items + b.items)
    if op == "+" and isinstance(a, tuple) and isinstance(b, tuple):
        return a + b
    if op == "*" and isinstance(a, PList) and type(b) is int and a.items is not None:
        return PList(a.items * b)
    if op == "*" and type(a) is int and isinstance(b, PList) and b.items is not None:
        return PList(a * b.items)
    if op == "*" and isinstance(a, PList) and a.items is not None and len(a.items) == 1 and isinstance(b, Num) and b.k == "i":
        n = poly(b)
        if not ctx().decide(f_ge(n)):
            return PList([])
        return PList(None, n, lambda k: a.items[0])
    if op == "*" and isinstance(a, tuple) and type(b) is int:
        return a * b
    if op == "*" and type(a) is int and isinstance(b, tuple):
        return a * b
    if op == "&" and isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        decidable_sets(a, b)
        return a & b
    if op == "|" and isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        decidable_sets(a, b)
        return a | b
    if op == "-" and isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        decidable_sets(a, b)
        return a - b
    if op == "|" and isinstance(a, PDict) and isinstance(b, PDict) and a.memo is None and b.memo is None:
        return PDict(a.d | b.d)
    if op == "|" and any(isinstance(x, (PDict, PList, Arr)) for x in (a, b)):
        raise Unsupported("operator |")
    if op == "|":   # typing unions
        return None
    raise Unsupported(f"{op} on {type(a).__name__}, {type(b).__name__}")

def py_compare(op, a, b):
    if isinstance(a, SStr) or isinstance(b, SStr):
        if op in ("==", "!="):
            r = sstr_eq(a, b)
            return r if op == "==" else mkbool(f_not(formula(r)))
        raise Unsupported("string ordering")
    if op in ("==", "!="):
        if isinstance(a, (tuple,)) and isinstance(b, (tuple,)):
            if len(a) != len(b):
                return op == "!="
            f = TRUE
            for x, y in zip(a, b):
                f = f_and(f, formula(compare("==", x, y)))
            return mkbool(f if op == "==" else f_not(f))
        if isinstance(a, PList) and isinstance(b, PList) and a.items is not None and b.items is not None:
            return py_compare(op, tuple(a.items), tuple(b.items))
        for x in (a, b):
            if isinstance(x, (set, frozenset)) and any(isinstance(t, TextKey) for t in x):
                raise Unsupported("comparison of sets of symbolic texts")
        if isinstance(a, (str, type(None), set, frozenset)) or isinstance(b, (str, type(None), set, frozenset)):
            return (a == b) if op == "==" else (a != b)
        if type(a) in (Obj, PDict) or type(b) in (Obj, PDict):
            return (a is b) if op == "==" else (a is not b)
    if isinstance(a, str) and isinstance(b, str):
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
    if op in ("<=", "<", ">", ">=") and isinstance(a, (set, frozenset)):
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
    raise Unsupported(f"{op} on {type(a).__name__}, {type(b).__name__}")

# ------------------------------------------------------------------------- strings
class SStr:
    """string built from literal pieces and formatted symbolic values"""
    __slots__ = ("parts",)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.parts = tuple(out)

    @staticmethod
    def of(v):
        if isinstance(v, SStr):
            return v.parts
        if isinstance(v, str):
            return (v,)
        raise Unsupported("not a string")

    @staticmethod
    def cat(a, b):
        return mkstr(SStr.of(a) + SStr.of(b))

    def __repr__(self):
        return "SStr" + repr(self.parts)

class TextKey:
    """set element: a text containing a rendered number; different from any text without a digit"""
    __slots__ = ("s",)

    def __init__(self, s):
        if not any(not isinstance(p, str) and is_scalar(p.v) for p in s.parts):
            raise Unsupported("symbolic text as a set element")
        self.s = s

def decidable_sets(a, b):
    for x, y in ((a, b), (b, a)):
        if any(isinstance(t, TextKey) for t in x):
            for u in y:
                if isinstance(u, TextKey) or isinstance(u, str) and any(ch.isdigit() for ch in u) or not isinstance(u, str):
                    raise Unsupported("set operation on symbolic texts")

def mkstr(parts):
    s = SStr(parts)
    if not s.parts:
        return ""
    if len(s.parts) == 1 and isinstance(s.parts[0], str):
        return s.parts[0]
    return s

class Piece:
    """formatted value inside a symbolic string"""
    __slots__ = ("v", "spec")

    def __init__(self, v, spec=""):
        self.v, self.spec = v, spec

    def key(self):
        return (poly(self.v) if is_scalar(self.v) else id(self.v), self.spec)

    def __repr__(self):
        return "{" + repr(self.v) + (":" + self.spec if self.spec else "") + "}"

def _digit(c):
    return c.isdigit() or c == "-"


def same(a, b):
    """formula: the two file names are the same; integers are rendered injectively when no digit follows them"""
    x, y = list(SStr.of(a)), list(SStr.of(b))
    f = TRUE
    while x and y:
        u, v = x[0], y[0]
        if isinstance(u, str) and isinstance(v, str):
            n = 0
            while n < min(len(u), len(v)) and u[n] == v[n]:
                n += 1
            if n < min(len(u), len(v)):
                return FALSE
            x[0], y[0] = u[n:], v[n:]
            x, y = [p for p in x if p != ""], [p for p in y if p != ""]
            continue
        if isinstance(u, Piece) and isinstance(v, Piece):
            for p, rest in ((u, x[1:]), (v, y[1:])):
                if p.spec or not is_scalar(p.v) or poly(p.v).sort != "I":
                    if u.key() == v.key():
                        continue
                    raise Unsupported("comparison of file names with non-integer parts")
                if rest and (isinstance(rest[0], Piece) or rest[0][:1].isdigit()):
                    raise Unsupported("comparison of file names whose parts run together")
            if u.key() != v.key():
                f = f_and(f, f_eq(poly(u.v), poly(v.v)))
            x, y = x[1:], y[1:]
            continue
        p, s, rest = (u, v, x) if isinstance(u, Piece) else (v, u, y)
        if is_scalar(p.v) and poly(p.v).sort == "I" and not _digit(s[0]):
            return FALSE
        # an integer against literal digits
        k = 1 if s[0] == "-" else 0
        while k < len(s) and s[k].isdigit():
            k += 1
        if p.spec or not is_scalar(p.v) or poly(p.v).sort != "I" or s[:k] in ("", "-") or str(int(s[:k])) != s[:k]:
            raise Unsupported("comparison of file names of different structure")
        if k == len(s) and len(x if rest is y else y) > 1:
            raise Unsupported("comparison of file names whose parts run together")
        f = f_and(f, f_eq(poly(p.v), poly(int(s[:k]))))
        if isinstance(u, Piece):
            x, y[0] = x[1:], s[k:]
        else:
            y, x[0] = y[1:], s[k:]
        x, y = [q for q in x if q != ""], [q for q in y if q != ""]
    return FALSE if x or y else f

def sstr_eq(a, b, to_prove=False):
    """equality of texts; as an obligation, equal skeletons with equal parts are sufficient"""
    if not isinstance(a, (str, SStr)) or not isinstance(b, (str, SStr)):
        return False
    x, y = SStr.of(a), SStr.of(b)
    if to_prove and len(x) == len(y):
        f = TRUE
        for u, v in zip(x, y):
            if isinstance(u, str) and u == v:
                continue
            if isinstance(u, Piece) and isinstance(v, Piece) and u.spec == v.spec and is_scalar(u.v) and is_scalar(v.v):
                f = f_and(f, f_eq(poly(u.v), poly(v.v)))
                continue
            if isinstance(u, Piece) and isinstance(v, Piece) and u.key() == v.key():
                continue
            break
        else:
            return mkbool(f)
    return mkbool(same(a, b))

class PathV:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return f"Path({self.s!r})"

# ------------------------------------------------------------------------ containers
class PList:
    """Python list; items concrete, or symbolic (n, fn) when items is None"""
    __slots__ = ("items", "n", "fn", "ident")

    def __init__(self, items=None, n=None, fn=None):
        self.ident = next(_ids)
        self.items, self.n, self.fn = items, n, fn

    def length(self):
        return P(len(self.items)) if self.items is not None else self.n

    def __repr__(self):
        return f"PList({self.items!r})" if self.items is not None else f"PList<{self.n!r}>"

class PDict:
    __slots__ = ("d", "memo", "ident")

    def __init__(self, d=None):
        self.ident = next(_ids)
        self.d = d or {}
        self.memo = None     # functional memo table: (key syms, template)

class RangeV:
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = P(lo), P(hi), step

    def length(self):
        if self.step == 1:
            return self.hi - self.lo
        if self.step == -1:
            return self.lo - self.hi
        n = idiv(self.hi - self.lo + (self.step - 1), P(self.step)) if self.step > 0 else idiv(self.lo - self.hi + (-self.step - 1), P(-self.step))
        return n

    def at(self, k):
        return self.lo + P(self.step) * k

class IterV:
    """iterable with symbolic length: element k is fn(k)"""
    __slots__ = ("n", "fn", "parallel")

    def __init__(self, n, fn, parallel=False):
        self.n, self.fn, self.parallel = P(n), fn, parallel

class Once:
    """an iterator over a known sequence (zip, map, iter, a generator expression ...): what is left of it is the
    variable `rest` of env, so that reading it twice finds it used up as Python does"""
    __slots__ = ("env",)

    def __init__(self, env):
        self.env = env

class InfV:
    """an endless iterator: element k is fn(k). Only usable beside a finite one."""
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn

class Poison:
    __slots__ = ("why", "loc")

    def __init__(self, why, loc=None):
        self.why, self.loc = why, loc

    def error(self):
        if self.loc is not None:
            self.loc.read = True
        return Unsupported(self.why)

class Obj:
    """instance of an interpreted (or opaque) class"""
    __slots__ = ("cls", "f", "ready", "ident", "stub", "absent")

    def __init__(self, cls, f=None):
        self.ident = next(_ids)
        self.absent = ()
        self.stub = False
        self.cls, self.f, self.ready = cls, f if f is not None else {}, False

    def __repr__(self):
        return f"<{getattr(self.cls, 'name', self.cls)}>"

    def __getattr__(self, n):
        # convenience for specifications
        f = object.__getattribute__(self, "f")
        if n in f:
            return f[n]
        raise AttributeError(n)

# --------------------------------------------------------------------------- arrays
class Cell:
    """array storage: fn maps base indices to Poly (Formula for bool)"""
    __slots__ = ("shape", "dt", "fn", "ident", "unordered")

    def __init__(self, shape, dt, fn):
        self.shape, self.dt, self.fn = tuple(P(s) for s in shape), dt, fn
        self.ident = next(_ids)
        self.unordered = None

class DCell(Cell):
    """storage that is another array's, seen through `get` and written back through `put` (the real part of a
    complex array, the same elements in another shape): always what the array holds at the moment"""
    __slots__ = ("base", "get", "put")

    def __init__(self, base, shape, dt, get, put):
        self.shape, self.dt = tuple(P(s) for s in shape), dt
        self.base, self.get, self.put = base, get, put
        self.ident = next(_ids)
        self.unordered = None

    @property
    def fn(self):
        return self.get(self.base.fn())

    @fn.setter
    def fn(self, f):
        raise Unsupported("storage of a view")

class Arr:
    """view of a cell.  vmap: list per base dim of ('fix', poly) or ('dim', j, start, step)."""
    __slots__ = ("cell", "shape", "vmap", "ro", "tag")

    def __init__(self, cell, shape=None, vmap=None, ro=False):
        self.cell = cell
        self.shape = tuple(P(s) for s in (cell.shape if shape is None else shape))
        self.vmap = vmap
        self.ro = ro
        self.tag = None

    @property
    def dt(self):
        return self.cell.dt

    def fn(self):
        """element function at the current moment"""
        cf = self.cell.fn
        vm = self.vmap
        if vm is None:
            return cf
        def g(idx):
            b = []
            for d in vm:
                b.append(d[1] if d[0] == "fix" else d[2] + d[3] * idx[d[1]])
            return cf(tuple(b))
        return g

    def __repr__(self):
        return f"Arr<{self.dt}>{self.shape}"

    def at(self, *idx):
        return self.fn()(tuple(poly(i) for i in idx))

    # conveniences for specifications
    def __getitem__(self, idx):
        from . import arrays
        return arrays.getitem(self, idx)

    def __len__(self):
        raise Unsupported("len in specification")

    def __add__(self, o): return binop("+", self, o)
    def __radd__(self, o): return binop("+", o, self)
    def __sub__(self, o): return binop("-", self, o)
    def __rsub__(self, o): return binop("-", o, self)
    def __mul__(self, o): return binop("*", self, o)
    def __rmul__(self, o): return binop("*", o, self)
    def __truediv__(self, o): return binop("/", self, o)
    def __pow__(self, o): return binop("**", self, o)

class Sel:
    """1-d array enumerated (in row-major order) by the points of a domain satisfying pred.
    fn(dom idx) is the element; perm=True when used as an index set."""
    __slots__ = ("dom", "pred", "fn", "dt", "key")

    def __init__(self, dom, pred, fn, dt, key):
        self.dom, self.pred, self.fn, self.dt, self.key = tuple(dom), pred, fn, dt, key

def new_arr(shape, dt, fn):
    return Arr(Cell(shape, dt, fn))

def elem(v, dt):
    """scalar value of an element term"""
    if dt == "b":
        return mkbool(v if isinstance(v, Formula) else f_not(f_eq(v, 0)))
    return num(v, dt, True)
