"""Canonical terms: polynomials over Gaussian rationals with interned atoms.

Every numeric expression handled by the verifier is a `Poly`: a finite map from
monomials (products of integer powers of atoms) to Gaussian-rational
coefficients.  Atoms are interned, so structural equality is identity.  Bound
variables (of finite sums and of lambdas) are locally nameless, so alpha
equivalence is identity as well.  Conditions are `Formula`s over literals; the
indicator of a literal is an atom, so if-then-else is polynomial arithmetic.
"""
from __future__ import annotations

import itertools, math
from fractions import Fraction
from math import gcd, isqrt

# ----------------------------------------------------------------- coefficients
def _n(x):
    if type(x) is Fraction and x.denominator == 1:
        return x.numerator
    return x

ONE = (1, 0)
ZERO = (0, 0)

def cadd(a, b):
    return (_n(a[0] + b[0]), _n(a[1] + b[1]))

def cmul(a, b):
    if a[1] == 0 and b[1] == 0:
        return (_n(a[0] * b[0]), 0)
    return (_n(a[0] * b[0] - a[1] * b[1]), _n(a[0] * b[1] + a[1] * b[0]))

def cinv(a):
    n = a[0] * a[0] + a[1] * a[1]
    return (_n(Fraction(a[0]) / n), _n(-Fraction(a[1]) / n))

SORT_ORDER = {"B": 0, "I": 1, "R": 2, "C": 3}

# ------------------------------------------------------------------------ atoms
class Atom:
    __slots__ = ("kind", "data", "id", "sort", "fv", "maxbv", "_key", "hassum")

    def __repr__(self):
        return fmt_atom(self)

_atoms: dict = {}
_counter = itertools.count()

def mk_atom(kind, data, sort):
    key = (kind, data, sort)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.kind, a.data, a.sort = kind, data, sort
        a.id = next(_counter)
        a._key = key
        fv, mb = _free(kind, data)
        if kind == "sym":
            fv = frozenset([a])
        a.fv, a.maxbv = fv, mb
        _atoms[key] = a
    return a

def _free(kind, data):
    """free symbols and the largest bound-variable level inside."""
    fv = frozenset()
    mb = -1
    if kind == "bv":
        return fv, data[0]
    stack = [data]
    while stack:
        d = stack.pop()
        if isinstance(d, Poly):
            fv |= d.fv
            mb = max(mb, d.maxbv)
        elif isinstance(d, Formula):
            fv |= d.fv
            mb = max(mb, d.maxbv)
        elif isinstance(d, Atom):
            fv |= d.fv
            mb = max(mb, d.maxbv)
        elif isinstance(d, Lam):
            fv |= d.fv
            mb = max(mb, d.maxbv)
        elif isinstance(d, tuple):
            stack.extend(d)
    return fv, mb

# ----------------------------------------------------------------------- polys
class Poly:
    __slots__ = ("d", "_h", "_fv", "_mb", "_sort")

    def __init__(self, d):
        self.d = d
        self._h = None
        self._fv = None
        self._mb = None
        self._sort = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and (self is o or self.d == o.d)

    @property
    def fv(self):
        if self._fv is None:
            s = set()
            for m in self.d:
                for a, _ in m:
                    s |= a.fv
            self._fv = frozenset(s)
        return self._fv

    @property
    def maxbv(self):
        if self._mb is None:
            b = -1
            for m in self.d:
                for a, _ in m:
                    if a.maxbv > b:
                        b = a.maxbv
            self._mb = b
        return self._mb

    @property
    def sort(self):
        if self._sort is None:
            s = "I"
            for m, c in self.d.items():
                if c[1] != 0:
                    s = "C"
                    break
                if type(c[0]) is not int:
                    s = "R" if s == "I" else s
                for a, e in m:
                    t = "I" if a.sort == "B" else a.sort
                    if e < 0 and t == "I":
                        t = "R"
                    if SORT_ORDER[t] > SORT_ORDER[s]:
                        s = t
                if s == "C":
                    break
            if s == "C" and self._is_real():
                s = "R"
            self._sort = s
        return self._sort

    def _is_real(self):
        return conj(self) == self

    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def const(self):
        return self.d.get((), ZERO)

    def is_zero(self):
        return not self.d

    def is_int_const(self):
        c = self.const()
        return self.is_const() and c[1] == 0 and type(c[0]) is int

    # arithmetic -----------------------------------------------------------
    def __add__(self, o):
        o = P(o)
        if not o.d:
            return self
        if not self.d:
            return o
        d = dict(self.d)
        for m, c in o.d.items():
            if m in d:
                s = cadd(d[m], c)
                if s == ZERO:
                    del d[m]
                else:
                    d[m] = s
            else:
                d[m] = c
        return Poly(d)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: (-c[0], -c[1]) for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) + (-self)

    def scale(self, k):
        if k == ZERO:
            return PZERO
        if k == ONE:
            return self
        return Poly({m: cmul(c, k) for m, c in self.d.items()})

    def __mul__(self, o):
        o = P(o)
        if not self.d or not o.d:
            return PZERO
        if o.is_const():
            return self.scale(o.const())
        if self.is_const():
            return o.scale(self.const())
        if len(self.d) * len(o.d) > 40000:
            raise TooBig()
        out = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                r = mul_mono(m1, m2)
                c = cmul(c1, c2)
                if type(r) is tuple:
                    _acc(out, r, c)
                else:
                    for m, cc in r.d.items():
                        _acc(out, m, cmul(cc, c))
        return Poly(out)

    __rmul__ = __mul__

    def __pow__(self, n):
        assert type(n) is int
        if n < 0:
            return inv(self) ** (-n)
        r = PONE
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def __repr__(self):
        return fmt(self)

class TooBig(Exception):
    pass

def _acc(d, m, c):
    if m in d:
        s = cadd(d[m], c)
        if s == ZERO:
            del d[m]
        else:
            d[m] = s
    elif c != ZERO:
        d[m] = c

def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return PONE if x else PZERO
    if isinstance(x, int):
        return Poly({(): (x, 0)}) if x else PZERO
    if isinstance(x, Fraction):
        return Poly({(): (_n(x), 0)}) if x else PZERO
    if isinstance(x, float):
        return P(Fraction(repr(x)))
    if isinstance(x, complex):
        return Poly({(): (_n(Fraction(repr(x.real))), _n(Fraction(repr(x.imag))))}) if x else PZERO
    if isinstance(x, Atom):
        return Poly({((x, 1),): ONE})
    raise TypeError(f"not a number: {x!r}")

PZERO = Poly({})
PONE = Poly({(): ONE})
PI_ = None  # defined below
IMAG = Poly({(): (0, 1)})

def mono_poly(m):
    return Poly({m: ONE})

# ------------------------------------------------- monomial multiplication rules
def mul_mono(m1, m2):
    """Multiply monomials; returns a monomial tuple, or a Poly if rules fire."""
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    special = False
    for a, e in m2:
        if a in d:
            n = d[a] + e
            if n:
                d[a] = n
            else:
                del d[a]
            if a.kind in SPECIAL:
                special = True
        else:
            d[a] = e
            if a.kind == "exp":
                special = True
    for a in d:
        if a.kind in SPECIAL and (a.kind == "exp" or d[a] != 1 or (a in NEG_IV and NEG_IV[a] in d)):
            special = True
            break
    if not special:
        return tuple(sorted(d.items(), key=_sk))
    return _norm_mono(d)

def _sk(t):
    return t[0].id

SPECIAL = {"sqrt", "exp", "iv", "abs", "inv", "sum"}

def _norm_mono(d):
    """apply power rules: returns monomial tuple or Poly."""
    out = {}
    extra = PONE
    expo = None
    nexp = 0
    for a, e in d.items():
        k = a.kind
        if k == "iv":
            if e < 0:
                raise TooBig()
            b = neg_iv(a)
            if b is not None and b in d:
                return PZERO
            out[a] = 1
        elif k == "exp":
            nexp += 1
            t = a.data[0] if e == 1 else a.data[0].scale((e, 0))
            expo = t if expo is None else expo + t
        elif k == "sqrt" and e != 1:
            q, r = divmod(e, 2)
            base = a.data[0]
            extra = extra * (base ** q if q >= 0 else inv(base) ** (-q))
            if r:
                out[a] = 1
        elif k == "abs" and (e >= 2 or e <= -2):
            q = e // 2 if e > 0 else -((-e) // 2)
            r = e - 2 * q
            z = a.data[0]
            zz = z * conj(z)
            extra = extra * (zz ** q if q >= 0 else inv(zz) ** (-q))
            if r:
                out[a] = r
        elif k == "inv" and e < 0:
            extra = extra * (a.data[0] ** (-e))
        else:
            out[a] = e
    if expo is not None:
        r = mk_exp(expo)
        if nexp == 1 and len(r.d) == 1:
            (m, c), = r.d.items()
            if c == ONE and len(m) == 1 and m[0][0].kind == "exp":
                out[m[0][0]] = 1
                r = None
        if r is not None:
            extra = extra * r
    m = tuple(sorted(out.items(), key=_sk))
    if extra is PONE:
        return m
    if extra.is_const() and extra.const() == ONE:
        return m
    return Poly({m: ONE}) * extra

# ------------------------------------------------------------------- constructors
def sym(name, sort="I"):
    return P(mk_atom("sym", (name,), sort))

_fresh = itertools.count()

def fresh(prefix="v", sort="I"):
    return sym(f"{prefix}!{next(_fresh)}", sort)

def the_sym(p):
    """the atom of a poly that is exactly one symbol, else None"""
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if c == ONE and len(m) == 1 and m[0][1] == 1 and m[0][0].kind in ("sym",):
            return m[0][0]
    return None

class Lam:
    """lambda over n bound variables; body Poly or Formula with bv atoms."""
    __slots__ = ("n", "body", "base", "_h", "fv", "maxbv")

    def __init__(self, n, body, base):
        self.n, self.body, self.base = n, body, base
        self._h = hash((n, body, base))
        self.fv = body.fv
        self.maxbv = max(body.maxbv, base + n - 1)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lam) and self.n == o.n and self.base == o.base and self.body == o.body

    def __repr__(self):
        return f"(λ{self.n}. {self.body!r})"

def mk_lam(syms, body):
    """bind the given symbol polys in body"""
    base = body.maxbv + 1
    sub = {the_sym(s): P(mk_atom("bv", (base + i,), "I")) for i, s in enumerate(syms)}
    return Lam(len(syms), subst(body, sub), base)

def app_lam(l, args):
    sub = {mk_atom("bv", (l.base + i,), "I"): P(x) for i, x in enumerate(args)}
    return subst(l.body, sub)

def app(name, args=(), sort="R", lams=()):
    """uninterpreted application (args Polys/strings/Formulas, lams Lam)."""
    args = tuple(P(a) if not isinstance(a, (str, Formula, Poly, type(None))) else a for a in args)
    return P(mk_atom("app", (name, args, tuple(lams)), sort))

def conj(p):
    out = None
    real = {}
    for m, c in p.d.items():
        if all(a.sort != "C" for a, _ in m):
            _acc(real, m, (c[0], -c[1]))
        else:
            r = Poly({(): (c[0], -c[1])})
            for a, e in m:
                r = r * (conj_atom(a) ** e if a.sort == "C" else Poly({((a, e),): ONE}))
            out = r if out is None else out + r
    rp = Poly(real)
    return rp if out is None else rp + out

_conjc: dict = {}

def conj_atom(a):
    r = _conjc.get(a)
    if r is not None:
        return r
    k = a.kind
    if k == "conj":
        r = P(a.data[0])
    elif k == "exp":
        r = mk_exp(conj(a.data[0]))
    elif k == "inv":
        r = inv(conj(a.data[0]))
    elif k == "sum":
        syms, bnds, b = open_sum(a)
        r = conj(b)
        for s, n in reversed(list(zip(syms, bnds))):
            r = Sum0(s, n, r)
    else:
        r = P(mk_atom("conj", (a,), "C"))
    _conjc[a] = r
    return r

def inv0(p):
    """the inverse as a total function: zero has the inverse zero"""
    return PZERO if P(p).is_zero() else inv(p)

def inv(p):
    p = P(p)
    if p.is_zero():
        raise ZeroDivisionError
    if p.is_const():
        return Poly({(): cinv(p.const())})
    if len(p.d) == 1:
        (m, c), = p.d.items()
        r = Poly({(): cinv(c)})
        for a, e in m:
            if a.kind == "exp":
                r = r * mk_exp(-a.data[0])
            elif a.kind == "sqrt":
                r = r * P(a) * inv(a.data[0])
            elif a.kind == "inv":
                r = r * a.data[0]
            elif a.kind == "sum":
                r = r * P(mk_atom("inv", (P(a),), "R" if a.sort != "C" else "C"))
            elif a.kind == "iv":
                r = r * P(a)  # 1/0 is not modelled (assumption: no division by zero)
            else:
                r = r * Poly({((a, -e),): ONE})
        return r
    # normalise content: make leading coefficient one
    lead = max(p.d, key=lambda m: tuple(a.id for a, _ in m))
    c = p.d[lead]
    q = p.scale(cinv(c))
    return P(mk_atom("inv", (q,), "C" if q.sort == "C" else "R")).scale(cinv(c))

def div(a, b):
    return P(a) * inv(b)

def _sqfree(n):
    """n = s^2 * f with f square-free (n>0)"""
    s, f = 1, n
    k = 2
    while k * k <= f:
        while f % (k * k) == 0:
            f //= k * k
            s *= k
        k += 1
        if k > 2000:
            break
    return s, f

def _primes(n):
    """factors of a square-free number (a large unfactored rest stays whole)"""
    out, k = [], 2
    while k * k <= n and k < 2000:
        if n % k == 0:
            out.append(k)
            n //= k
        k += 1
    return out + [n] if n > 1 else out

def mk_sqrt(p, nonneg=lambda q: False):
    p = P(p)
    if p.is_zero():
        return PZERO
    if p.is_const():
        c = p.const()
        if c[1] == 0 and c[0] > 0:
            f = Fraction(c[0])
            s, r = _sqfree(f.numerator * f.denominator)
            out = P(Fraction(s, f.denominator))
            for k in _primes(r):
                out = out * P(mk_atom("sqrt", (P(k),), "R"))
            return out
        if c[1] == 0 and c[0] < 0:
            return IMAG * mk_sqrt(-p)
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if c[1] == 0 and c[0] > 0:
            out = mk_sqrt(P(Fraction(c[0])))
            rest = PONE
            for a, e in m:
                ap = P(a)
                if a.kind == "inv":
                    b = a.data[0]
                    if nonneg(b):
                        # sqrt(1/b) = sqrt(b)/b
                        t = mk_sqrt(b, nonneg) * inv(b) if e == 1 else None
                        if t is not None:
                            out = out * t
                            continue
                if a.kind == "exp" and a.sort == "R":
                    out = out * mk_exp(a.data[0].scale((_n(Fraction(e, 2)), 0)))
                    continue
                if a.kind == "iv":
                    out = out * ap
                    continue
                q, r = divmod(e, 2)
                if e != 1 and r == 0 and (nonneg(ap) or a.kind in ("abs",)):
                    out = out * (ap ** q if q >= 0 else inv(ap) ** (-q))
                elif nonneg(ap):
                    if q:
                        out = out * (ap ** q if q >= 0 else inv(ap) ** (-q))
                    if r:
                        out = out * P(mk_atom("sqrt", (ap,), "R"))
                elif r == 0:
                    t = mk_abs(ap)
                    out = out * (t ** q if q >= 0 else inv(t) ** (-q))
                else:
                    rest = rest * Poly({((a, e),): ONE})
            if rest.is_const() and rest.const() == ONE:
                return out
            return out * P(mk_atom("sqrt", (rest,), "R"))
    # sum of several terms: pull out powers of pi and rational content
    e = min((dict(m).get(PI_ATOM, 0) for m in p.d), default=0)
    if e:
        q, r = divmod(e, 2)
        out = P(PI_ATOM) ** q if q >= 0 else inv(P(PI_ATOM)) ** (-q)
        if r:
            out = out * P(mk_atom("sqrt", (P(PI_ATOM),), "R"))
        return out * mk_sqrt(p * (inv(P(PI_ATOM)) ** e if e > 0 else P(PI_ATOM) ** (-e)), nonneg)
    g = _content(p)
    if g != 1:
        return mk_sqrt(P(g)) * P(mk_atom("sqrt", (p.scale((_n(1 / Fraction(g)), 0)),), "R"))
    return P(mk_atom("sqrt", (p,), "R"))

def _content(p):
    num, den = 0, 1
    for c in p.d.values():
        for x in c:
            if x:
                f = Fraction(x)
                num = gcd(num, abs(f.numerator))
                den = den * f.denominator // gcd(den, f.denominator)
    return Fraction(num, den) if num else Fraction(1)

def _int_mono(m):
    """the monomial without its factor pi takes integer values"""
    return all(a.sort in ("I", "B") and e > 0 and a.kind != "sqrt" for a, e in m if a is not PI_ATOM)

def mk_exp(p):
    """exp with reduction of integer multiples of i*pi"""
    p = P(p)
    pa = PI_ATOM
    keep = {}
    const = PONE
    for m, c in p.d.items():
        md = dict(m)
        if md.get(pa) == 1 and c[0] == 0:
            rest = tuple((a, e) for a, e in m if a is not pa)
            if _int_mono(rest):
                q = Fraction(c[1])
                if not rest:
                    q = q % 2
                    # extract multiples of i*pi/2
                    k, r = divmod(q, Fraction(1, 2))
                    const = const.scale([ONE, (0, 1), (-1, 0), (0, -1)][int(k) % 4])
                    if r:
                        _acc(keep, m, (0, _n(r)))
                    continue
                q = q % 2
                if q == 0:
                    continue
                if q == 1:
                    rest2 = tuple((a, 1) for a, e in rest)
                    mm = tuple(sorted(rest2 + ((pa, 1),), key=_sk))
                    if mm in keep:
                        v = (Fraction(keep[mm][1]) + 1) % 2
                        if v:
                            keep[mm] = (0, _n(v))
                        else:
                            del keep[mm]
                    else:
                        keep[mm] = (0, 1)
                    continue
                _acc(keep, m, (0, _n(q)))
                continue
        # exp(c*log(n)) with integer c -> n^c
        if len(m) == 1 and m[0][0].kind == "app" and m[0][0].data[0] == "log" and m[0][1] == 1 and c[1] == 0 and type(c[0]) is int:
            b = m[0][0].data[1][0]
            const = const * (b ** c[0] if c[0] >= 0 else inv(b) ** (-c[0]))
            continue
        if len(m) == 1 and m[0][0].kind == "app" and m[0][0].data[0] == "log" and m[0][1] == 1 and c[1] == 0 and Fraction(c[0]).denominator == 2:
            b = mk_sqrt(m[0][0].data[1][0])
            h = int(2 * Fraction(c[0]))
            const = const * (b ** h if h >= 0 else inv(b) ** (-h))
            continue
        _acc(keep, m, c)
    # second pass on (q mod 2) after accumulation of pi terms
    q = Poly(keep)
    fix = {}
    changed = False
    for m, c in q.d.items():
        if dict(m).get(pa) == 1 and c[0] == 0 and _int_mono(m):
            v = Fraction(c[1]) % 2
            if v != c[1]:
                changed = True
            if v:
                fix[m] = (0, _n(v))
        else:
            fix[m] = c
    if changed:
        q = Poly(fix)
    if q.is_zero():
        return const
    # sign atoms (real): exp(i pi n) with integer coefs
    real = q.sort != "C" or all(
        dict(m).get(pa) == 1 and c[0] == 0 and type(c[1]) is int
        and _int_mono(m)
        for m, c in q.d.items())
    return const * P(mk_atom("exp", (q,), "R" if real else "C"))

def mk_sgn(n):
    """(-1)**n for integer n"""
    return mk_exp(IMAG * PI_ * P(n))

def mk_log(p):
    p = P(p)
    if p.is_const() and p.const() == ONE:
        return PZERO
    return app("log", (p,), "R")

def mk_cos(x):
    e = IMAG * P(x)
    return (mk_exp(e) + mk_exp(-e)).scale((Fraction(1, 2), 0))

def mk_sin(x):
    e = IMAG * P(x)
    return (mk_exp(e) - mk_exp(-e)) * Poly({(): (0, Fraction(-1, 2))})

def mk_abs(p):
    p = P(p)
    if p.is_const():
        c = p.const()
        if c[1] == 0:
            return P(abs(Fraction(c[0])))
        return mk_sqrt(P(Fraction(c[0]) ** 2 + Fraction(c[1]) ** 2))
    if len(p.d) == 1:
        (m, c), = p.d.items()
        out = mk_abs(Poly({(): c}))
        rest = PONE
        for a, e in m:
            if a.kind in ("iv", "sqrt", "abs") or a is PI_ATOM or (a.kind == "exp" and a.sort == "R" and not _is_sign(a)):
                out = out * Poly({((a, e),): ONE})
            elif a.kind == "exp" and (_is_sign(a) or (conj(a.data[0]) + a.data[0]).is_zero()):
                pass
            else:
                rest = rest * Poly({((a, e),): ONE})
        if rest.is_const() and rest.const() == ONE:
            return out
        q = rest
    else:
        out = PONE
        lead = max(p.d, key=lambda m: tuple(a.id for a, _ in m))
        c = p.d[lead]
        g = _content(p)
        q = p.scale((_n(1 / g), 0))
        out = P(g)
        if q.sort != "C" and q.d[lead][0] < 0:
            q = -q
    qq = conj(q) if q.sort == "C" else q
    if qq != q:
        # |z| = |conj z|: choose a representative
        q = min((q, qq), key=lambda z: tuple(sorted(tuple((a.id, e) for a, e in m) for m in z.d)))
    return out * P(mk_atom("abs", (q,), "I" if q.sort == "I" else "R"))

def _is_sign(a):
    return a.kind == "exp" and a.sort == "R" and any(dict(m).get(PI_ATOM) for m in a.data[0].d) and all(c[0] == 0 for c in a.data[0].d.values())

def real_part(p):
    return p if p.sort != "C" else (p + conj(p)).scale((Fraction(1, 2), 0))

def imag_part(p):
    return PZERO if p.sort != "C" else (p - conj(p)) * Poly({(): (0, Fraction(-1, 2))})

# ----------------------------------------------------------------------- formulas
class Formula:
    """op in true,false,ge,gt,eq,b,and,or,not"""
    __slots__ = ("op", "args", "_h", "fv", "maxbv")

    def __init__(self, op, args=()):
        self.op, self.args = op, args
        self._h = hash((op, args))
        fv, mb = frozenset(), -1
        for a in args:
            fv |= a.fv
            mb = max(mb, a.maxbv)
        self.fv, self.maxbv = fv, mb

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Formula) and (self is o or (self._h == o._h and self.op == o.op and self.args == o.args))

    def __repr__(self):
        if self.op in ("true", "false"):
            return self.op
        if self.op == "ge":
            return f"({self.args[0]!r} >= 0)"
        if self.op == "gt":
            return f"({self.args[0]!r} > 0)"
        if self.op == "eq":
            return f"({self.args[0]!r} == 0)"
        if self.op == "b":
            return f"{self.args[0]!r}"
        if self.op == "not":
            return f"!{self.args[0]!r}"
        return "(" + f" {self.op} ".join(map(repr, self.args)) + ")"

TRUE = Formula("true")
FALSE = Formula("false")

def f_of(b):
    return TRUE if b else FALSE

def f_not(f):
    if f.op == "true":
        return FALSE
    if f.op == "false":
        return TRUE
    if f.op == "not":
        return f.args[0]
    if f.op == "ge":
        p = f.args[0]
        if p.sort == "I":
            return f_ge(-p - 1)
        return f_gt(-p)
    if f.op == "gt":
        return f_ge(-f.args[0])
    return Formula("not", (f,))

def f_and(*fs):
    out = []
    for f in fs:
        if f.op == "false":
            return FALSE
        if f.op == "true":
            continue
        if f.op == "and":
            for g in f.args:
                if g not in out:
                    out.append(g)
        elif f not in out:
            out.append(f)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return Formula("and", tuple(out))

def f_or(*fs):
    out = []
    for f in fs:
        if f.op == "true":
            return TRUE
        if f.op == "false":
            continue
        if f.op == "or":
            for g in f.args:
                if g not in out:
                    out.append(g)
        elif f not in out:
            out.append(f)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return Formula("or", tuple(out))

def _int_norm(p):
    """divide an integer poly by the gcd of its non-constant coefficients (floor const)"""
    g = 0
    for m, c in p.d.items():
        if m:
            g = gcd(g, abs(c[0]))
    return g

def _indicators(p, test):
    """comparison of c0 + c1*[F]*[G].. with zero, as a formula over F, G; None otherwise"""
    n = len(p.d)
    if n > 2 or (n == 2 and () not in p.d):
        return None
    (m, c), = [(m, c) for m, c in p.d.items() if m]
    if any(a.kind != "iv" or e != 1 for a, e in m):
        return None
    c0 = p.const()
    c1 = (c0[0] + c[0], c0[1] + c[1])
    t0, t1 = test(c0), test(c1)
    if t0 == t1:
        return f_of(t0)
    f = f_and(*[a.data[0] for a, _ in m])
    return f if t1 else f_not(f)

def f_ge(p):
    p = P(p)
    if p.is_const():
        return f_of(p.const()[0] >= 0)
    f = _indicators(p, lambda c: c[0] >= 0)
    if f is not None:
        return f
    if p.sort == "I":
        g = _int_norm(p)
        if g > 1:
            d = {m: (c[0] // g, 0) for m, c in p.d.items() if m}
            k = p.const()[0] // g
            if k:
                d[()] = (k, 0)
            p = Poly(d)
    elif p.sort == "R":
        p = _real_norm(p)
    return Formula("ge", (p,))

def _real_norm(p):
    g = _content(p)
    return p.scale((_n(1 / g), 0)) if g != 1 else p

def f_gt(p):
    p = P(p)
    if p.is_const():
        return f_of(p.const()[0] > 0)
    f = _indicators(p, lambda c: c[0] > 0)
    if f is not None:
        return f
    if p.sort == "I":
        return f_ge(p - 1)
    return Formula("gt", (_real_norm(p),))

def f_eq(a, b=0):
    p = P(a) - P(b)
    if p.is_const():
        return f_of(p.is_zero())
    f = _indicators(p, lambda c: c == ZERO)
    if f is not None:
        return f
    if p.sort == "I":
        g = _int_norm(p)
        k = p.const()[0]
        if g > 1:
            if k % g:
                return FALSE
            p = Poly({m: (c[0] // g, 0) for m, c in p.d.items()})
    else:
        p = _real_norm(p) if p.sort == "R" else p
        if len(p.d) == 1:  # monomial == 0 : drop positive / nonzero constants
            (m, c), = p.d.items()
            p = Poly({m: ONE})
    if len(p.d) == 2:  # a permutation is one to one
        (m1, c1), (m2, c2) = p.d.items()
        if c1 == (-c2[0], -c2[1]) and all(len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "app" and m[0][0].data[0] == "argsort" for m in (m1, m2)):
            a, b = m1[0][0], m2[0][0]
            if a.data[2] == b.data[2] and a.data[1][1] == b.data[1][1]:
                return f_eq(a.data[1][0], b.data[1][0])
    if p.sort != "C" and len(p.d) > 1:
        z = _square_difference(p)
        if z is not None:
            q, k = z
            return FALSE if k is None else f_eq(q) if k == 0 else f_or(f_eq(q - k), f_eq(q + k))
    lead = max((m for m in p.d if m), key=lambda m: tuple(a.id for a, _ in m))
    c = p.d[lead]
    if p.sort != "C":
        if c[0] < 0:
            p = -p
    else:
        p = p.scale(cinv(c))
    return Formula("eq", (p,))

def _square_difference(p):
    """(q, k) with p = +-(q^2 - k^2), q linear in the atoms; k None: no real root"""
    sq = None
    for m, c in p.d.items():
        if sum(e for _, e in m) > 2 or any(e < 1 or a.kind in ("iv", "sqrt", "exp") for a, e in m):
            return None
        if len(m) == 1 and m[0][1] == 2:
            sq = (m[0][0], c[0])
    if sq is None:
        return None
    a, c = sq
    if c < 0:
        p, c = -p, -c
    c = Fraction(c)
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n != c.numerator or d * d != c.denominator:
        return None
    r = Fraction(n, d)
    q = P(a) * r
    for m, x in p.d.items():
        if any(b is a for b, _ in m) and not (len(m) == 1 and m[0][1] == 2):
            rest = tuple((b, e) for b, e in m if b is not a)
            q = q + Poly({rest: x}) * (1 / (2 * r))
    w = q * q - p
    if not w.is_const():
        return None
    w = Fraction(w.const()[0])
    if w < 0:
        return q, None
    n, d = math.isqrt(w.numerator), math.isqrt(w.denominator)
    return (q, Fraction(n, d)) if n * n == w.numerator and d * d == w.denominator else None

def f_lt(a, b):
    return f_gt(P(b) - P(a))

def f_le(a, b):
    return f_ge(P(b) - P(a))

def f_batom(a):
    """boolean atom (Atom of sort B or a Poly that is one such atom)"""
    if isinstance(a, Poly):
        (m, c), = a.d.items()
        a = m[0][0]
    return Formula("b", (P(a),))

def iv(f):
    """indicator polynomial of a formula"""
    op = f.op
    if op == "true":
        return PONE
    if op == "false":
        return PZERO
    if op == "not":
        return PONE - iv(f.args[0])
    if op == "and":
        r = PONE
        for g in f.args:
            r = r * iv(g)
        return r
    if op == "or":
        r = PONE
        for g in f.args:
            r = r * (PONE - iv(g))
        return PONE - r
    if op == "ge" and f.args[0].sort != "I":
        return PONE - iv(f_gt(-f.args[0]))
    return P(_link_neg(mk_atom("iv", (f,), "I")))

def neg_iv(a):
    """the indicator atom of the complement (oriented literals), if it exists as an atom"""
    return NEG_IV.get(a)

NEG_IV: dict = {}
_iv_seen: set = set()

def _link_neg(a):
    if a in _iv_seen:
        return a
    _iv_seen.add(a)
    if a.data[0].op in ("ge", "gt"):
        f = f_not(a.data[0])
        if f.op in ("ge", "gt"):
            b = _atoms.get(("iv", (f,), "I"))
            if b is not None:
                NEG_IV[a], NEG_IV[b] = b, a
    return a

def merge_ivs(p):
    """c1*m*[f] + c2*m*[not f]  ->  c2*m + (c1-c2)*m*[f]"""
    d = p.d
    for m in d:
        for a, _ in m:
            if a.kind == "iv":
                b = neg_iv(a)
                if b is None:
                    continue
                rest = tuple(x for x in m if x[0] is not a)
                mb = tuple(sorted(rest + ((b, 1),), key=_sk))
                if mb in d:
                    if a.id > b.id:
                        a, b, m, mb = b, a, mb, m
                    c1, c2 = d[m], d[mb]
                    nd = dict(d)
                    del nd[m], nd[mb]
                    _acc(nd, rest, c2)
                    _acc(nd, m, (_n(c1[0] - c2[0]), _n(c1[1] - c2[1])))
                    return merge_ivs(Poly(nd))
    return p

def _lead_neg(p):
    lead = max((m for m in p.d if m), key=lambda m: tuple(a.id for a, _ in m))
    return p.d[lead][0] < 0

def ite(f, a, b):
    if f.op == "true":
        return P(a)
    if f.op == "false":
        return P(b)
    i = iv(f)
    a, b = P(a), P(b)
    return b + i * (a - b)

def formula_of_poly(p):
    """if p is a 0/1 indicator-combination representing a formula, view p != 0"""
    return f_not(f_eq(p, 0))

# ------------------------------------------------------------------- substitution
def subst(t, sub):
    """sub: Atom -> Poly (sym, bv, or any atom, replaced structurally)"""
    if not sub:
        return t
    return _Subst(sub).go(t)

class _Subst:
    def __init__(self, sub):
        self.sub = sub
        self.cache = {}
        self.keys = set(sub)
        self.symonly = all(a.kind == "sym" for a in sub)

    def relevant(self, t):
        if self.symonly:
            return not self.keys.isdisjoint(t.fv)
        return True

    def go(self, t):
        if isinstance(t, Poly):
            return self.poly(t)
        if isinstance(t, Formula):
            return self.formula(t)
        if isinstance(t, Lam):
            return self.lam(t)
        if isinstance(t, tuple):
            return tuple(self.go(x) for x in t)
        if isinstance(t, Atom):
            return self.atom(t)
        return t

    def poly(self, p):
        if not self.relevant(p):
            return p
        r = self.cache.get(p)
        if r is not None:
            return r
        same = {}
        out = PZERO
        for m, c in p.d.items():
            if all(self.atom(a) is None for a, _ in m):
                same[m] = c
                continue
            t = Poly({(): c})
            keep = []
            for a, e in m:
                x = self.atom(a)
                if x is None:
                    keep.append((a, e))
                else:
                    t = t * (x ** e if e >= 0 else inv0(x) ** (-e))
            if keep:
                t = t * Poly({tuple(keep): ONE})
            out = out + t
        r = Poly(same) + out if same else out
        self.cache[p] = r
        return r

    def atom(self, a):
        """None if unchanged"""
        if a in self.sub:
            return self.sub[a]
        if a.kind in ("sym", "bv"):
            return None
        if self.symonly and self.keys.isdisjoint(a.fv):
            return None
        if a in self.cache:
            return self.cache[a]
        r = self._atom(a)
        self.cache[a] = r
        return r

    def _atom(self, a):
        k = a.kind
        if k == "app":
            name, args, lams = a.data
            na = tuple(self.go(x) for x in args)
            nl = tuple(self.lam(x) for x in lams)
            if na == args and nl == lams:
                return None
            return rebuild_app(name, na, a.sort, nl)
        if k == "sum":
            # substituting under the binder: open with fresh syms
            syms, ns, body = open_sum(a)
            nn = [self.poly(x) for x in ns]
            nb = self.poly(body)
            if nn == ns and nb == body:
                return None
            r = nb
            for s, n in reversed(list(zip(syms, nn))):
                r = Sum0(s, n, r)
            return r
        if k == "iv":
            f = self.formula(a.data[0])
            return None if f == a.data[0] else iv(f)
        if k == "conj":
            x = self.atom(a.data[0])
            return None if x is None else conj(x)
        p = a.data[0]
        q = self.poly(p)
        if q == p:
            return None
        if k == "sqrt":
            return mk_sqrt(q, ctx_nonneg)
        if k == "exp":
            return mk_exp(q)
        if k == "inv":
            return inv0(q)
        if k == "abs":
            return mk_abs(q)
        raise AssertionError(k)

    def lam(self, l):
        if not self.relevant(l):
            return l
        syms = [fresh("b") for _ in range(l.n)]
        b = app_lam(l, syms)
        nb = self.go(b)
        if nb == b:
            return l
        return mk_lam(syms, nb)

    def formula(self, f):
        if not self.relevant(f):
            return f
        op = f.op
        if op in ("true", "false"):
            return f
        if op in ("and", "or"):
            a = [self.formula(g) for g in f.args]
            return f_and(*a) if op == "and" else f_or(*a)
        if op == "not":
            return f_not(self.formula(f.args[0]))
        p = self.poly(f.args[0])
        if p == f.args[0]:
            return f
        if op == "ge":
            return f_ge(p)
        if op == "gt":
            return f_gt(p)
        if op == "eq":
            return f_eq(p)
        if op == "b":
            if p.is_const():
                return f_of(not p.is_zero())
            if len(p.d) == 1:
                (m, c), = p.d.items()
                if c == ONE and len(m) == 1 and m[0][0].sort == "B":
                    return Formula("b", (p,))
            return f_not(f_eq(p, 0))
        raise AssertionError(op)

REBUILD: dict = {}

def rebuild_app(name, args, sort, lams):
    f = REBUILD.get(name)
    if f is not None:
        return f(args, sort, lams)
    return P(mk_atom("app", (name, args, lams), sort))

ctx_nonneg_hook = [lambda q: False]

def ctx_nonneg(q):
    return ctx_nonneg_hook[0](q)

# --------------------------------------------------------------------------- sums
def open_sum(a):
    """fresh symbols, counts, body (Poly) for a sum atom; binder i's count may use
    earlier symbols"""
    counts, mono, base = a.data
    syms = [fresh("s") for _ in counts]
    sub = {}
    cs = []
    for i, n in enumerate(counts):
        cs.append(subst(n, sub))
        sub[mk_atom("bv", (base + i,), "I")] = syms[i]
    return syms, cs, subst(mono, sub)

def _close(order, counts, body):
    """order: list of sym atoms; counts: dict; body: mono poly"""
    base = max([body.maxbv] + [counts[s].maxbv for s in order]) + 1
    sub = {s: P(mk_atom("bv", (base + i,), "I")) for i, s in enumerate(order)}
    cs = tuple(subst(counts[s], sub) for s in order)
    b = subst(body, sub)
    return cs, b, base

def Sum0(v, n, body):
    """Sum_{v=0}^{n-1} body, v a symbol poly; canonicalising."""
    va = the_sym(v)
    body, n = P(body), P(n)
    if n.is_int_const() and n.const()[0] <= 0:
        return PZERO
    if n.is_int_const() and n.const()[0] <= 8:
        r = PZERO
        for i in range(n.const()[0]):
            r = r + subst(body, {va: P(i)})
        return r
    out = PZERO
    for m, c in body.d.items():
        out = out + _sum_mono(va, n, m).scale(c)
    return out

SUM_HOOK = [None]  # set by the solver: fact-dependent simplification of one-binder sums

def _sum_mono(va, n, m):
    ins, outs = [], []
    pulled = PONE
    for a, e in m:
        if va in a.fv and a.kind == "exp":
            # exp(free + bound) = exp(free) exp(bound)
            free = Poly({k: c for k, c in a.data[0].d.items() if not any(va in x.fv for x, _ in k)})
            if not free.is_zero():
                rest = mk_exp((a.data[0] - free) * e)
                if len(rest.d) == 1:
                    pulled = pulled * mk_exp(free * e)
                    (k, c), = rest.d.items()
                    pulled = pulled.scale(c)
                    for x in k:
                        (ins if va in x[0].fv else outs).append(x)
                    continue
        (ins if va in a.fv else outs).append((a, e))
    outp = pulled * Poly({tuple(outs): ONE})
    if not ins:
        return outp * mk_count(n)
    # indicator literals: delta elimination
    for a, e in ins:
        if a.kind == "iv" and a.data[0].op == "eq":
            sol = solve_linear(a.data[0].args[0], va)
            if sol is not None:
                rest = Poly({tuple(x for x in ins if x[0] is not a): ONE})
                val = subst(rest, {va: sol})
                g = iv(f_ge(sol)) * iv(f_gt(n - sol))
                return outp * g * val
            sol = solve_multiple(a.data[0].args[0], va)
            if sol is not None:
                sol, exact = sol
                rest = Poly({tuple(x for x in ins if x[0] is not a): ONE})
                return outp * iv(exact) * iv(f_ge(sol)) * iv(f_gt(n - sol)) * subst(rest, {va: sol})
    # pure power of the bound variable: closed form (needs n >= 0; mk_count is max(n,0))
    if len(ins) == 1 and ins[0][0] is va and 1 <= ins[0][1] <= 3:
        e = ins[0][1]
        k = mk_count(n)
        if e == 1:
            r = k * (k - 1) * Fraction(1, 2)
        elif e == 2:
            r = (k - 1) * k * (k * 2 - 1) * Fraction(1, 6)
        else:
            r = (k * (k - 1) * Fraction(1, 2)) ** 2
        return outp * r
    if SUM_HOOK[0] is not None:
        r = SUM_HOOK[0](va, n, tuple(ins))
        if r is not None:
            return outp * r
    # flatten nested sums
    syms, counts = [va], {va: n}
    flat = PONE
    for a, e in ins:
        if a.kind == "sum" and e > 0:
            for _ in range(e):
                ss, cs, b = open_sum(a)
                for s, k in zip(ss, cs):
                    sa = the_sym(s)
                    syms.append(sa)
                    counts[sa] = k
                flat = flat * b
        else:
            flat = flat * Poly({((a, e),): ONE})
    if len(flat.d) != 1:
        # multiplication produced several monomials: redo innermost first
        r = flat
        for s in reversed(syms):
            r = Sum0(P(s), counts[s], r)
        return outp * r
    (fm, fc), = flat.d.items()
    return outp * _mk_sum(syms, counts, Poly({fm: ONE})).scale(fc)

def _mk_sum(syms, counts, body):
    # drop binders not occurring (keep correctness): handled by pulling out
    best = None
    if len(syms) > 5:
        orders = [tuple(syms)]
    else:
        orders = itertools.permutations(syms)
    for order in orders:
        ok = True
        seen = set()
        for s in order:
            if any((t in counts[s].fv) and (t not in seen) for t in syms if t is not s):
                ok = False
                break
            seen.add(s)
        if not ok:
            continue
        cs, b, base = _close(order, counts, body)
        sort = "C" if b.sort == "C" else ("I" if b.sort == "I" else "R")
        a = mk_atom("sum", (cs, b, base), sort)
        if best is None or a.id < best.id:
            best = a
    return P(best)

def mk_count(n):
    """max(n, 0)"""
    n = P(n)
    if n.is_const():
        return P(max(0, n.const()[0]))
    if ctx_nonneg(n):
        return n
    return mk_max(n, PZERO)

def mk_max(a, b):
    a, b = P(a), P(b)
    d = a - b
    if d.is_const():
        return a if d.const()[0] >= 0 else b
    if ctx_nonneg(d):
        return a
    if ctx_nonneg(-d):
        return b
    return ite(f_ge(d), a, b)

def mk_min(a, b):
    return -mk_max(-P(a), -P(b))

def Sum(v, lo, hi, body):
    """Sum over lo <= v < hi"""
    lo, hi = P(lo), P(hi)
    if lo.is_zero():
        return Sum0(v, hi, body)
    return Sum0(v, hi - lo, subst(P(body), {the_sym(v): v + lo}))

def solve_linear(p, va):
    """p == 0 solved for va with coefficient +-1 and va nowhere else; Poly or None"""
    coef = None
    rest = {}
    for m, c in p.d.items():
        if len(m) == 1 and m[0] == (va, 1):
            coef = c
        elif any(va in a.fv for a, _ in m):
            return None
        else:
            rest[m] = c
    if coef is None or coef[1] != 0 or coef[0] not in (1, -1):
        return None
    r = Poly(rest)
    return -r if coef[0] == 1 else r

def solve_multiple(p, va):
    """c·va + r == 0 over the integers, |c| > 1: (the quotient, the condition that c divides r)"""
    coef = None
    rest = {}
    for m, c in p.d.items():
        if c[1] != 0 or type(c[0]) is not int:
            return None
        if len(m) == 1 and m[0] == (va, 1):
            coef = c[0]
        elif any(va in a.fv or a.sort != "I" for a, _ in m):
            return None
        else:
            rest[m] = c
    if coef is None or abs(coef) == 1:
        return None
    r = Poly(rest)
    if coef > 0:
        r = -r
    c = abs(coef)
    q = REBUILD["idiv"]((r, P(c)), "I", ())
    return q, f_eq(r, q * c)

# ---------------------------------------------------------------------- utilities
def atoms_of(p):
    s = set()
    for m in p.d:
        for a, _ in m:
            s.add(a)
    return s

def all_atoms(t, acc=None, deep=True):
    acc = set() if acc is None else acc
    if isinstance(t, Poly):
        for m in t.d:
            for a, _ in m:
                all_atoms(a, acc)
    elif isinstance(t, Atom):
        if t in acc:
            return acc
        acc.add(t)
        all_atoms(t.data, acc)
    elif isinstance(t, tuple):
        for x in t:
            all_atoms(x, acc)
    elif isinstance(t, Formula):
        for x in t.args:
            all_atoms(x, acc)
    elif isinstance(t, Lam):
        all_atoms(t.body, acc)
    return acc

def coeff_split(p, atom):
    """p = sum_e atom^e * q_e ; atom must not occur inside other atoms -> dict or None"""
    out = {}
    for m, c in p.d.items():
        e = 0
        rest = []
        for a, k in m:
            if a is atom:
                e = k
            else:
                rest.append((a, k))
        out.setdefault(e, {})[tuple(rest)] = c
    return {e: Poly(d) for e, d in out.items()}

def fmt(p):
    if not p.d:
        return "0"
    parts = []
    for m, c in p.d.items():
        cs = _fmtc(c)
        ms = "*".join(f"{a!r}" + (f"^{e}" if e != 1 else "") for a, e in m)
        if not ms:
            parts.append(cs)
        elif cs == "1":
            parts.append(ms)
        elif cs == "-1":
            parts.append("-" + ms)
        else:
            parts.append(cs + "*" + ms)
    s = " + ".join(parts)
    return s if len(parts) == 1 else f"({s})"

def _fmtc(c):
    if c[1] == 0:
        return str(c[0])
    if c[0] == 0:
        return f"{c[1]}i"
    return f"({c[0]}+{c[1]}i)"

def fmt_atom(a):
    k = a.kind
    if k == "sym":
        return a.data[0]
    if k == "bv":
        return f"#{a.data[0]}"
    if k == "app":
        n, args, lams = a.data
        return f"{n}(" + ", ".join([repr(x) for x in args] + [repr(x) for x in lams]) + ")"
    if k == "sum":
        cs, b, base = a.data
        return "Σ{" + ",".join(f"#{base+i}<{c!r}" for i, c in enumerate(cs)) + f"}}[{b!r}]"
    if k == "iv":
        return f"[{a.data[0]!r}]"
    if k == "inv":
        return f"1/{a.data[0]!r}"
    return f"{k}({a.data[0]!r})"

PI_ATOM = mk_atom("sym", ("pi",), "R")
PI_ = P(PI_ATOM)
PI_ATOM.fv = frozenset()
