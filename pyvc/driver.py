"""Contracts: one text, two readings.

A contract is a Python function of one argument S.  Read symbolically (SymS) it generates proof obligations about
the source of /repo executed by the interpreter for ALL inputs; read concretely (ConS) it runs the real code of
/repo on sampled inputs and checks the same clauses (replay, vacuity guard and bounded stand-in)."""
from __future__ import annotations

import hashlib
import inspect
import random
import time

CONTRACTS: dict = {}     # name -> Contract


class Contract:
    def __init__(self, name, props, fn, uses, samples, budget, kw):
        self.name, self.props, self.fn, self.uses = name, props, fn, uses
        self.samples, self.budget, self.kw = samples, budget, kw


def contract(*props, uses=(), samples=20, budget=60, **kw):
    def deco(fn):
        mod = fn.__module__.split(".")[-1]
        name = f"{mod}.{fn.__name__}"
        assert name not in CONTRACTS, name
        CONTRACTS[name] = Contract(name, props, fn, tuple(uses), samples, budget, kw)
        return fn
    return deco


class Skip(Exception):
    """concrete inputs outside the precondition"""


class LocalSkip(Exception):
    """concrete index outside a local hypothesis"""


class Fail(Exception):
    def __init__(self, name, detail):
        super().__init__(f"{name}: {detail}")
        self.name, self.detail = name, detail


# ============================================================================ symbolic
class Obl:
    __slots__ = ("contract", "name", "status", "detail", "path", "model", "time", "backend", "definite")

    def __init__(self, contract, name, status, detail="", path=(), model=None, t=0.0, backend="", definite=False):
        self.contract, self.name, self.status, self.detail = contract, name, status, detail
        self.path, self.model, self.time, self.backend, self.definite = path, model, t, backend, definite


class SymS:
    symbolic = True

    def __init__(self, contract, it):
        from . import terms, values, arrays, solver
        self.c, self.it = contract, it
        self.T, self.V, self.A, self.S = terms, values, arrays, solver
        self.obls = []
        self.inputs = {}
        self.arrs = {}
        self.idx = 0
        self.path_no = 0
        self.deepest = []

    # ------------------------------------------------------------------ inputs
    def begin(self):
        for r in getattr(self, "rules_added", ()):
            self.it.prover.multi_rules.remove(r)
        self.rules_added = []
        for k in [k for k in self.S.AXIOMS if k.startswith("in_")]:
            del self.S.AXIOMS[k]
        self.S._axc.clear()
        self.S.ASCENDING.clear()
        self.S.DESCENDING.clear()
        self.inputs = {}
        self.arrs = {}
        self.choices = {}
        self.it.summaries.clear()
        self.it.path_summaries.clear()
        self.it.weak = False
        self.it.io = None
        for k in ("env", *getattr(self, "patched", ())):
            self.it.extra_models.pop(k, None)
        self.patched = set()

    # ------------------------------------------------------------------ surroundings
    def store(self):
        """an empty user data directory and an empty remote registry, not loaded yet"""
        from .store import Store
        self.it.io = Store(self.it)

    def put_local(self, name, a):
        self.it.io.put(self.V.SStr.cat("<user_data>/", name), a)

    def put_registry(self, name, a):
        self.it.io.register(name, a)

    def local(self, name):
        """contents of a file in the user's data directory; None when missing"""
        c = self.it.io.find(self.it, self.V.SStr.cat("<user_data>/", name))
        return None if c is None else self.it.io.thaw(c)

    def contents(self, path):
        """contents of the file a returned path points to; None for no path or a missing file"""
        if path is None:
            return None
        c = self.it.io.find(self.it, path)
        return None if c is None else self.it.io.thaw(c)

    def registry_loads(self):
        return self.it.io.o.f["loads"]

    def saves(self):
        return self.it.io.o.f["saves"]

    def environment(self, **values):
        """environment variables (None: unset)"""
        self.it.extra_models["env"] = {k: v for k, v in values.items() if v is not None}

    def text(self, *parts):
        """text made of literal pieces and rendered integers"""
        V = self.V
        return V.mkstr([x for p in parts for x in (V.SStr.of(p) if isinstance(p, (str, V.SStr)) else self._piece(p))])

    def _piece(self, v):
        p = self._p(v)
        return [str(p.const()[0])] if p.is_int_const() else [self.V.Piece(v)]

    def patch(self, qual, handler):
        """a stand-in for a function of the code, on the real code as well (for a part the property does not depend on)"""
        if not qual.startswith("sleplet."):     # a library function
            self.it.extra_models[qual] = lambda it, a, k: handler(*a, **k)
            self.patched.add(qual)
            return
        self.it.path_summaries.add(self.override(qual, handler))

    def _num(self, name, sort, k):
        x = self.T.sym(name, sort)
        self.inputs[name] = x
        return self.V.num(x, k)

    def int(self, name, lo=None, hi=None, sample=None):
        v = self._num(name, "I", "i")
        if lo is not None:
            self.it.assume(self.T.f_ge(v.p - self._p(lo)))
        if hi is not None:
            self.it.assume(self.T.f_ge(self._p(hi) - v.p))
        return v

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, sample=None):
        v = self._num(name, "R", "f")
        if lo is not None:
            self.it.assume((self.T.f_gt if lo_open else self.T.f_ge)(v.p - self._p(lo)))
        if hi is not None:
            self.it.assume((self.T.f_gt if hi_open else self.T.f_ge)(self._p(hi) - v.p))
        return v

    def complex(self, name, sample=None):
        return self._num(name, "C", "c")

    def choice(self, name, options, **_):
        options = list(options)
        i = 0
        while i < len(options) - 1 and not self.it.fork():
            i += 1
        self.choices[name] = i
        return options[i]

    def classes(self, name, options, methods=()):
        """one of the classes; classes that inherit the very same methods share one proof"""
        c = self.choice(name, options)
        k = self.choices[name]

        def sig(q):
            cls = self._resolve(q)
            out = []
            for m in methods:
                r = cls.find(m)
                out.append(id(r[0]) if r else None)
            return tuple(out)
        if methods:
            s = sig(c)
            for other in options[:k]:
                if sig(other) == s:
                    from .interp import PathDone
                    raise PathDone
        return c

    def arr(self, name, shape, dt="f", lo=None, hi=None, make=None, lo_open=False, **_):
        """symbolic array; scalar shape allowed"""
        if not isinstance(shape, tuple):
            shape = (shape,)
        T = self.T
        sh = tuple(self._p(s) for s in shape)
        sort = {"f": "R", "c": "C", "i": "I", "b": "B"}[dt]

        def fn(idx):
            a = T.app("in_" + name, tuple(idx), sort)
            return T.f_batom(a) if dt == "b" else a
        if lo is not None or hi is not None:
            def ax(at):
                r = []
                p = T.P(at)
                if lo is not None:
                    r.append((T.f_gt if lo_open else T.f_ge)(p - self._p(lo)))
                if hi is not None:
                    r.append(T.f_ge(self._p(hi) - p))
                return r
            self.S.AXIOMS["in_" + name] = ax
            self.S._axc.clear()
        a = self.V.new_arr(sh, dt, fn)
        self.arrs[name] = (a, a.cell.fn)
        return a

    def carr(self, name, shape, **k):
        return self.arr(name, shape, "c", **k)

    def orthonormal(self, name, rows, cols, dt="c"):
        """an array whose rows are orthonormal (precondition)"""
        a = self.arr(name, (rows, cols), dt)
        r = self.S.orthonormal_rule("in_" + name, self._p(rows), self._p(cols), dt != "c")
        self.it.prover.multi_rules.append(r)
        self.rules_added.append(r)
        return a

    def eigensystem(self, name, n, dt="c", vals=None, vecs=None):
        """what an eigensolver returns for some Hermitian matrix M: (M, eigenvalues in ascending order, matrix of orthonormal columns)
        with M V = V diag(w); M may be given to the code or only serve as ghost"""
        n = self._p(n)
        w = self.arr(vals or name + " w", (self.V.num(n, "i"),))
        v = self.arr(vecs or name + " v", (self.V.num(n, "i"),) * 2, dt)
        m = self.arr(name, (self.V.num(n, "i"),) * 2, dt)
        wn, vn, mn = ["in_" + x for x in (vals or name + " w", vecs or name + " v", name)]
        self.S.ASCENDING[wn] = n
        for r in (self.S.orthonormal_rule(vn, n, n, dt != "c", cols_first=True), self.S.eigen_rule(mn, vn, wn, n)):
            self.it.prover.multi_rules.append(r)
            self.rules_added.append(r)
        return m, w, v

    def harmonic_products(self, L):
        """Hermitian inner products I(i, j) of the L^2 harmonics over some region: I(j, i) = conj I(i, j), and for j of order zero
        I((l,-m), j) = (-1)^m conj I((l,m), j)"""
        T, SV = self.T, self.S
        n = self._p(L) * self._p(L)
        self.carr("inner products", (self.V.num(n, "i"),) * 2)

        def one(prover, i, j, depth=0):
            ok = prover.facts.entails
            if i != j and not ok(T.f_ge(i - j)):
                if ok(T.f_ge(j - i)):
                    x = one(prover, j, i)
                    return T.conj(T.app("in_inner products", (j, i), "C") if x is None else x)
                return None
            l = prover.simp(SV.isqrt(j))
            if prover.simp(j - l * l - l).is_zero() or ok(T.f_eq(j - l * l - l)):
                l = prover.simp(SV.isqrt(i))
                m = prover.simp(i - l * l - l)
                if ok(T.f_gt(-m)) and i != j:
                    return T.mk_sgn(m) * T.conj(T.app("in_inner products", (prover.simp(l * l + l - m), j), "C"))
            return None

        def rule(prover, p):
            sub = {}
            for a in T.atoms_of(p):
                if a.kind == "app" and a.data[0] == "in_inner products":
                    x = one(prover, *a.data[1])
                    if x is not None:
                        sub[a] = x
            return SV.replace_atoms(p, sub) if sub else None
        self.it.prover.rules.append(rule)
        return lambda i, j: self._n(T.app("in_inner products", (self._p(i), self._p(j)), "C"))

    def rows(self, a):
        """a result whose rows were selected by a condition, as an array"""
        if isinstance(a, self.V.Arr):
            return a
        r = self.A.selected(a)
        n = r.shape[0]
        m = self.it.prover.simp(n)
        if m != n:      # how many there are, for the facts about the selected points
            self.it.facts.push(self.T.f_eq(n - m))
        return r

    def order_solutions(self, L, decreasing=False):
        """eigensolutions of the operators of the orders m = -(L-1)..L-1 in the whole space of L^2 harmonics, each with L-|m|
        orthonormal vectors, those of different orders orthogonal: (operator(m, i, k), eigenvalue(m, j), vector(m, j, k))"""
        L_ = self._p(L)
        n = L_ * L_
        N = self.V.num
        op = self.carr("operators", (N(2 * L_ - 1, "i"), N(n, "i"), N(n, "i")))
        w = self.arr("order eigenvalues", (N(2 * L_ - 1, "i"), N(L_, "i")))
        v = self.carr("order vectors", (N(2 * L_ - 1, "i"), N(n, "i"), N(L_, "i")))
        cols = lambda a: L_ - self.T.mk_abs(a - (L_ - 1))
        for r in (self.S.isometry_rule("in_order vectors", n, cols, 1),
                  self.S.eigen_rule("in_operators", "in_order vectors", "in_order eigenvalues", n, cols, 1)):
            self.it.prover.multi_rules.append(r)
            self.rules_added.append(r)
        if decreasing:
            self.S.DESCENDING["in_order eigenvalues"] = cols
        return lambda m, i, k: self.at(op, m + L - 1, i, k), lambda m, j: self.at(w, m + L - 1, j), lambda m, j, k: self.at(v, m + L - 1, k, j)

    def tiling(self, name, J, n):
        """a real (J, n) array whose columns have unit norm: sum_j X[j, p]^2 = 1 (precondition)"""
        a = self.arr(name, (J, n))
        r = self.S.column_norm_rule("in_" + name, self._p(J), self._p(n))
        self.it.prover.multi_rules.append(r)
        self.rules_added.append(r)
        return a

    def beyond_last(self, length, n, j):
        """ghost step: instantiate 'no selected element after the last one' at j (length = last selected + 1)"""
        T = self.T
        for a in T.all_atoms(self._p(length)):
            if a.kind == "app" and a.data[0] == "selmax":
                at = T.app_lam(a.data[2][0], (self._p(j),))
                self.it.facts.push(T.f_or(T.f_ge(T.P(a) - self._p(j)), T.f_ge(self._p(j) - a.data[1][0]), T.f_eq(at)))
                self.ghost = at

    def maximum_at(self, value, *idx):
        """ghost step: the first point of a maximum (real parts first) occurring in value is not below the entry at idx"""
        T = self.T
        from . import models
        for a in T.all_atoms(self._p(value)):
            if a.kind == "app" and a.data[0] in ("first0", "first1", "first2") and len(a.data[1]) == len(idx):
                x = models.maximised(a.data[1], a.data[2][0])
                if x is not None:
                    pts = tuple(T.app("first%d" % k, a.data[1], "I", a.data[2]) for k in range(len(idx)))
                    at = [T.app_lam(x, q) for q in (pts, tuple(self._p(i) for i in idx))]
                    self.it.facts.push(T.f_ge(T.real_part(at[0]) - T.real_part(at[1])))

    def instantiate(self, *idx):
        """ghost step: a false 'exists' inside the last instantiated body is false at idx"""
        T = self.T
        for a in T.all_atoms(self.ghost):
            if a.kind == "app" and a.data[0] == "exists":
                b = self.S.Prover(self.it.facts).simp_formula(T.app_lam(a.data[2][0], tuple(self._p(i) for i in idx)))
                rng = [T.f_ge(self._p(i)) for i in idx] + [T.f_gt(d - self._p(i)) for i, d in zip(idx, a.data[1])]
                self.it.facts.push(T.f_or(T.f_batom(T.P(a)), T.f_not(T.f_and(b, *rng))))

    def barr(self, name, shape, **k):
        return self.arr(name, shape, "b", **k)

    def mask(self, name, shape):
        """an indicator array: Boolean, or of the numbers 0 and 1"""
        if self.choice(name + " type", ["bool", "float"]) == "bool":
            return self.barr(name, shape)
        b = self.barr(name + " set", shape)
        f = b.fn()
        a = self.V.new_arr(b.shape, "f", lambda i: self.T.iv(f(i)))
        self.arrs[name] = (a, a.cell.fn)
        return a

    def old(self, name):
        """the array input `name` as it was on entry"""
        a, f0 = self.arrs[name]
        return self.V.new_arr(a.shape, a.dt, f0)

    # -------------------------------------------------------- spec-level functions
    def _p(self, v):
        return self.V.poly(v) if not isinstance(v, self.T.Poly) else v

    def _n(self, p, k="f"):
        return self.V.num(p, k)

    def _k(self, *vs):
        ks = [self.V.kind(v) for v in vs]
        return "c" if "c" in ks else "f" if "f" in ks else "i"

    def conj(self, v):
        return self._n(self.T.conj(self._p(v)), self._k(v))

    def re(self, v):
        return self._n(self.T.real_part(self._p(v)))

    def im(self, v):
        return self._n(self.T.imag_part(self._p(v)))

    def abs(self, v):
        return self._n(self.T.mk_abs(self._p(v)), "i" if self._k(v) == "i" else "f")

    def sqrt(self, v):
        return self._n(self.T.mk_sqrt(self._p(v), self.it.facts.nonneg))

    def exp(self, v):
        return self._n(self.T.mk_exp(self._p(v)), self._k(v, 1.0))

    def log(self, v):
        return self._n(self.T.mk_log(self._p(v)))

    def log10(self, v):
        return self._n(self.T.div(self.T.mk_log(self._p(v)), self.T.mk_log(self.T.P(10))))

    def cos(self, v):
        return self._n(self.T.mk_cos(self._p(v)))

    def sin(self, v):
        return self._n(self.T.mk_sin(self._p(v)))

    @property
    def pi(self):
        return self._n(self.T.PI_)

    @property
    def I(self):
        return self._n(self.T.IMAG, "c")

    def sgn(self, m):
        return self._n(self.T.mk_sgn(self._p(m)), "i")

    def ite(self, c, a, b):
        c = self.V.formula(c)
        if isinstance(a, (self.V.Bool, bool)) and isinstance(b, (self.V.Bool, bool)):
            fa, fb = self.V.formula(a), self.V.formula(b)
            return self.V.mkbool(self.T.f_or(self.T.f_and(c, fa), self.T.f_and(self.T.f_not(c), fb)))
        return self._n(self.T.ite(c, self._p(a), self._p(b)), self._k(a, b))

    def where(self, c, thunk_a, thunk_b):
        """lazy conditional; each branch is evaluated under its condition"""
        c = self.V.formula(c)
        if c.op == "true" or (c.op != "false" and self.it.facts.entails(c)):
            return thunk_a()
        n = self.T.f_not(c)
        if c.op == "false" or self.it.facts.entails(n):
            return thunk_b()
        out = []
        for f, th in ((c, thunk_a), (n, thunk_b)):
            m = self.it.facts.mark()
            self.it.facts.push(f)
            self.it.nofork += 1
            try:
                out.append(th())
            finally:
                self.it.nofork -= 1
                self.it.facts.pop(m)
        a, b = out
        return self._n(self.T.ite(c, self._p(a), self._p(b)), self._k(a, b))

    def max(self, a, b):
        return self._n(self.T.mk_max(self._p(a), self._p(b)), self._k(a, b))

    def min(self, a, b):
        return self._n(self.T.mk_min(self._p(a), self._p(b)), self._k(a, b))

    def and_(self, *fs):
        return self.V.mkbool(self.T.f_and(*[self.V.formula(f) for f in fs]))

    def or_(self, *fs):
        return self.V.mkbool(self.T.f_or(*[self.V.formula(f) for f in fs]))

    def not_(self, f):
        return self.V.mkbool(self.T.f_not(self.V.formula(f)))

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def iff(self, a, b):
        if self.V.formula(a) == self.V.formula(b):
            return True
        return self.and_(self.implies(a, b), self.implies(b, a))

    def eq(self, a, b):
        return self.V.mkbool(self.T.f_eq(self._p(a), self._p(b)))

    def sum(self, lo, hi, fn):
        """sum of fn(v) for lo <= v < hi"""
        T = self.T
        v = T.fresh("s")
        m = self.it.facts.mark()
        self.it.facts.push(T.f_ge(v - self._p(lo)))
        self.it.facts.push(T.f_gt(self._p(hi) - v))
        self.it.nofork += 1
        try:
            body = fn(self.V.num(v, "i"))
        finally:
            self.it.nofork -= 1
            self.it.facts.pop(m)
        return self._n(T.Sum(v, self._p(lo), self._p(hi), self._p(body)), self._k(body))

    def app(self, name, *args, sort="R"):
        k = {"R": "f", "C": "c", "I": "i"}[sort]
        return self._n(self.T.app(name, tuple(self._p(a) for a in args), sort), k)

    def is_true(self, cond):
        """case distinction of the specification"""
        return self.it.decide(self.V.formula(cond))

    def numpy_scalar(self, v):
        return self.V.num(self._p(v), "f", True)

    def function(self, fn):
        """something the code may call"""
        from .interp import Native
        return Native(lambda it, a, k: fn(*a, **k))

    def fraction(self, x):
        """numerator and denominator of the closest fraction with a denominator up to a million"""
        if self._p(x).sort == "I":
            return x, 1
        n, d = (self.app("frac_" + k, x, 1000000, sort="I") for k in ("numerator", "denominator"))
        self.it.facts.push(self.T.f_ge(self._p(d) - 1))
        return n, d

    def memo(self, fn):
        return fn

    def randn(self, seed, k):
        """the k-th standard normal draw of a fresh generator with this seed"""
        return self._n(self.T.app("randn", (self._p(seed), self._p(k)), "R"))

    def rng(self, seed):
        """a fresh generator with this seed"""
        from . import models
        return models.rng_new(self.it, [seed], {})

    def package_file(self, path):
        """file name within the package's own data directory; None for a path elsewhere"""
        from . import interp
        s, d = path.s if isinstance(path, self.V.PathV) else path, interp.REPO_SRC + "/sleplet/_data/"
        return s[len(d):] if isinstance(s, str) and s.startswith(d) else None

    def at(self, a, *idx):
        """element of an array at in-range indices (no bounds obligations)"""
        return self.V.elem(a.at(*idx), a.dt)

    def build(self, shape, dt, fn):
        V = self.V

        def g(idx):
            self.it.nofork += 1
            try:
                v = fn(*[V.num(i, "i") for i in idx])
                return V.formula(v) if dt == "b" else self._p(v)
            finally:
                self.it.nofork -= 1
        return V.new_arr(tuple(self._p(s) for s in shape), dt, g)

    def floor(self, v):
        return self._n(self.V.floor_poly(self._p(v)), "i")

    def round(self, v):
        from . import models
        return self._n(models.round_poly(self._p(v)), "i")

    def isqrt(self, v):
        return self._n(self.S.isqrt(self._p(v)), "i")

    def fact(self, v):
        from . import models
        return self._n(models.fact_poly(self._p(v)), "i")

    def len(self, v):
        return self.it.models.BUILTINS["len"].fn(self.it, (v,), {})

    def shape(self, a):
        return tuple(self.V.num(s, "i") for s in a.shape)

    def is_array(self, v):
        return isinstance(v, self.V.Arr)

    def getitem(self, o, i):
        return self.it.getitem(o, i)

    # -------------------------------------------------------------------- actions
    def ylm(self, l, m, theta, phi):
        from . import models
        l, m = self._p(l), self._p(m)
        return self._n(models.ylm(l * l + l + m, self._p(theta), self._p(phi)), "c")

    def ylm_ind(self, q, theta, phi):
        from . import models
        return self._n(models.ylm(self._p(q), self._p(theta), self._p(phi)), "c")

    def theta(self, t, L):
        return self._n(self._p(t) * self.T.PI_ * self.T.inv(self._p(L)))

    def phi(self, p, L):
        return self._n(self._p(p) * self.T.PI_ * self.T.inv(self._p(L)))

    def dl(self, l, m, n, beta):
        from . import models
        return self._n(models.dl_app(self._p(l), self._p(m), self._p(n), self._p(beta)))

    def ext(self, name, /, *args, **kw):
        """a library function (its assumed contract symbolically, the library itself concretely)"""
        return self.it.models.MODELS[name](self.it, tuple(args), kw)

    def fn(self, qual):
        return self._resolve(qual)

    def _resolve(self, qual):
        parts = qual.split(".")
        for n in range(len(parts) - 1, 0, -1):
            m = self.it.module(".".join(parts[:n]))
            if m is not None:
                v = m
                for p in parts[n:]:
                    v = self.it.getattr(v, p) if not isinstance(v, type(m)) else self._modattr(v, p)
                return v
        raise self.V.Unsupported(f"no {qual}")

    def _modattr(self, m, p):
        from .interp import MISSING
        v = m.lookup(p)
        if v is MISSING:
            raise self.V.Unsupported(f"{m.name} has no {p}")
        return v

    def call(self, f, /, *args, **kw):
        if isinstance(f, str):
            f = self._resolve(f)
        return self.it.call(f, tuple(args), kw)

    def method(self, o, name, /, *args, **kw):
        return self.it.call(self.it.getattr(o, name), tuple(args), kw)

    def mcls(self, qual, name, o, /, *args, **kw):
        """call method `name` defined on class `qual` on a stand-in object"""
        c = self._resolve(qual)
        f = c.find(name)[0]
        return self.it.call(f, (o,) + tuple(args), kw)

    def new(self, qual, /, *args, **kw):
        return self.call(qual, *args, **kw)

    def obj(self, qual, /, _absent=(), **fields):
        """a stand-in object with these fields; it is known not to have the _absent ones"""
        o = self.V.Obj(self._resolve(qual), dict(fields))
        o.ready = o.stub = True
        o.absent = set(_absent)
        return o

    concrete = False

    def same(self, a, b):
        """the same object"""
        return a is b

    def ns(self, **fields):
        """a bare object with the given attributes (duck-typed argument)"""
        o = self.V.Obj("namespace", dict(fields))
        o.stub = True
        return o

    def get(self, o, name):
        return self.it.getattr(o, name)

    def set(self, o, name, v):
        self.it.setattr(o, name, v)

    def setitem(self, o, idx, v):
        self.it.setitem(o, idx, v)

    def finally_(self, fn):
        pass

    def classname(self, o):
        return o.cls.name

    def list(self, *items):
        return self.V.PList(list(items))

    def dict(self, **items):
        return self.V.PDict(dict(items))

    def items(self, v):
        """python-level items of a concrete-length sequence"""
        return list(self.it.concrete_iter(v))

    def outcome(self, fn):
        try:
            return ("ok", fn())
        except self.V.PyExc as e:
            return ("exc", e)

    def override(self, qual, handler):
        """replace a function by its contract (symbolic only); handler(*args, **kwargs)"""
        from . import interp
        owner, name = qual.rsplit(".", 1)
        try:
            c = self._resolve(owner)
            if isinstance(c, interp.Cls) and name not in c.attrs:
                f = c.find(name)        # an inherited method
                if f is not None and isinstance(f[0], interp.Func):
                    qual = f[0].qual
        except (self.V.Unsupported, self.V.PyExc):
            pass
        self.it.summaries[qual] = lambda it, a, k: handler(*a, **k)
        return qual

    def assume(self, cond):
        self.it.assume(self.V.formula(cond))

    def sorted(self, name, a):
        """elements in non-decreasing order"""
        n = self.len(a)
        self.forall(name + ": sorted", (n - 1,), lambda k: self.at(a, k) <= self.at(a, k + 1))

    def count(self, a, x):
        """how often x occurs in a (a permutation inside is irrelevant)"""
        T = self.T
        k = T.fresh("k")
        p = a.at(self.V.num(k, "i"))
        (m, c), = p.d.items() if len(p.d) == 1 else ((((None, 0),), 0),)
        at = m[0][0] if len(m) == 1 and m[0][1] == 1 and c == T.ONE else None
        if at is not None and at.kind == "app" and at.data[0] == "sorted" and at.data[1][0] == k:
            p = T.app_lam(at.data[2][0], (k,))
        return self._n(T.Sum0(k, a.shape[0], T.iv(T.f_eq(p - self._p(x)))), "i")

    def assume_local(self, cond):
        """hypothesis inside index()/lm() (popped with it)"""
        self.it.facts.push(self.V.formula(cond))

    def close(self, a, b):
        return self.eq(a, b)

    def rule(self, fn):
        self.it.prover.rules.append(fn)

    def sum_rule(self, fn):
        self.it.prover.sum_rules.append(fn)

    def mirrored_quadrature(self, q, mirror, m):
        """assumption on pyssht: its quadrature weights for (l,-m) are (-1)^m times the conjugates of those for (l,m) at spin 0"""
        T = self.T
        q, mirror, m = self._p(q), self._p(mirror), self._p(m)

        def fn(prover, p):
            sub = {a: T.mk_sgn(m) * T.conj(T.app("SHTKMWSS", (q,) + tuple(a.data[1][1:]), "C")) for a in T.atoms_of(p)
                   if a.kind == "app" and a.data[0] == "SHTKMWSS" and a.data[1][0] == mirror and a.data[1][4].is_zero()}
            return T.subst(p, sub) if sub else None
        self.it.prover.rules.append(fn)

    def mirrored_harmonics(self):
        """assumption on the harmonics: Y of (l,-m) is (-1)^m times the conjugate of Y of (l,m)"""
        T, SV = self.T, self.S
        P_ = T.P

        def rule(prover, p):
            sub = {}
            for a in T.atoms_of(p):
                y = a.data[0] if a.kind == "conj" else a
                if y.kind == "app" and y.data[0] == "Ylm":
                    q = y.data[1][0]
                    l = prover.simp(SV.isqrt(q))
                    m = prover.simp(q - l * l - l)
                    if a is y and prover.facts.entails(T.f_gt(-m)):
                        sub[a] = T.mk_sgn(m) * T.conj(T.app("Ylm", (prover.simp(l * l + l - m),) + tuple(a.data[1][1:]), "C"))
                    elif a is not y and prover.facts.entails(T.f_eq(m)):
                        sub[a] = P_(y)
            return SV.replace_atoms(p, sub) if sub else None
        self.it.prover.rules.append(rule)

    def chunks(self):
        """use the contract of split_arr_into_chunks (c14.split): disjoint shares covering 0..n-1"""
        models = self.it.models

        def handler(n, w):
            self.ensure("at least one worker", w >= 1)
            return models.ChunksV(self._p(n))
        self.override("sleplet._parallel_methods.split_arr_into_chunks", handler)

    def workers(self):
        """an arbitrary number of workers, chosen through the environment"""
        self.chunks()

    def w3j(self, *a):
        return self.app("w3j", *a)

    def opaque_names(self):
        """output names play no part (C23 is about them)"""
        self.override("sleplet._string_methods.filename_args", lambda *a, **k: "_arg")
        self.override("sleplet._string_methods.wavelet_ending", lambda *a, **k: "_scale")
        self.it.path_summaries |= {"sleplet._string_methods.filename_args", "sleplet._string_methods.wavelet_ending"}

    def use_w3j(self):
        """use the contract of _wigner3j (c09.wigner3j) on integer arguments"""
        self.override("sleplet.slepian.slepian_polar_cap.SlepianPolarCap._wigner3j", lambda *a: self.w3j(*a))

    # ------------------------------------------------------------------ obligations
    def _oblige(self, name, prove, residual=None):
        t = time.time()
        self.it.check_time()
        before = self.S.STATS["z3_calls"]
        unk = self.S.STATS["z3_unknown"]
        ok = prove()
        st = "proved" if ok else "unproved"
        model = None
        if not ok:
            if self.it.facts.inconsistent():
                ok, st = True, "proved"
            else:
                model = self.model(residual() if residual else None)
        definite = False
        if not ok:
            late = self.it.deadline and time.time() > self.it.deadline
            # a callee contract that was never reached: the code is organised otherwise, so the failure says nothing about it
            unreached = set(self.it.summaries) - self.it.path_summaries
            definite = not late and not unreached and not self.it.weak and self.S.STATS["z3_unknown"] == unk and model is not None
        be = "z3+normaliser" if self.S.STATS["z3_calls"] > before else "normaliser"
        det = ""
        if not ok:
            det = "path: " + " & ".join(repr(f) for f in self.it.facts.stack[:40])[:1500]
            r = getattr(self.it.prover, "residual", None)
            if r is not None:
                det += "\nresidual: " + repr(r)[:6000]
                det += "\nin the case: " + " & ".join(repr(f) for f in self.it.prover.residual_facts[len(self.it.facts.stack):])[:1500]
        self.obls.append(Obl(self.c.name, name, st, det, tuple(self.choices.items()), model, time.time() - t, be, definite))
        return ok

    def ensure(self, name, cond):
        f = self.V.formula(cond)
        self.it.prover.residual = None
        return self._oblige(name, lambda: self.it.prove(f), lambda: self.T.f_not(f))

    def fail(self, name, why=""):
        """reached a place that must be unreachable"""
        self.it.prover.residual = None
        return self._oblige(name + (": " + why if why else ""), lambda: self.it.facts.inconsistent())

    def equal(self, name, a, b):
        """equality of two scalars, strings, tuples or arrays"""
        V = self.V
        if a is None or b is None or isinstance(a, (str, V.SStr)) or isinstance(b, (str, V.SStr)):
            if a is None or b is None:
                return self.ensure(name, a is None and b is None)
            try:
                return self.ensure(name, V.sstr_eq(a, b, to_prove=True) if (isinstance(a, (str, V.SStr)) and isinstance(b, (str, V.SStr)) and not (isinstance(a, str) and isinstance(b, str))) else a == b)
            except V.Unsupported as e:
                # different structure: equality cannot be decided symbolically
                self.it.prover.residual = None
                return self._oblige(name + f" [{e}: {a!r} vs {b!r}]", lambda: False)
        if isinstance(a, (tuple, V.PList)) and isinstance(b, (tuple, V.PList)):
            xs, ys = self.items(a), self.items(b)
            if len(xs) != len(ys):
                return self.ensure(name + " (length)", False)
            return all([self.equal(f"{name}[{i}]", x, y) for i, (x, y) in enumerate(zip(xs, ys))])
        if isinstance(a, V.Arr) and len(a.shape) == 0:
            a = V.elem(a.at(), a.dt)
        if isinstance(b, V.Arr) and isinstance(a, V.Arr):
            return self.elems(name, a, self.shape(b), lambda *i: self.at(b, *i))
        if isinstance(a, V.Obj) or isinstance(b, V.Obj):
            return self.ensure(name, a is b)
        if not V.is_scalar(a) or not V.is_scalar(b):
            return self.ensure(name + f" ({type(a).__name__} vs {type(b).__name__})", a is b)
        if isinstance(a, (V.Bool, bool)) and isinstance(b, (V.Bool, bool)):
            return self.ensure(name, self.iff(a, b))
        d = self._p(a) - self._p(b)
        self.it.prover.residual = None
        return self._oblige(name, lambda: self.it.prover.prove_zero(d), lambda: self.T.f_not(self.T.f_eq(d)))

    def same_shape(self, name, a, shape):
        if not isinstance(a, self.V.Arr):
            # selections and lists: length only
            if len(shape) == 1 and not self.V.is_scalar(a) and a is not None:
                return self.equal(name + ": length", self.len(a), shape[0])
            return self.ensure(name + f": is an array (got {type(a).__name__})", False)
        if len(a.shape) != len(shape):
            return self.ensure(name + ": number of dimensions", False)
        ok = True
        for i, (x, y) in enumerate(zip(a.shape, shape)):
            ok &= self.equal(f"{name}: dimension {i}", self.V.num(x, "i"), y)
        return ok

    def _specialise(self, idx):
        """a known 'there is no such index' says so of this one"""
        T = self.T
        for f in list(self.it.facts.stack):
            if f.op == "not" and f.args[0].op == "b":
                (m, c), = f.args[0].args[0].d.items()
                a = m[0][0]
                if a.kind == "app" and a.data[0] == "exists" and len(a.data[1]) == len(idx):
                    rng = [T.f_ge(i) for i in idx] + [T.f_gt(d - i) for i, d in zip(idx, a.data[1])]
                    b = T.app_lam(a.data[2][0], tuple(idx))
                    self.it.facts.push(self.S.Prover(self.it.facts).simp_formula(T.f_not(T.f_and(b, *rng))))

    def elems(self, name, a, shape, fn, ranges=None, dtype=None):
        """a has the given shape and a[idx] == fn(*idx) for every idx in it"""
        if not self.same_shape(name, a, shape):
            return False
        if dtype is not None:
            self.ensure(name + ": element type", a.dt == dtype)
        T, V = self.T, self.V
        idx = [T.fresh("i") for _ in shape]
        m = self.it.facts.mark()
        try:
            for i, s in zip(idx, shape):
                self.it.facts.push(T.f_ge(i))
                self.it.facts.push(T.f_gt(self._p(s) - i))
            self._specialise(idx)
            if not self.it.facts.inconsistent():
                if not isinstance(a, V.Arr):
                    x = self.getitem(a, V.num(idx[0], "i"))
                else:
                    x = V.elem(a.at(*idx), a.dt)
                y = fn(*[V.num(i, "i") for i in idx])
                return self.equal(name + ": elements", x, y)
            else:
                self._oblige(name + ": elements (empty)", lambda: True)
                return True
        finally:
            self.it.facts.pop(m)

    def forall(self, name, shape, fn):
        """fn(*idx) holds for all 0 <= idx < shape"""
        T, V = self.T, self.V
        idx = [T.fresh("i") for _ in shape]
        m = self.it.facts.mark()
        try:
            for i, s in zip(idx, shape):
                self.it.facts.push(T.f_ge(i))
                self.it.facts.push(T.f_gt(self._p(s) - i))
            return self.ensure(name, fn(*[V.num(i, "i") for i in idx]))
        finally:
            self.it.facts.pop(m)

    def index(self, shape, fn):
        """run fn on a generic index of the given shape (obligations inside hold for all of them)"""
        T, V = self.T, self.V
        idx = [T.fresh("i") for _ in shape]
        m = self.it.facts.mark()
        try:
            for i, s in zip(idx, shape):
                self.it.facts.push(T.f_ge(i))
                self.it.facts.push(T.f_gt(self._p(s) - i))
            self._specialise(idx)
            if not self.it.facts.inconsistent():
                fn(*[V.num(i, "i") for i in idx])
        finally:
            self.it.facts.pop(m)

    def lm(self, L, fn):
        """run fn(ell, m, index) on a generic harmonic index of bandlimit L"""
        T, V = self.T, self.V
        l, m_ = T.fresh("l"), T.fresh("m")
        mk = self.it.facts.mark()
        try:
            f = self.it.facts
            f.push(T.f_ge(l)); f.push(T.f_gt(self._p(L) - l)); f.push(T.f_ge(l - m_)); f.push(T.f_ge(l + m_))
            if not f.inconsistent():
                fn(V.num(l, "i"), V.num(m_, "i"), V.num(l * l + l + m_, "i"))
        finally:
            self.it.facts.pop(mk)

    def lm_elems(self, name, a, L, fn, axis=-1, lead=()):
        """a is indexed by (l,m) pairs along its last axis: a[..., l^2+l+m] == fn(*lead, l, m)"""
        n = self._n(self._p(L) * self._p(L), "i")
        if not self.same_shape(name, a, tuple(lead) + (n,)):
            return False

        def outer(*li):
            def one(l, m, q):
                self.equal(name + ": elements", self.at(a, *li, q), fn(*li, l, m))
            self.lm(L, one)
        if lead:
            self.index(lead, outer)
        else:
            outer()

    def unchanged(self, *names):
        for n in names:
            a, f0 = self.arrs[n]
            if a.cell.fn is f0:
                self._oblige(f"{n} unchanged", lambda: True)
                continue
            T = self.T
            idx = [T.fresh("i") for _ in a.shape]
            m = self.it.facts.mark()
            try:
                for i, s in zip(idx, a.shape):
                    self.it.facts.push(T.f_ge(i))
                    self.it.facts.push(T.f_gt(s - i))
                self.equal(f"{n} unchanged", self.V.elem(a.cell.fn(tuple(idx)), a.dt), self.V.elem(f0(tuple(idx)), a.dt))
            finally:
                self.it.facts.pop(m)

    def raises(self, name, excs, fn):
        """fn must raise one of the exceptions"""
        from .interp import exc_isa
        k, v = self.outcome(fn)
        if k == "ok":
            return self.fail(name + ": refused")
        return self.ensure(name + ": refused", any(exc_isa(v.name, e) for e in excs))

    def refuses_iff(self, name, cond, excs, fn):
        """fn raises one of excs exactly when cond holds; the value otherwise"""
        from .interp import exc_isa
        k, v = self.outcome(fn)
        if k == "ok":
            self.ensure(name + ": accepted only when valid", self.not_(cond))
            return v
        self.ensure(name + f": refused only when invalid ({v.name})", self.and_(cond, any(exc_isa(v.name, e) for e in excs)))
        return None

    # ----------------------------------------------------------------------- models
    def model(self, extra=None, bound=6):
        """values of the named scalar inputs on this path, small if possible"""
        S = self.S
        import z3
        T = self.T
        atoms = {}
        for n, p in self.inputs.items():
            atoms[n] = next(iter(p.d))[0][0]
        out = None
        for b in (4, 8, 40, None):
            fs = list(self.it.facts.stack)
            acc = set()
            for f in fs + ([extra] if extra is not None else []):
                for x in f.args:
                    T.all_atoms(x, acc)
            acc = {a for a in acc if a.kind != "iv"}
            s = z3.Solver()
            s.set("timeout", 2000)
            for f in fs + S.axioms_for(acc) + ([extra] if extra is not None else []):
                try:
                    s.add(S.zf(f))
                except S.NotZ3:
                    pass
                except Exception:
                    pass
            if b is not None:
                for n, a in atoms.items():
                    if a.sort == "I":
                        s.add(S.zatom(a) <= b, S.zatom(a) >= -b)
            if s.check() == z3.sat:
                m = s.model()
                out = {}
                for n, a in atoms.items():
                    if a.sort == "C":
                        continue
                    v = m.eval(S.zatom(a), model_completion=False)
                    try:
                        if a.sort == "I":
                            out[n] = v.as_long()
                        elif z3.is_rational_value(v):
                            out[n] = float(v.numerator_as_long()) / float(v.denominator_as_long())
                        elif z3.is_algebraic_value(v):
                            out[n] = float(v.approx(20).as_fraction())
                    except Exception:
                        pass
                break
        if out is not None:
            out.update({"choice!" + n: i for n, i in self.choices.items()})
        return out


def run_symbolic(c, budget=None, setup=None):
    """-> dict(obls, error, touched, ...)"""
    from . import interp, values, solver
    from .interp import Budget
    it = interp.Interp()
    it.deadline = time.time() + (budget or c.budget)
    it.prover.deadline = it.deadline
    s = SymS(c, it)
    t0 = time.time()
    st0 = dict(solver.STATS)
    err = None
    npaths = 0
    vac = []

    def one(n):
        s.begin()
        before = len(s.obls)
        try:
            c.fn(s)
        except values.PyExc as e:
            if not it.facts.inconsistent():
                it.prover.residual = None
                msg = ", ".join(str(x) for x in e.vals)[:160] if isinstance(e.vals, tuple) else ""
                ok = s._oblige(f"no exception ({e.name})", lambda: False)
                s.obls[-1].detail = f"{e.name}({msg})\n" + s.obls[-1].detail
        except interp.PathDone:
            return
        if len(s.obls) == before and not it.facts.inconsistent():
            vac.append(n)
    try:
        from .interp import PathDone
        npaths = it.run_paths(one)
    except values.Unsupported as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        err = f"unsupported: {e}"
        s.trace = "".join(traceback.format_tb(e.__traceback__)[-6:])
    except Budget as e:
        err = f"budget: {e}"
    except RecursionError:
        err = "recursion limit"
    except (AssertionError, TypeError, KeyError, IndexError, AttributeError, ValueError, ZeroDivisionError, NotImplementedError) as e:
        import traceback
        err = f"engine error: {type(e).__name__}: {e}"
        s.trace = "".join(traceback.format_tb(e.__traceback__)[-8:])
    except Exception as e:     # z3 exceptions, TooBig ...
        import traceback
        err = f"engine error: {type(e).__name__}: {e}"
        s.trace = "".join(traceback.format_tb(e.__traceback__)[-8:])
    return {"obls": s.obls, "error": err, "paths": npaths, "vacuous": vac, "touched": {k: str(v) for k, v in it.touched.items()},
            "summaries": sorted(it.used_summaries), "assumptions": sorted(it.assumptions),
            "trace": getattr(s, "trace", ""), "time": time.time() - t0,
            "stats": {k: solver.STATS[k] - st0[k] for k in st0}}


# ============================================================================ concrete
class ConS:
    symbolic = False

    def __init__(self, contract, seed, given=None, special=0):
        import numpy as np
        self.np = np
        self.c, self.seed, self.given, self.special = contract, seed, dict(given or {}), special
        self.values = {}
        self.arrs = {}
        self.reached = []
        self.cleanup = []
        self.stubs = []

    def _rng(self, name):
        h = int.from_bytes(hashlib.sha256(f"{self.c.name}|{self.seed}|{name}".encode()).digest()[:8], "big")
        return self.np.random.default_rng(h)

    def _pick(self, name, lo, hi, sample, gen):
        if name in self.given:
            v = self.given[name]
        else:
            opts = list(sample) if sample is not None else None
            r = self._rng(name)
            if opts is not None:
                opts = [o for o in opts if (lo is None or o >= lo) and (hi is None or o <= hi)] or opts
                v = opts[int(r.integers(len(opts)))]
            else:
                v = gen(r)
        self.values[name] = v
        return v

    def int(self, name, lo=None, hi=None, sample=None):
        lo_, hi_ = lo, hi

        def gen(r):
            a = lo_ if lo_ is not None else -4
            b = hi_ if hi_ is not None else a + 6
            b = min(b, a + 12)
            if b < a:
                raise Skip
            return int(r.integers(a, b + 1))
        if sample is not None and name not in self.given:
            r = self._rng(name + "?")
            wide = self.seed >= 10**9       # larger sizes, where the symbolic reading stopped
            top = int(max(sample) * (2.5 if wide else 1.4)) + 1
            a = lo if lo is not None else min(sample)
            b = top if hi is None else min(hi, top)
            opts = [o for o in sample if (lo is None or o >= lo) and (hi is None or o <= hi)]
            if b >= a and (not opts or r.integers(5) == 0 or wide and r.integers(3)):
                sample = [int(r.integers(a, b + 1))]
        v = int(self._pick(name, lo, hi, sample, gen))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Skip
        return v

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, sample=None):
        def gen(r):
            if lo is None and hi is None:
                return float(r.normal() * 2)
            if hi is None:
                return float(lo) + float(r.exponential())
            if lo is None:
                return float(hi) - float(r.exponential())
            k = r.integers(8)
            if k == 0 and not lo_open:
                return float(lo)
            if k == 1 and not hi_open:
                return float(hi)
            return float(r.uniform(float(lo), float(hi)))
        v = float(self._pick(name, lo, hi, sample, gen))
        if (lo is not None and (v < lo or (lo_open and v <= lo))) or (hi is not None and (v > hi or (hi_open and v >= hi))):
            raise Skip
        return v

    def complex(self, name, sample=None):
        r = self._rng(name)
        return complex(r.normal(), r.normal())

    def choice(self, name, options, **_):
        options = list(options)
        k = self.given.get("choice!" + name)
        if k is None or not (0 <= k < len(options)):
            k = int(self._rng("choice!" + name).integers(len(options)))
        self.values["choice!" + name] = k
        return options[k]

    def classes(self, name, options, methods=()):
        return self.choice(name, options)

    def arr(self, name, shape, dt="f", lo=None, hi=None, make=None, lo_open=False, **_):
        np = self.np
        if not isinstance(shape, tuple):
            shape = (shape,)
        shape = tuple(int(s) for s in shape)
        if any(s < 0 for s in shape):
            raise Skip
        if int(np.prod(shape)) > 4_000_000:
            raise Skip
        r = self._rng(name)
        if make is not None:
            a = make(r, shape)
        elif dt == "b":
            a = r.random(shape) < r.choice([0.15, 0.5, 0.8])
        elif dt == "i":
            a = r.integers(lo if lo is not None else -5, (hi if hi is not None else 9) + 1, shape)
        else:
            a = r.normal(size=shape)
            if dt == "c":
                a = a + 1j * r.normal(size=shape)
            elif lo is not None or hi is not None:
                l_ = float(lo) if lo is not None else float(hi) - 3
                h_ = float(hi) if hi is not None else float(lo) + 3
                a = r.uniform(l_, h_, size=shape)
                if lo_open and r.integers(2):
                    a = l_ + (h_ - l_) * 10.0 ** r.uniform(-9, 0, size=shape)
            k = r.integers(12)
            if dt in "fc" and lo is None and hi is None and a.size:
                if k < 3:
                    a = a * (r.random(shape) < 0.6)     # some exact zeros
                elif k == 3:
                    a = a * 2.0 ** -float(r.integers(1, 34))
                elif k == 4 and a.ndim:                 # a single non-zero entry (or none)
                    z = np.zeros_like(a)
                    q = int(r.integers(a.size + 1))
                    if q < a.size:
                        z.flat[q] = a.flat[q]
                    a = z
                elif k == 5 and a.ndim:                 # zero beyond some index along each axis
                    for ax, n in enumerate(a.shape):
                        sl = [slice(None)] * a.ndim
                        sl[ax] = slice(int(r.integers(1, n + 1)), None)
                        a[tuple(sl)] = 0
        a = np.ascontiguousarray(a)
        self.arrs[name] = (a, a.copy())
        return a

    def carr(self, name, shape, **k):
        return self.arr(name, shape, "c", **k)

    def barr(self, name, shape, **k):
        return self.arr(name, shape, "b", **k)

    def mask(self, name, shape):
        if self.choice(name + " type", ["bool", "float"]) == "bool":
            return self.barr(name, shape)
        a = self.barr(name + " set", shape).astype(float)
        self.arrs[name] = (a, a.copy())
        return a

    def orthonormal(self, name, rows, cols, dt="c"):
        np = self.np

        def make(r, shape):
            n, m = shape
            z = r.normal(size=(m, m)) + (1j * r.normal(size=(m, m)) if dt == "c" else 0)
            q, _ = np.linalg.qr(z)
            return q[:n]
        return self.arr(name, (rows, cols), dt, make=make)

    def eigensystem(self, name, n, dt="c", vals=None, vecs=None):
        np = self.np

        def make_w(r, shape):
            w = np.sort(r.choice([r.normal(size=shape), r.uniform(0, 1, size=shape), np.round(r.uniform(0, 3, size=shape))]))
            return w

        def make_v(r, shape):
            z = r.normal(size=shape) + (1j * r.normal(size=shape) if dt == "c" else 0)
            if r.integers(3) == 0 and shape[0]:
                z = np.eye(shape[0])[r.permutation(shape[0])].astype(z.dtype) * r.choice([-1, 1])
            q, _ = np.linalg.qr(z)
            return q
        w = self.arr(vals or name + " w", (n,), make=make_w)
        v = self.arr(vecs or name + " v", (n, n), dt, make=make_v)
        m = (v * w) @ v.conj().T
        m = (m + m.conj().T) / 2
        return self.arr(name, (n, n), dt, make=lambda r, s: m), w, v

    def harmonic_products(self, L):
        np = self.np

        def make(r, shape):
            a = r.normal(size=shape) + 1j * r.normal(size=shape)
            l = np.floor(np.sqrt(np.arange(L * L))).astype(int)
            m = np.arange(L * L) - l * l - l
            b = (a[l * l + l - m][:, l * l + l - m].conj()) * np.outer((-1.0) ** m, (-1.0) ** m)
            a = (a + b) / 2
            return (a + a.conj().T) / 2
        a = self.arr("inner products", (L * L, L * L), "c", make=make)
        return lambda i, j: a[int(i), int(j)]

    def rows(self, a): return a

    def order_solutions(self, L, decreasing=False):
        np = self.np
        op, w, v = np.zeros((2 * L - 1, L * L, L * L), complex), np.zeros((2 * L - 1, L)), np.zeros((2 * L - 1, L * L, L), complex)
        r = self._rng("order solutions")
        ties = r.integers(3) == 0
        for m in range(1 - L, L):
            n = L - abs(m)
            q, _ = np.linalg.qr(r.normal(size=(n, n)))
            at = [l * (l + 1) + m for l in range(abs(m), L)]
            w[m + L - 1, :n] = np.round(r.uniform(0, 3, n)) if ties else r.uniform(0, 1, n)
            if decreasing:
                w[m + L - 1, :n] = -np.sort(-w[m + L - 1, :n])
            v[m + L - 1, at, :n] = q * (1j if m < 0 else 1)
            x = v[m + L - 1][:, :n]
            op[m + L - 1] = (x * w[m + L - 1, :n]) @ x.conj().T
        return lambda m, i, k: op[m + L - 1, i, k], lambda m, j: w[m + L - 1, j], lambda m, j, k: v[m + L - 1, k, j]

    def tiling(self, name, J, n):
        np = self.np

        def make(r, shape):
            x = r.normal(size=shape) * (r.random(shape) < r.choice([0.4, 1.0]))
            if shape[0]:
                x[r.integers(shape[0], size=shape[1]), np.arange(shape[1])] += 0.5
            nrm = np.sqrt((x * x).sum(axis=0))
            return x / np.where(nrm > 0, nrm, 1)
        return self.arr(name, (J, n), "f", make=make)

    def beyond_last(self, length, n, j): pass
    def maximum_at(self, value, *idx): pass
    def instantiate(self, *idx): pass
    def mirrored_quadrature(self, q, mirror, m): pass
    def mirrored_harmonics(self): pass

    # spec functions
    def conj(self, v): return self.np.conj(v)
    def re(self, v): return self.np.real(v)
    def im(self, v): return self.np.imag(v)
    def abs(self, v): return abs(v)

    def sqrt(self, v):
        return self.np.sqrt(float(v))

    def exp(self, v): return self.np.exp(v)
    def log(self, v): return self.np.log(v)
    def log10(self, v): return self.np.log10(v)
    def cos(self, v): return self.np.cos(v)
    def sin(self, v): return self.np.sin(v)
    pi = 3.141592653589793
    I = 1j

    def sgn(self, m): return -1 if int(m) % 2 else 1
    def ite(self, c, a, b): return a if c else b
    def where(self, c, a, b): return a() if c else b()
    def max(self, a, b): return max(a, b)
    def min(self, a, b): return min(a, b)
    def and_(self, *fs): return all(bool(f) for f in fs)
    def or_(self, *fs): return any(bool(f) for f in fs)
    def not_(self, f): return not f
    def implies(self, a, b): return (not a) or bool(b)
    def iff(self, a, b): return bool(a) == bool(b)
    def eq(self, a, b): return a == b

    def sum(self, lo, hi, fn):
        t = 0
        for v in range(int(lo), int(hi)):
            t = t + fn(v)
        return t

    def app(self, name, *args, sort="R"):
        raise Skip

    def is_true(self, cond): return bool(cond)
    def numpy_scalar(self, v): return self.np.float64(v)
    def function(self, fn): return fn

    def fraction(self, x):
        from fractions import Fraction
        f = Fraction(float(x)).limit_denominator(1000000)
        return f.numerator, f.denominator

    def memo(self, fn):
        """specification functions evaluated many times on the same indices"""
        import functools
        return functools.lru_cache(None)(fn)

    def randn(self, seed, k):
        c = self.__dict__.setdefault("_draws", {})
        d = c.setdefault(int(seed), [self.np.random.default_rng(int(seed)), []])
        while len(d[1]) <= k:
            d[1].append(float(d[0].standard_normal()))
        return d[1][int(k)]

    def rng(self, seed):
        return self.np.random.default_rng(int(seed))

    def package_file(self, path):
        import os
        import sleplet
        d = os.path.join(os.path.dirname(os.path.abspath(sleplet.__file__)), "_data")
        p = os.path.abspath(str(path))
        return p[len(d) + 1:] if p.startswith(d + os.sep) else None

    def at(self, a, *idx):
        return a[tuple(int(i) for i in idx)]

    def build(self, shape, dt, fn):
        np = self.np
        out = np.empty(tuple(int(s) for s in shape), dtype={"f": float, "c": complex, "i": int, "b": bool}[dt])
        for i in np.ndindex(out.shape):
            out[i] = fn(*i)
        return out

    def floor(self, v):
        import math
        return math.floor(v)

    def round(self, v): return round(float(v))

    def isqrt(self, v):
        import math
        return math.isqrt(int(v))

    def fact(self, v):
        import fractions
        import math
        return fractions.Fraction(math.factorial(int(v)))

    def len(self, v): return len(v)
    def shape(self, a): return a.shape
    def is_array(self, v): return isinstance(v, self.np.ndarray)
    def getitem(self, o, i): return o[i]

    def _ylms(self, theta, phi):
        key = (float(theta), float(phi))
        if not hasattr(ConS, "_yc"):
            ConS._yc = {}
        v = ConS._yc.get(key)
        if v is None:
            import pyssht
            v = ConS._yc[key] = pyssht.create_ylm(key[0], key[1], 20).flatten()
        return v

    def ylm(self, l, m, theta, phi):
        return self._ylms(theta, phi)[int(l * l + l + m)]

    def ylm_ind(self, q, theta, phi):
        return self._ylms(theta, phi)[int(q)]

    def theta(self, t, L): return t * self.pi / L
    def phi(self, p, L): return p * self.pi / L

    def dl(self, l, m, n, beta):
        import pyssht
        if not hasattr(ConS, "_dc"):
            ConS._dc = {}
        k = float(beta)
        if k not in ConS._dc:
            ConS._dc[k] = pyssht.generate_dl(k, 16)
        return ConS._dc[k][int(l), int(m) + 15, int(n) + 15]

    def ext(self, name, /, *args, **kw):
        import importlib
        mod, f = name.rsplit(".", 1)
        return getattr(importlib.import_module(mod), f)(*args, **kw)

    # actions
    def _resolve(self, qual):
        import importlib
        parts = qual.split(".")
        for n in range(max(len(parts) - 1, 1), 0, -1):
            try:
                m = importlib.import_module(".".join(parts[:n]))
            except ModuleNotFoundError:
                continue
            v = m
            for i, p in enumerate(parts[n:], n + 1):
                if not hasattr(v, p) and hasattr(v, "__path__"):
                    importlib.import_module(".".join(parts[:i]))
                v = getattr(v, p)
            return v
        raise Skip

    def fn(self, qual):
        return self._resolve(qual)

    def call(self, f, /, *args, **kw):
        if isinstance(f, str):
            f = self._resolve(f)
        return f(*args, **kw)

    def method(self, o, name, /, *args, **kw):
        return getattr(o, name)(*args, **kw)

    def mcls(self, qual, name, o, /, *args, **kw):
        c = self._resolve(qual)
        return getattr(c, name)(o, *args, **kw)

    def new(self, qual, /, *args, **kw):
        return self.call(qual, *args, **kw)

    concrete = True

    def same(self, a, b): return a is b

    def obj(self, qual, /, _absent=(), **fields):
        c = self._resolve(qual)
        o = object.__new__(c)
        o.__dict__.update(fields)
        self.stubs.append(o)
        return o

    def ns(self, **fields):
        import types
        o = types.SimpleNamespace(**fields)
        self.stubs.append(o)
        return o

    def get(self, o, name): return getattr(o, name)
    def set(self, o, name, v): setattr(o, name, v)
    def setitem(self, o, idx, v): o[idx] = v

    def workers(self):
        import os
        n = self.choice("workers", [None, 1, 2, 3, 7])
        old = os.environ.get("NCPU")
        if n is None:
            os.environ.pop("NCPU", None)
        else:
            os.environ["NCPU"] = str(n)
        self.cleanup.append(lambda: os.environ.__setitem__("NCPU", old) if old is not None else os.environ.pop("NCPU", None))

    def w3j(self, *a):
        from contracts.c09 import racah
        return racah(self, *[int(x) for x in a])

    def use_w3j(self): pass
    def opaque_names(self): pass

    def finally_(self, fn):
        """clean-up of real resources at the end of the concrete run"""
        self.cleanup.append(fn)

    def classname(self, o): return type(o).__name__
    def list(self, *items): return list(items)
    def dict(self, **items): return dict(items)
    def items(self, v): return list(v)

    def outcome(self, fn):
        try:
            return ("ok", fn())
        except (Skip, LocalSkip, Fail):
            raise
        except Exception as e:
            return ("exc", e)

    def override(self, qual, handler):
        pass

    def patch(self, qual, handler):
        owner, name = qual.rsplit(".", 1)
        o = self._resolve(owner)
        had = name in vars(o)
        old = vars(o).get(name)
        setattr(o, name, lambda *a, **k: handler(*a, **k))
        self.cleanup.append(lambda: setattr(o, name, old) if had else delattr(o, name))

    def store(self):
        from . import sandbox
        sandbox.enter()
        sandbox.fresh_data()
        sandbox.STATE["loads"] = 0
        self._resolve("sleplet._data.setup_pooch.find_on_pooch_then_local")
        import sleplet._data.setup_pooch as sp
        sp._POOCH = None

        def reset():
            sandbox.fresh_data()
            sp._POOCH = None
        self.cleanup.append(reset)

    def _user(self, name):
        import platformdirs
        d = platformdirs.user_data_path()
        d.mkdir(parents=True, exist_ok=True)
        return d / name

    def put_local(self, name, a):
        self.np.save(self._user(name), a)

    def put_registry(self, name, a):
        import os
        from . import sandbox
        d = os.path.join(sandbox.STATE["dir"], "registry")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, name)
        if isinstance(a, dict):
            import scipy.io
            scipy.io.savemat(p, a)
        else:
            self.np.save(p, a)
        sandbox.STATE["registry"][name] = p

    def local(self, name):
        p = self._user(name)
        return self.np.load(p) if p.exists() else None

    def contents(self, path):
        import os
        return None if path is None or not os.path.exists(path) else self.np.load(path)

    def registry_loads(self):
        from . import sandbox
        return sandbox.STATE["loads"]

    def saves(self):
        return sum(1 for p in self._user("x").parent.iterdir())

    def environment(self, **values):
        import os
        for k, v in values.items():
            old = os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v

            def back(k=k, old=old):
                os.environ.pop(k, None)
                if old is not None:
                    os.environ[k] = old
            self.cleanup.append(back)

    def text(self, *parts):
        return "".join(p if isinstance(p, str) else str(int(p)) for p in parts)

    def assume(self, cond):
        if not cond:
            raise Skip

    def rule(self, fn):
        pass

    def sum_rule(self, fn):
        pass

    # obligations
    def _hit(self, name):
        self.reached.append(name)

    def ensure(self, name, cond):
        self._hit(name)
        if not bool(cond):
            raise Fail(name, "clause is false")
        return True

    def old(self, name):
        return self.arrs[name][1]

    def fail(self, name, why=""):
        raise Fail(name + (": " + why if why else ""), "reached")

    tol = 1e-8

    def _close(self, a, b, scale=None):
        np = self.np
        try:
            a, b = complex(a), complex(b)
        except TypeError:
            return a == b
        if a == b:
            return True
        if a != a or b != b:
            return (a != a) and (b != b)
        s = max(abs(a), abs(b), scale or 0.0)
        return abs(a - b) <= self.tol * s + 1e-12

    def equal(self, name, a, b, scale=None):
        np = self.np
        self._hit(name)
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            if a is not b and a != b:
                raise Fail(name, f"{a!r} != {b!r}")
            return True
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if len(a) != len(b):
                raise Fail(name, f"length {len(a)} != {len(b)}")
            for i, (x, y) in enumerate(zip(a, b)):
                self.equal(f"{name}[{i}]", x, y)
            return True
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            a, b = np.asarray(a), np.asarray(b)
            if a.shape != b.shape:
                raise Fail(name, f"shape {a.shape} != {b.shape}")
            sc = float(np.max(np.abs(b))) if b.size and b.dtype != bool else 0.0
            for i in np.ndindex(a.shape):
                if not self._close(a[i], b[i], sc):
                    raise Fail(name, f"at {i}: {a[i]!r} != {b[i]!r}")
            return True
        if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
            if bool(a) != bool(b):
                raise Fail(name, f"{a!r} != {b!r}")
            return True
        if isinstance(a, (int, float, complex, np.number)) and isinstance(b, (int, float, complex, np.number)):
            if not self._close(a, b, scale):
                raise Fail(name, f"{a!r} != {b!r}")
            return True
        if a is not b and not (a == b):
            try:
                if self._close(complex(a), complex(b), scale):
                    return True
            except (TypeError, ValueError):
                pass
            raise Fail(name, f"{a!r} is not {b!r}")
        return True

    def same_shape(self, name, a, shape):
        np = self.np
        shape = tuple(int(s) for s in shape)
        self._hit(name + ": shape")
        got = a.shape if isinstance(a, np.ndarray) else ((len(a),) if hasattr(a, "__len__") else None)
        if got != shape:
            raise Fail(name + ": shape", f"{got} != {shape}")
        return True

    def elems(self, name, a, shape, fn, ranges=None, dtype=None):
        np = self.np
        self.same_shape(name, a, shape)
        if dtype is not None:
            k = {"f": "f", "c": "c", "i": "iu", "b": "b"}[dtype]
            self.ensure(name + ": element type", a.dtype.kind in k)
        idx = list(np.ndindex(*[int(s) for s in shape]))
        vals = [(i, fn(*i)) for i in idx]
        try:
            sc = max([abs(complex(v)) for _, v in vals if not isinstance(v, (bool, np.bool_))] or [0.0])
        except TypeError:
            sc = None
        for i, v in vals:
            self.equal(name + ": elements", a[i] if isinstance(a, np.ndarray) else a[i[0]], v, scale=sc) if not isinstance(v, np.ndarray) else self.equal(name + ": elements", a[i[0]], v)
        return True

    def forall(self, name, shape, fn):
        self._hit(name)
        for i in self.np.ndindex(*[int(s) for s in shape]):
            if not bool(fn(*i)):
                raise Fail(name, f"false at {i}")
        return True

    def sorted(self, name, a):
        self._hit(name + ": sorted")
        if any(a[k] > a[k + 1] for k in range(len(a) - 1)):
            raise Fail(name + ": sorted", f"{list(a)[:20]}")

    def count(self, a, x):
        return sum(1 for y in a if y == x)

    def index(self, shape, fn):
        for i in self.np.ndindex(*[int(s) for s in shape]):
            try:
                fn(*i)
            except LocalSkip:
                pass

    def assume_local(self, cond):
        if not cond:
            raise LocalSkip

    def close(self, a, b):
        return self._close(a, b, max(1.0, abs(b)))

    def lm(self, L, fn):
        for l in range(int(L)):
            for m in range(-l, l + 1):
                try:
                    fn(l, m, l * l + l + m)
                except LocalSkip:
                    pass

    def lm_elems(self, name, a, L, fn, axis=-1, lead=()):
        self.same_shape(name, a, tuple(lead) + (int(L) ** 2,))
        np = self.np
        idx = list(np.ndindex(*[int(s) for s in lead])) if lead else [()]
        vals = []
        for li in idx:
            for l in range(int(L)):
                for m in range(-l, l + 1):
                    vals.append((li + (l * l + l + m,), fn(*li, l, m)))
        sc = max([abs(complex(v)) for _, v in vals] or [0.0])
        for i, v in vals:
            self.equal(name + ": elements", a[i], v, scale=sc)

    def unchanged(self, *names):
        for n in names:
            a, b = self.arrs[n]
            self._hit(f"{n} unchanged")
            if not self.np.array_equal(a, b, equal_nan=a.dtype.kind in "fc"):
                raise Fail(f"{n} unchanged", "input was modified")

    def _isexc(self, e, names):
        return any(k.__name__ in names for k in type(e).__mro__)

    def raises(self, name, excs, fn):
        k, v = self.outcome(fn)
        self._hit(name + ": refused")
        if k == "ok":
            raise Fail(name + ": refused", f"accepted, result {v!r}"[:200])
        if not self._isexc(v, excs):
            raise Fail(name + ": refused", f"raised {type(v).__name__}: {v}"[:200])
        return True

    def refuses_iff(self, name, cond, excs, fn):
        k, v = self.outcome(fn)
        if k == "ok":
            self._hit(name + ": accepted only when valid")
            if cond:
                raise Fail(name + ": accepted only when valid", f"accepted although invalid; result {v!r}"[:200])
            return v
        self._hit(name + ": refused only when invalid")
        if not cond or not self._isexc(v, excs):
            raise Fail(name + ": refused only when invalid", f"raised {type(v).__name__}: {v}"[:200])
        return None


def run_concrete(c, seed, given=None, timeout=None):
    """-> ('ok'|'skip'|'fail'|'error', detail, values, reached)"""
    import contextlib
    import io
    import warnings
    s = ConS(c, seed, given)
    buf = io.StringIO()
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            warnings.simplefilter("ignore")
            with s.np.errstate(all="ignore"):
                c.fn(s)
        return ("ok", "", s.values, s.reached)
    except Skip:
        return ("skip", "", s.values, s.reached)
    except Fail as e:
        return ("fail", str(e), s.values, s.reached)
    except Exception as e:
        import traceback
        frames = traceback.extract_tb(e.__traceback__)
        inrepo = any("/sleplet/" in f.filename for f in frames) and "/contracts/" not in frames[-1].filename
        det = f"{type(e).__name__}: {e}"[:300] + " | " + "; ".join(f"{f.filename.split('/')[-1]}:{f.lineno}" for f in frames[-4:])
        if isinstance(e, AttributeError) and any(getattr(e, "obj", None) is o for o in s.stubs):
            inrepo = False      # the stand-in lacks a field the code now uses: no answer from this run
        return ("fail" if inrepo else "error", f"unexpected exception {det}", s.values, s.reached)
    finally:
        for f in reversed(s.cleanup):
            try:
                f()
            except Exception:       # noqa: BLE001
                pass
