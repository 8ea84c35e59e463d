"""Facts, z3 back end, and the equality prover."""
from __future__ import annotations

import sys
import time
from fractions import Fraction

if "/opt/veriftools/pyvenv/lib/python3.12/site-packages" not in sys.path:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3

from . import terms as T
from .terms import P, Poly, Formula, TRUE, FALSE, f_not, f_and, f_ge, f_gt, f_eq, iv, subst

STATS = {"z3_calls": 0, "z3_time": 0.0, "z3_unknown": 0}
TIMEOUT_MS = 400

_z3c: dict = {}

class NotZ3(Exception):
    pass

def zatom(a):
    r = _z3c.get(a)
    if r is None:
        if a.kind == "iv":
            f = zf(a.data[0])
            r = z3.If(f, z3.IntVal(1), z3.IntVal(0))
        elif a is T.PI_ATOM:
            r = z3.Real("pi")
        elif a.sort == "I":
            r = z3.Int(f"a{a.id}")
        elif a.sort == "B":
            r = z3.Bool(f"a{a.id}")
        elif a.sort == "R":
            r = z3.Real(f"a{a.id}")
        else:
            raise NotZ3
        _z3c[a] = r
    return r

def zp(p, real=False):
    """z3 term of a real/int poly"""
    terms = []
    for m, c in p.d.items():
        if c[1] != 0:
            raise NotZ3
        t = None
        for a, e in m:
            x = zatom(a)
            if a.sort == "B":
                x = z3.If(x, z3.IntVal(1), z3.IntVal(0))
            if e < 0:
                if x.sort() == z3.IntSort():
                    x = z3.ToReal(x)
                y = z3.RealVal(1) / x
                for _ in range(-e):
                    t = y if t is None else t * y
            else:
                for _ in range(e):
                    t = x if t is None else t * x
        if type(c[0]) is int:
            k = z3.IntVal(c[0])
        else:
            k = z3.RealVal(str(c[0]))
        if t is None:
            t = k
        elif c[0] == 1:
            pass
        else:
            t = k * t
        terms.append(t)
    if not terms:
        return z3.IntVal(0)
    s = terms[0]
    for t in terms[1:]:
        s = s + t
    return s

_zfc: dict = {}
_fatoms: dict = {}
_results: dict = {}

def zf(f):
    r = _zfc.get(f)
    if r is None:
        try:
            r = _zf(f)
        except NotZ3:
            r = NotZ3
        if len(_zfc) > 400000:
            _zfc.clear()
        _zfc[f] = r
    if r is NotZ3:
        raise NotZ3
    return r

def fatoms(f):
    s = _fatoms.get(f)
    if s is None:
        s = set()
        for x in f.args:
            T.all_atoms(x, s)
        s = frozenset(s)
        if len(_fatoms) > 400000:
            _fatoms.clear()
        _fatoms[f] = s
    return s

def _zf(f):
    op = f.op
    if op == "true":
        return z3.BoolVal(True)
    if op == "false":
        return z3.BoolVal(False)
    if op == "and":
        return z3.And(*[zf(g) for g in f.args])
    if op == "or":
        return z3.Or(*[zf(g) for g in f.args])
    if op == "not":
        return z3.Not(zf(f.args[0]))
    p = f.args[0]
    if op == "b":
        (m, c), = p.d.items()
        return zatom(m[0][0])
    if op == "eq" and p.sort == "C":
        # re == 0 and im == 0 are not tracked: opaque boolean per canonical poly
        if len(p.d) == 1:
            # a product vanishes exactly when one factor does
            (m, _), = p.d.items()
            if all(e > 0 for _, e in m):
                out = []
                for a, e in m:
                    b = a.data[0] if a.kind == "conj" else a
                    out.append(z3.Bool("ceq!%d" % T.mk_atom("ceq", (P(b),), "B").id) if b.sort == "C" else zf(f_eq(P(b))))
                return z3.Or(*out)
        return z3.Bool("ceq!%d" % T.mk_atom("ceq", (p,), "B").id)
    t = zp(p)
    if op == "ge":
        return t >= 0
    if op == "gt":
        return t > 0
    return t == 0

# ------------------------------------------------------------------ atom axioms
AXIOMS: dict = {}   # app name -> fn(atom) -> list[Formula]

def axioms_for(atoms):
    out = []
    todo = list(atoms)
    seen = set(todo)
    while todo:
        a = todo.pop()
        fs = _ax(a)
        for f in fs:
            out.append(f)
            new = set()
            for x in f.args:
                T.all_atoms(x, new)
            for b in new:
                if b not in seen:
                    seen.add(b)
                    todo.append(b)
    return out

_axc: dict = {}

def _ax(a):
    r = _axc.get(a)
    if r is None:
        r = []
        if a is T.PI_ATOM:
            r = [f_gt(P(a) - Fraction(333, 106)), f_gt(Fraction(22, 7) - P(a))]
        elif a.kind == "exp" and a.sort == "R":
            if T._is_sign(a):
                r = [f_eq(P(a) * P(a), 1)] if False else [T.f_or(f_eq(P(a), 1), f_eq(P(a), -1))]
            else:
                r = [f_gt(P(a))]
        elif a.kind == "sqrt":
            r = [f_ge(P(a))]
            if a.data[0].is_const():
                r = [f_gt(P(a))]
            elif a.data[0].sort != "C":
                r = [f_ge(P(a)), T.f_or(f_eq(a.data[0]), f_gt(P(a)))]
        elif a.kind == "abs":
            r = [f_ge(P(a))]
            if a.data[0].sort != "C":
                r += [f_ge(P(a) - a.data[0]), f_ge(P(a) + a.data[0]),
                      T.f_or(f_eq(P(a), a.data[0]), f_eq(P(a), -a.data[0]))]
        elif a.kind == "inv" and a.sort == "R":
            q = a.data[0]
            r = [T.f_or(f_eq(q), T.f_and(f_gt(q), f_gt(P(a))), T.f_and(f_gt(-q), f_gt(-P(a))))]
        elif a.kind == "app":
            g = AXIOMS.get(a.data[0])
            if g is not None:
                r = list(g(a))
        _axc[a] = r
    return r

# ------------------------------------------------------------------------ facts
class Facts:
    """A stack of formulas known to hold."""

    def __init__(self):
        self.stack: list[Formula] = []
        self.cache: dict = {}
        self.solver = None

    def push(self, f: Formula):
        if f.op == "and":
            for g in f.args:
                self.push(g)
            return
        if f.op == "ge":
            q = -f.args[0]
            if any(g.op == "ge" and g.args[0] == q for g in self.stack):
                self.stack.append(f_eq(q))
        self.stack.append(f)
        self.cache = {}
        if f.op == "ge" and len(f.args[0].d) == 1:
            (m, c), = f.args[0].d.items()
            if c[0] < 0 and c[1] == 0 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "abs":
                z = m[0][0].data[0]          # -|z| >= 0
                if isinstance(z, Poly) and z.sort != "C":
                    self.stack.append(f_eq(z))

    def mark(self):
        return len(self.stack)

    def pop(self, n):
        if len(self.stack) != n:
            del self.stack[n:]
            self.cache = {}

    def _check(self, extra, timeout=None):
        """sat-check of facts and extra formulas, with atom axioms"""
        fs = self.stack + list(extra)
        # relevance: keep facts sharing atoms with extra (transitively)
        acc = set()
        for f in extra:
            acc |= fatoms(f)
        pool = [(f, fatoms(f)) for f in self.stack]
        chosen = []
        changed = True
        rel = {a for a in acc if a.kind != "iv"}
        ax_done = set()
        axs = []
        while changed:
            changed = False
            new_ax_atoms = rel - ax_done
            if new_ax_atoms:
                ax_done |= new_ax_atoms
                for f in axioms_for(new_ax_atoms):
                    if f not in axs:
                        axs.append(f)
                        s = fatoms(f)
                        if not s <= rel:
                            rel |= s
                            changed = True
            rest = []
            for f, s in pool:
                if s & rel:
                    chosen.append(f)
                    if not s <= rel:
                        rel |= s
                        changed = True
                    else:
                        changed = changed or False
                else:
                    rest.append((f, s))
            if len(rest) != len(pool):
                changed = True
            pool = rest
        axs += square_lemmas(rel) + order_lemmas(rel)
        key = (frozenset(chosen), frozenset(extra), frozenset(axs))
        if key in _results:
            return _results[key]
        if (key, timeout) in _results:
            STATS["z3_unknown"] += 1
            return z3.unknown
        s = z3.Solver()
        s.set("timeout", timeout or TIMEOUT_MS)
        for f in chosen + axs + list(extra):
            try:
                s.add(zf(f))
            except NotZ3:
                if f in extra:
                    return z3.unknown
        t = time.time()
        r = s.check()
        STATS["z3_calls"] += 1
        STATS["z3_time"] += time.time() - t
        if r == z3.unknown:
            STATS["z3_unknown"] += 1
            _results[(key, timeout)] = r
        else:
            _results[key] = r
        self.last_solver = s
        return r

    def entails(self, f: Formula, timeout=None) -> bool:
        if f.op == "true":
            return True
        if f.op == "false":
            return self.inconsistent()
        if f.op == "and":
            return all(self.entails(g, timeout) for g in f.args)
        r = self.cache.get(f)
        if r is None:
            if f in self.stack:
                r = True
            else:
                q = quick(f)
                if q is True:
                    r = True
                else:
                    r = self._check([f_not(f)], timeout) == z3.unsat
            self.cache[f] = r
        return r

    def inconsistent(self):
        r = self.cache.get("inc")
        if r is None:
            s = z3.Solver()
            s.set("timeout", 1000)
            acc = set()
            for f in self.stack:
                for x in f.args:
                    T.all_atoms(x, acc)
            acc = {a for a in acc if a.kind != "iv"}
            axs = axioms_for(acc)
            for f in self.stack + axs + square_lemmas(acc):
                try:
                    s.add(zf(f))
                except NotZ3:
                    pass
            r = s.check() == z3.unsat
            self.cache["inc"] = r
        return r

    def unsat(self, fs):
        key = ("u", tuple(fs))
        r = self.cache.get(key)
        if r is None:
            r = self._check(fs) == z3.unsat
            self.cache[key] = r
        return r

    def nonneg(self, p):
        p = P(p)
        if p.sort == "C":
            return False
        return self.entails(f_ge(p))

def quick(f):
    """cheap syntactic check"""
    if f.op in ("ge", "gt"):
        p = f.args[0]
        for m, c in p.d.items():
            if c[1] != 0 or c[0] < 0:
                return None
            for a, e in m:
                if a is T.PI_ATOM or a.kind in ("abs",) or (a.kind == "sqrt") or (a.kind == "exp" and a.sort == "R" and not T._is_sign(a)) or a.kind == "iv":
                    continue
                if e % 2 == 0 and a.sort != "C":
                    continue
                return None
        if f.op == "ge":
            return True
        if p.const()[0] > 0:
            return True
        return None
    return None

def square_lemmas(atoms):
    """monotonicity of squares between integer roots (el atoms) and integer symbols"""
    roots = [a for a in atoms if a.kind == "app" and a.data[0] == "isqrt"]
    if not roots:
        return []
    out = []
    ints = [a for a in atoms if a.sort == "I" and a.kind in ("sym", "app") and a not in roots]
    cand = [a for a in ints if a.kind == "sym"][:8]
    for r in roots:
        R = P(r)
        for a in cand + [q for q in roots if q.id > r.id]:
            A = P(a)
            out.append(T.f_or(f_ge(A - R), f_ge(R * R - (A + 1) * (A + 1)), f_gt(-A)))
            out.append(T.f_or(f_ge(R - A), f_ge(A * A - (R + 1) * (R + 1))))
    return out

# -------------------------------------------------------------------- simplifier
class Prover:
    def __init__(self, facts: Facts):
        self.facts = facts
        self.rules = []          # rewrite hooks: fn(prover, poly) -> poly or None
        self.obligation_log = []
        self.eqsub_cache = None
        T.ctx_nonneg_hook[0] = lambda q: self.facts.nonneg(q)
        T.SUM_HOOK[0] = self.sum_hook
        self.depth = 0
        self.sum_rules = []
        self.multi_rules = [sht_exact, stride_rule, permutation_rule, pieces_rule]
        self.deadline = None

    # -- sums under facts ---------------------------------------------------
    def sum_hook(self, va, n, ins):
        """Sum_{va<n} prod(ins): simplify indicators using facts + range of va"""
        ivs = [(a, e) for a, e in ins if a.kind == "iv"]
        v = P(va)
        mark = self.facts.mark()
        if ivs or any(a.kind == "sum" for a, e in ins):
            self.facts.push(f_ge(v))
            self.facts.push(f_gt(n - v))
            try:
                lits = [a.data[0] for a, _ in ivs]
                if ivs and self.facts.unsat(lits):
                    return T.PZERO
                keep = []
                drop = False
                for i, (a, e) in enumerate(ivs):
                    if self.facts.entails(a.data[0]):
                        drop = True
                    else:
                        keep.append((a, e))
                if drop:
                    rest = tuple(x for x in ins if x[0].kind != "iv" or x in keep)
                    rest = tuple(sorted(rest, key=T._sk))
                    self.facts.pop(mark)
                    return T._sum_mono(va, n, rest) if rest else T.mk_count(n)
                # unique witness
                if keep:
                    for w in self.witnesses(va, [a.data[0] for a, _ in keep]):
                        if self.facts._check([a.data[0] for a, _ in keep] + [f_not(f_eq(v, w))]) == z3.unsat:
                            rest = Poly({tuple(x for x in ins if x not in keep): T.ONE})
                            g = T.PONE
                            for a, _ in keep:
                                g = g * subst(P(a), {va: w})
                            g = g * iv(f_ge(w)) * iv(f_gt(n - w))
                            self.facts.pop(mark)
                            return g * subst(rest, {va: w})
                # range tightening:  v >= e  or  v < e
                for a, e in keep:
                    f = a.data[0]
                    if f.op == "ge" and f.args[0].sort == "I":
                        p = f.args[0]
                        cs = [(m, c) for m, c in p.d.items() if any(va in b.fv for b, _ in m)]
                        if len(cs) == 1 and cs[0][0] == ((va, 1),) and cs[0][1][0] in (1, -1):
                            other = p - Poly({cs[0][0]: cs[0][1]})
                            rest = Poly({tuple(x for x in ins if x[0] is not a): T.ONE})
                            self.facts.pop(mark)
                            if cs[0][1][0] == 1:   # v >= -other
                                lo = T.mk_max(T.PZERO, -other)
                                return T.Sum(v, lo, n, rest)
                            hi = T.mk_min(n, other + 1)
                            return T.Sum(v, T.PZERO, hi, rest)
            finally:
                self.facts.pop(mark)
        for rule in self.sum_rules:
            r = rule(self, va, n, ins)
            if r is not None:
                return r
        return None

    def witnesses(self, va, lits):
        seen = []
        def add(w):
            if va not in w.fv and w not in seen:
                seen.append(w)
        for f in lits:
            if f.op in ("ge", "eq", "gt"):
                p = f.args[0]
                # linear occurrence
                lin = p.d.get(((va, 1),))
                if lin is not None and lin[0] in (1, -1) and not any(
                        va in a.fv for m in p.d if m != ((va, 1),) for a, _ in m):
                    rest = p - Poly({((va, 1),): lin})
                    add(-rest if lin[0] == 1 else rest)
                # quadratic occurrence v^2 + ... : integer square root of the rest
                beta = Poly({tuple(x for x in m if x[0] is not va): k for m, k in p.d.items() if (va, 1) in m and sum(va in a.fv for a, _ in m) == 1})
                if ((va, 2),) in p.d and p.d[((va, 2),)] in (T.ONE, (-1, 0)) and not beta.is_zero():
                    # v^2 + (2a+1) v = q - a^2 - a, i.e. (v+a)^2 + (v+a) = q
                    sg = p.d[((va, 2),)][0]
                    al = (beta * sg - 1) * Fraction(1, 2)
                    if all(k[0].denominator == 1 and k[1] == 0 for k in al.d.values()) and not al.is_zero():
                        rest = Poly({m: k for m, k in p.d.items() if not any(va in a.fv for a, _ in m)})
                        q = al * al + al - rest * sg
                        l = self.fold_isqrt(q)
                        add((l if l is not None else isqrt(q)) - al)
                if ((va, 2),) in p.d:
                    c = p.d[((va, 2),)][0]
                    rest = Poly({m: k for m, k in p.d.items() if not any(va in a.fv for a, _ in m)})
                    q = -rest if c > 0 else rest
                    # q = l^2 + l + m  ->  l (candidates: symbols occurring squared)
                    for m, k in q.d.items():
                        if len(m) == 1 and m[0][1] == 2 and k[0] == 1:
                            add(P(m[0][0]))
                    base = Poly({m: k for m, k in q.d.items() if m})
                    add(isqrt(base))
        return seen

    # -- simplification under facts ------------------------------------------
    def simp(self, p, deep=True):
        p = P(p)
        for _ in range(6):
            q = self._simp1(p)
            if q == p:
                return q
            p = q
        return p

    def _simp1(self, p):
        out = T.PZERO
        fa = self.facts
        # equality facts: substitute symbols
        p = self.parity_simp(self.eq_subst(p))
        changed = {}
        res = {}
        for m, c in p.d.items():
            ivs = [a for a, e in m if a.kind == "iv"]
            if ivs:
                lits = [a.data[0] for a in ivs]
                if len(lits) > 1 and fa.unsat(lits):
                    continue
                keep = list(m)
                dead = False
                for a in ivs:
                    f = a.data[0]
                    if fa.entails(f):
                        keep = [x for x in keep if x[0] is not a]
                    elif fa.entails(f_not(f)):
                        dead = True
                        break
                    elif len(ivs) > 1:
                        others = [b.data[0] for b in ivs if b is not a and any(x[0] is b for x in keep)]
                        if others and fa.unsat(others + [f_not(f)]):
                            keep = [x for x in keep if x[0] is not a]
                if dead:
                    continue
                mm = tuple(keep)
                # eq literal: substitute inside the monomial
                t = Poly({mm: T.ONE})
                for a, e in mm:
                    if a.kind == "iv" and a.data[0].op == "eq":
                        rest = Poly({tuple(x for x in mm if x[0] is not a): T.ONE})
                        s = self.eq_solution(a.data[0].args[0])
                        if s is not None and s[0] in rest.fv:
                            t = P(a) * subst(rest, {s[0]: s[1]})
                            break
                for k2, c2 in t.d.items():
                    T._acc(res, k2, T.cmul(c, c2))
            else:
                T._acc(res, m, c)
        q = T.merge_ivs(Poly(res))
        # inner simplification of sums and lambdas
        q = self.map_atoms(q)
        for r in self.rules:
            z = r(self, q)
            if z is not None:
                q = z
        return q

    def eq_solution(self, p):
        """a symbol with +-1 coefficient occurring linearly: (sym, value)"""
        for m, c in sorted(p.d.items(), key=lambda t: -max([a.id for a, _ in t[0]], default=-1)):
            if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "sym" and m[0][0] is not T.PI_ATOM:
                s = T.solve_linear(p, m[0][0])
                if s is not None:
                    return m[0][0], s
        return None

    def eq_subst(self, p):
        for f in self.facts.stack:
            if f.op == "eq":
                s = self.eq_solution(f.args[0])
                if s is not None and s[0] in p.fv:
                    p = subst(p, {s[0]: s[1]})
        return p

    def parity_rows(self):
        """what the facts say about parities: reduced rows {pivot: (other monomials, constant)} over GF(2), and halves idiv(r,2)"""
        got = self.facts.cache.get("parity")
        if got is None:
            rows, halves = {}, {}
            for f in self.facts.stack:
                g, odd = f, 0
                if f.op == "not" and f.args[0].op == "eq":
                    g, odd = f.args[0], 1
                if g.op not in ("eq", "ge"):
                    continue
                q = g.args[0]
                if q.sort != "I" or any(type(c[0]) is not int or c[1] for c in q.d.values()):
                    continue
                if g.op == "ge" or odd:
                    h = remainder_of_two(q)
                    if h is None:
                        continue
                    r, par = h
                    if g.op == "ge":
                        # (r mod 2) - 1 >= 0: odd;  -(r mod 2) >= 0: even
                        if par not in (-1, "-"):
                            continue
                        odd = 1 if par == -1 else 0
                    elif par in (0, "-"):
                        odd = 1              # r mod 2 != 0
                    elif par in (-1, "1-"):
                        odd = 0              # r mod 2 != 1
                    else:
                        continue
                    q = r
                    halves.setdefault(T.app("idiv", (r, P(2)), "I"), (r, odd))
                else:
                    h = remainder_of_two(q)
                    if h is not None and h[1] in (0, -1, "-", "1-"):
                        halves.setdefault(T.app("idiv", (h[0], P(2)), "I"), (h[0], 1 if h[1] in (-1, "1-") else 0))
                _add_row(rows, _parity_vector(q), odd)
            got = self.facts.cache["parity"] = (rows, {next(iter(T.atoms_of(k))): v for k, v in halves.items() if len(k.d) == 1})
        return got

    def parity_simp(self, p):
        """(-1)^n and halves, with the parities known from the facts"""
        at = [a for a in T.atoms_of(p) if a.kind == "exp" or a.kind == "app" and a.data[0] == "idiv"]
        if not at:
            return p
        rows, halves = self.parity_rows()
        if not rows and not halves:
            return p
        sub = {}
        signed = any(a.kind == "exp" for a in at)
        for a in at:
            if a.kind == "app":
                if a in halves:
                    r, odd = halves[a]
                    if r != P(a):
                        sub[a] = (r - odd).scale((Fraction(1, 2), 0))
                continue
            q, vec = a.data[0], {}
            rest = {}
            for m, c in q.d.items():
                if dict(m).get(T.PI_ATOM) == 1 and c[0] == 0 and c[1] in (1, -1) and T._int_mono(m) and len(m) > 1:
                    vec[frozenset(x for x, e in m if x is not T.PI_ATOM)] = 1
                else:
                    rest[m] = c
            if not vec:
                continue
            v, k = _reduce_row(rows, set(vec), 0)
            if v != set(vec):
                e = Poly(rest)
                for mono in v:
                    t = T.IMAG * T.PI_
                    for x in mono:
                        t = t * P(x)
                    e = e + t
                sub[a] = T.mk_exp(e) if k == 0 else -T.mk_exp(e)
        return replace_atoms(p, sub) if sub else p

    def map_atoms(self, p):
        sub = {}
        for a in T.atoms_of(p):
            if a.kind == "sum":
                r = self.simp_sum(a)
                if r is not None:
                    sub[a] = r
            elif a.kind == "abs":
                q = self.simp(a.data[0])
                if q != a.data[0]:
                    sub[a] = T.mk_abs(q)
                elif q.sort != "C":
                    if self.facts.entails(f_ge(q)):
                        sub[a] = q
                    elif self.facts.entails(f_ge(-q)):
                        sub[a] = -q
            elif a.kind in ("inv", "sqrt", "exp"):
                q = self.simp(a.data[0])
                if q != a.data[0]:
                    sub[a] = {"inv": T.inv, "exp": T.mk_exp,
                              "sqrt": lambda z: T.mk_sqrt(z, self.facts.nonneg)}[a.kind](q) if not (a.kind == "inv" and q.is_zero()) else P(a)
                elif a.kind == "sqrt":
                    z = T.mk_sqrt(q, self.facts.nonneg)
                    if z != P(a):
                        sub[a] = z
            elif a.kind == "app":
                name, args, lams = a.data
                na = tuple(self.simp(x) if isinstance(x, Poly) else x for x in args)
                if na != args:
                    sub[a] = T.rebuild_app(name, na, a.sort, lams)
                elif name == "isqrt":
                    l = self.fold_isqrt(na[0])
                    if l is not None:
                        sub[a] = l
                elif name == "gammaln" and na[0].sort == "I" and self.facts.entails(f_ge(na[0] - 1)):
                    from .models import fact_poly
                    sub[a] = T.mk_log(fact_poly(na[0] - 1))
            elif a.kind == "iv" and a.data[0].op == "eq":
                g = self.fold_formula(a.data[0])
                if g is not None and not any(b.kind == "app" and b.data[0] == "isqrt" for b in T.all_atoms(P(iv(g)))):
                    sub[a] = iv(g)
            elif a.kind == "conj":
                b = a.data[0]
                q = self.map_atoms(P(b))
                if q != P(b):
                    sub[a] = T.conj(q)
        if not sub:
            return p
        return replace_atoms(p, sub)

    def solve_mirrors(self, p, syms):
        """the index of (l,-m) as a function of that of (l,m), 2 l^2 + 2 l - e with l = isqrt(e), is its own inverse:
        an equation mirror(e) = X with the bound variable in e becomes e = mirror(X), X >= 0"""
        sub = {}
        for a in T.atoms_of(p):
            if a.kind != "iv" or a.data[0].op != "eq":
                continue
            q = a.data[0].args[0]
            for r in T.atoms_of(q):
                if r.kind != "app" or r.data[0] != "isqrt" or not r.fv & set(syms):
                    continue
                e = r.data[1][0]
                c = q.d.get(((r, 2),), (0, 0))[0]
                if c not in (2, -2):
                    continue
                X = P(r) * P(r) * 2 + P(r) * 2 - e - q * (1 if c == 2 else -1)      # q = +-(mirror(e) - X)
                if X.fv & r.fv & set(syms) or r in T.all_atoms(X) or not self.facts.entails(f_ge(e)):
                    continue
                l = isqrt(X)
                sub[a] = iv(f_eq(e - (l * l * 2 + l * 2 - X))) * iv(f_ge(X))
                break
        return replace_atoms(p, sub) if sub else p

    def expand_abs(self, p, syms):
        """magnitudes of bound variables in a polynomial sum: |q| = q (2 [q >= 0] - 1)"""
        out = T.PZERO
        for m, c in p.d.items():
            ins = [(a, e) for a, e in m if a.fv & syms]
            if any(a.kind == "abs" for a, _ in ins) and all(a.kind in ("sym", "iv") or a.kind == "abs" and a.data[0].sort in "IB" for a, _ in ins):
                q = Poly({tuple(x for x in m if not (x[0].kind == "abs" and x in ins)): c})
                for a, e in ins:
                    if a.kind == "abs":
                        z = P(a.data[0])
                        q = q * (z ** e if e % 2 == 0 else z ** e * (iv(f_ge(z)) * 2 - 1))
                out = out + q
            else:
                out = out + Poly({m: c})
        return out

    def expand_nested(self, p, syms, depth=0):
        """indicator of a comparison that contains indicators in the bound variables: case split"""
        if depth > 3:
            return p
        for a in sorted(T.atoms_of(p), key=lambda x: x.id):
            if a.kind == "iv" and a.fv & syms:
                inner = [b for b in T.all_atoms(a.data[0].args[0] if a.data[0].op in ("eq", "ge", "gt") else P(0)) if b.kind == "iv" and b.fv & syms]
                if inner:
                    b = min(inner, key=lambda x: x.id)
                    f = a.data[0]
                    F = P(b)
                    rb = lambda v: iv(subst_formula_atom(f, b, v))
                    new = F * rb(T.PONE) + (T.PONE - F) * rb(T.PZERO)
                    return self.expand_nested(replace_atoms(p, {a: new}), syms, depth + 1)
        return p

    def fold_isqrt(self, q):
        """isqrt(q) = l when q is visibly l^2 + l + m with |m| <= l under the facts"""
        for l in self.root_candidates(q):
            mm = q - l * l - l
            if self.facts.entails(f_and(f_ge(l + mm), f_ge(l - mm), f_ge(l))):
                return l
        return None

    def root_candidates(self, q):
        import math
        sq = []
        for m, c in q.d.items():
            if len(m) == 1 and m[0][1] == 2 and c[1] == 0 and c[0] > 0 and c[0].denominator == 1:
                k = math.isqrt(int(c[0]))
                if k * k == c[0]:
                    sq.append((m[0][0], k))
        out = [P(a) for a, k in sq if k == 1]
        out += [P(a) for a in T.atoms_of(q) if a.kind == "app" and a.data[0] == "isqrt" and P(a) not in out]
        if not sq:
            return out
        a0, k0 = sq[0]
        base = P(a0) * k0
        for a, k in sq[1:]:
            cross = q.d.get(tuple(sorted(((a0, 1), (a, 1)), key=T._sk)), T.ZERO if hasattr(T, "ZERO") else (0, 0))
            base = base + P(a) * (k if cross[0] > 0 else -k)
        for b in (base, -base):
            out.append(b)
            lin = q.d.get(((a0, 1),), (0, 0))
            k = k0 if b is base else -k0
            c = (Fraction(lin[0]) / k - 1) / 2
            if c.denominator == 1 and c != 0:
                out.append(b + int(c))
        res = []
        for x in out:
            if x not in res:
                res.append(x)
        return res

    _sumc: dict = {}

    def simp_sum(self, a):
        key = (a, len(self.facts.stack), tuple(self.facts.stack[-3:]))
        syms, cs, body = T.open_sum(a)
        mark = self.facts.mark()
        try:
            for s, n in zip(syms, cs):
                self.facts.push(f_ge(s))
                self.facts.push(f_gt(n - s))
            body = self.solve_mirrors(body, [T.the_sym(s) for s in syms])
            nb = self.simp(self.expand_nested(self.expand_abs(body, {T.the_sym(s) for s in syms}), {T.the_sym(s) for s in syms}))
        finally:
            self.facts.pop(mark)
        ncs = [self.simp(c) for c in cs]
        if self.multi_rules:
            z = self.multi(syms, ncs, nb)
            if z is not None:
                return z
        r = nb
        # rebuild with hooks
        for s, n in reversed(list(zip(syms, ncs))):
            r = T.Sum0(s, n, r)
        return None if r == P(a) else r

    def multi(self, syms, cs, body):
        """rules that consume several binders of a joint sum at once"""
        sas = [T.the_sym(x) for x in syms]
        out = T.PZERO
        hit = False
        mark = self.facts.mark()
        try:
            for s, n in zip(syms, cs):
                self.facts.push(f_ge(s))
                self.facts.push(f_gt(n - s))
            pieces = []
            for m, c in body.d.items():
                for rule in self.multi_rules:
                    z = rule(self, sas, dict(zip(sas, cs)), m)
                    if z is not None:
                        hit = True
                        pieces.append((set(z[0]), z[1].scale(c)))
                        break
                else:
                    pieces.append((set(), Poly({m: c})))
        finally:
            self.facts.pop(mark)
        if not hit:
            return None
        for gone, q in pieces:
            for s, n in reversed(list(zip(syms, cs))):
                if T.the_sym(s) not in gone:
                    q = T.Sum0(s, n, q)
            out = out + q
        return out

    # -- proving ---------------------------------------------------------------
    def prove_zero(self, p, depth=0):
        if self.deadline and time.time() > self.deadline:
            return False
        p = self.simp(P(p))
        if p.is_zero():
            return True
        if self.facts.inconsistent():
            return True
        # clear denominators
        q = self.clear_denoms(p)
        if q is not None and q != p:
            q = self.simp(q)
            if q.is_zero():
                return True
            p = q
        # unify sums / apps
        q = self.unify(p)
        if q is not None:
            q = self.simp(q)
            if q.is_zero():
                return True
            p = q
        q = self.extremes(p)
        if q != p:
            q = self.simp(q)
            if q.is_zero():
                return True
            p = q
        if depth < 7:
            lit = self.pick_literal(p)
            if lit is not None:
                for f in (lit, f_not(lit)):
                    mark = self.facts.mark()
                    self.facts.push(f)
                    g = self.fold_formula(f)
                    if g is not None:
                        self.facts.push(g)
                    self.propagate(mark)
                    try:
                        if not self.prove_zero(p, depth + 1):
                            return False
                    finally:
                        self.facts.pop(mark)
                return True
        eqs = self.implied_equalities(p)
        if eqs and depth < 9:
            mark = self.facts.mark()
            for f in eqs:
                self.facts.push(f)
            self.propagate(mark)
            try:
                return self.prove_zero(p, depth + 1)
            finally:
                self.facts.pop(mark)
        if p.sort != "C":
            try:
                if self.facts._check([f_not(f_eq(p))], 3000) == z3.unsat:
                    return True
            except NotZ3:
                pass
        else:
            r, i = T.real_part(p), T.imag_part(p)
        self.residual = p
        self.residual_facts = list(self.facts.stack)
        return False

    def extremes(self, p):
        """the largest magnitude of a real array: the larger of its maximum and minus its minimum"""
        sub = {}
        for a in T.atoms_of(p):
            if a.kind == "app" and a.data[0] == "arrmax" and len(a.data[2]) == 1:
                l2 = magnitudes(a)
                if l2 is not None:
                    sub[a] = T.mk_max(T.app("arrmax", a.data[1], a.sort, (l2,)), -T.app("arrmin", a.data[1], a.sort, (l2,)))
        return replace_atoms(p, sub) if sub else p

    def propagate(self, mark):
        """rewrite the boolean facts by the equations pushed since the mark"""
        for g in self.facts.stack[mark:]:
            if g.op != "eq":
                continue
            s = self.eq_solution(g.args[0])
            if s is None:
                continue
            for f in list(self.facts.stack):
                if s[0] in f.fv and (f.op == "b" or f.op == "not" and f.args[0].op == "b" or f.op in ("ge", "gt", "eq") and f is not g
                                     and any(a.kind == "app" and a.data[0].startswith("in_") and s[0] in a.fv for a in fatoms(f))):
                    h = T.subst(f, {s[0]: s[1]})
                    if h not in self.facts.stack:
                        self.facts.push(h)

    def fold_formula(self, f):
        """a literal over integer roots, with the roots that fold under the facts folded"""
        if f.op not in ("eq", "ge", "gt") or not any(a.kind == "app" and a.data[0] == "isqrt" or a.kind == "abs" and a.data[0].sort != "C" for a in T.all_atoms(f.args[0])):
            return None
        q = self.map_atoms(f.args[0])
        if q == f.args[0]:
            return None
        return {"eq": f_eq, "ge": f_ge, "gt": T.f_gt}[f.op](q)

    def implied_equalities(self, p):
        """integer inequalities of the context that hold with equality, about symbols of p"""
        out = []
        syms = {a for a in T.all_atoms(p) if a.kind == "sym"}
        for f in self.facts.stack:
            if f.op != "ge" or f.args[0].sort not in "IB":
                continue
            at = T.atoms_of(f.args[0])
            if len(at) < 2 or not all(a.kind == "sym" for a in at) or not at <= syms:
                continue
            g = f_eq(f.args[0])
            if g in self.facts.stack or g in out or g.op in ("true", "false"):
                continue
            if self.facts.entails(g):
                out.append(g)
        return out

    def pick_literal(self, p):
        lit = self._pick_literal(p)
        if lit is not None and lit.op in ("eq", "ge", "gt"):
            # a magnitude inside: decide its sign first
            for a in sorted(T.atoms_of(lit.args[0]), key=lambda x: x.id):
                if a.kind == "abs" and a.data[0].sort != "C":
                    f = f_ge(a.data[0])
                    if f not in self.facts.stack and f_not(f) not in self.facts.stack:
                        return f
        return lit

    def _pick_literal(self, p):
        best = None
        for m, c in p.d.items():
            for a, e in m:
                if a.kind == "iv":
                    return a.data[0]
        # halves together with signs: decide the parity
        if any(T._is_sign(a) for a in T.atoms_of(p)):
            halves = self.parity_rows()[1]
            for a in sorted(T.atoms_of(p), key=lambda x: x.id):
                if a.kind == "app" and a.data[0] == "idiv" and a.data[1][1] == P(2) and a not in halves:
                    return f_eq(a.data[1][0] - 2 * P(a))
        # real abs with unknown sign
        for a in T.atoms_of(p):
            if a.kind == "abs" and a.data[0].sort != "C":
                return f_ge(a.data[0])
        # indicators nested in function arguments
        for a in sorted(T.atoms_of(p), key=lambda x: x.id):
            if a.kind in ("app", "inv", "sqrt", "exp", "abs", "conj", "sum"):
                for b in sorted(T.all_atoms(a.data), key=lambda x: x.id):
                    if b.kind == "iv" and b.maxbv < 0:
                        return b.data[0]
        return None

    def clear_denoms(self, p):
        mult = {}
        for m in p.d:
            for a, e in m:
                if a.kind == "inv":
                    mult[a] = max(mult.get(a, 0), e)
                elif e < 0:
                    mult[a] = max(mult.get(a, 0), -e)
        if not mult:
            return None
        out = T.PZERO
        for m, c in p.d.items():
            t = Poly({(): c})
            md = dict(m)
            rest = []
            for a, e in m:
                if a in mult:
                    continue
                rest.append((a, e))
            t = t * Poly({tuple(rest): T.ONE})
            for a, k in mult.items():
                e = md.get(a, 0)
                if a.kind == "inv":
                    t = t * a.data[0] ** (k - e)
                else:
                    t = t * P(a) ** (k + e)
            out = out + t
        return out

    def unify(self, p):
        """replace sum/app atoms that are provably equal by one representative"""
        atoms = sorted([a for a in T.atoms_of(p) if a.kind in ("sum", "app", "conj", "sqrt", "exp", "abs", "inv")], key=lambda a: a.id)
        sub = {}
        if self.depth > 3:
            return None
        self.depth += 1
        try:
            for i, a in enumerate(atoms):
                if a in sub:
                    continue
                for b in atoms[i + 1:]:
                    if b in sub or a.kind != b.kind or a.sort != b.sort:
                        continue
                    if self.equal_atoms(a, b):
                        sub[b] = P(a)
                    elif a.kind == "sum":
                        z = self.peeled(a, b)
                        if z is not None:
                            sub[z[0]] = z[1]
                            if z[0] is a:
                                break
        finally:
            self.depth -= 1
        return replace_atoms(p, sub) if sub else None

    def peeled(self, a, b):
        """two sums that differ by their first term: the longer one as its first term plus the shorter one"""
        if len(a.data[0]) != 1 or len(b.data[0]) != 1:
            return None
        d = a.data[0][0] - b.data[0][0]
        if not d.is_int_const() or d.is_zero() or d.const()[0] not in (1, -1):
            return None
        if d.const()[0] == -1:
            a, b = b, a
        (s,), (n,), body = T.open_sum(a)
        (s2,), (n2,), body2 = T.open_sum(b)
        va = T.the_sym(s)
        if subst(body, {va: s + 1}) != subst(body2, {T.the_sym(s2): s}) or not self.facts.entails(f_ge(n2)):
            return None
        try:
            return a, subst(body, {va: T.PZERO}) + P(b)
        except (ZeroDivisionError, ArithmeticError):
            return None

    def equal_atoms(self, a, b):
        if a is b:
            return True
        if a.kind != b.kind:
            return False
        if a.kind == "conj":
            return self.equal_atoms(a.data[0], b.data[0])
        if a.kind in ("sqrt", "exp", "abs", "inv"):
            return self.prove_zero(a.data[0] - b.data[0], 5)
        if a.kind == "app":
            n1, x1, l1 = a.data
            n2, x2, l2 = b.data
            if n1 != n2 or len(x1) != len(x2) or len(l1) != len(l2):
                return False
            for u, v in zip(x1, x2):
                if isinstance(u, Poly) and isinstance(v, Poly):
                    if u != v and not self.prove_zero(u - v, 5):
                        return False
                elif u != v:
                    return False
            for u, v in zip(l1, l2):
                if u == v:
                    continue
                if u.n != v.n:
                    return False
                syms = [T.fresh("u") for _ in range(u.n)]
                dom = LAMDOM.get(n1)
                mark = self.facts.mark()
                try:
                    if dom is not None:
                        for f in dom(a, syms):
                            self.facts.push(f)
                    bu, bv = T.app_lam(u, syms), T.app_lam(v, syms)
                    if isinstance(bu, Formula):
                        bu, bv = iv(bu), iv(bv)
                    if not self.prove_zero(bu - bv, 4):
                        return False
                finally:
                    self.facts.pop(mark)
            return True
        if a.kind == "sum":
            s1, c1, b1 = T.open_sum(a)
            s2, c2, b2 = T.open_sum(b)
            if len(s1) != len(s2):
                return False
            import itertools
            for perm in itertools.permutations(range(len(s1))):
                if len(s1) > 3:
                    break
                sub = {T.the_sym(s2[j]): s1[i] for i, j in enumerate(perm)}
                mark = self.facts.mark()
                ok = True
                try:
                    for i, j in enumerate(perm):
                        if not self.prove_zero(c1[i] - subst(c2[j], sub), 5):
                            ok = False
                            break
                        self.facts.push(f_ge(s1[i]))
                        self.facts.push(f_gt(c1[i] - s1[i]))
                    if ok and self.prove_zero(b1 - subst(b2, sub), 4):
                        return True
                finally:
                    self.facts.pop(mark)
            return False
        return False

    def prove(self, f: Formula):
        """prove a formula"""
        if f.op == "and":
            return all(self.prove(g) for g in f.args)
        if self.facts.entails(f, 3000):
            return True
        g = self.simp_formula(f)
        if g.op == "and":
            return all(self.prove(h) for h in g.args)
        if self.facts.entails(g, 3000):
            return True
        if g.op == "eq":
            return self.prove_zero(g.args[0])
        if g.op in ("ge", "gt"):
            return self.multiple_of_fact(g)
        return False

    def multiple_of_fact(self, g):
        """p >= 0 (p > 0) from a known q >= 0: p = c q + d with constants c > 0, d >= 0 (or d > 0)"""
        p = g.args[0]
        m = next((m for m in p.d if m), None)
        if m is None:
            return False
        for f in self.facts.stack:
            if f.op not in ("ge", "gt") or m not in f.args[0].d:
                continue
            k, h = p.d[m], f.args[0].d[m]
            if k[1] or h[1] or h[0] == 0 or not Fraction(k[0]) / Fraction(h[0]) > 0:
                continue
            d = p - f.args[0].scale((T._n(Fraction(k[0]) / Fraction(h[0])), 0))
            if d.is_const() and d.const()[1] == 0 and (d.const()[0] > 0 or d.const()[0] == 0 and (g.op == "ge" or f.op == "gt")):
                return True
        return False

    def simp_formula(self, f):
        if f.op in ("ge", "gt", "eq"):
            p = self.simp(f.args[0])
            return {"ge": f_ge, "gt": f_gt, "eq": f_eq}[f.op](p)
        if f.op in ("and", "or"):
            a = [self.simp_formula(g) for g in f.args]
            return f_and(*a) if f.op == "and" else T.f_or(*a)
        if f.op == "not":
            return f_not(self.simp_formula(f.args[0]))
        return f

    def equiv(self, f, g):
        if f == g:
            return True
        return self.prove_zero(iv(f) - iv(g))

LAMDOM: dict = {}

def sht_exact(prover, syms, counts, m):
    """sum over the sampling grid of Y_k * (forward quadrature kernel of q) = [k == q]   (k, q < L^2)"""
    for a, e in m:
        if e == 1 and a.kind == "app" and a.data[0] in ("SHTKMWSS", "SHTKMW"):
            q, t, p, L, sp = a.data[1]
            ts, ps = T.the_sym(t), T.the_sym(p)
            if ts not in counts or ps not in counts or ts is ps or not sp.is_zero():
                continue
            nt, nph = (L + 1, L * 2) if a.data[0] == "SHTKMWSS" else (L, L * 2 - 1)
            if counts[ts] != nt or counts[ps] != nph:
                continue
            if any((ts in counts[s].fv or ps in counts[s].fv) for s in syms):
                continue
            if a.data[0] == "SHTKMWSS":
                th, ph = t * T.PI_ * T.inv(L), p * T.PI_ * T.inv(L)
            else:
                th, ph = (t * 2 + 1) * T.PI_ * T.inv(L * 2 - 1), p * 2 * T.PI_ * T.inv(L * 2 - 1)
            others = [(b, k) for b, k in m if b is not a and (ts in b.fv or ps in b.fv)]
            if len(others) != 1 or others[0][1] != 1:
                continue
            y = others[0][0]
            if y.kind != "app" or y.data[0] != "Ylm" or ts in y.data[1][0].fv or ps in y.data[1][0].fv:
                continue
            if y.data[1][1] != th or y.data[1][2] != ph:
                continue
            k = y.data[1][0]
            f = prover.facts
            if f.entails(f_and(f_ge(k), f_gt(L * L - k), f_ge(q), f_gt(L * L - q))):
                rest = Poly({tuple(x for x in m if x[0] is not a and x[0] is not y): T.ONE})
                return [ts, ps], rest * iv(f_eq(k, q))
    return None

def _parity_vector(q):
    """the odd part of an integer polynomial: monomials (as sets of atoms, x^k = x), "1" for the constant"""
    v = set()
    for m, c in q.d.items():
        if c[0] % 2:
            v ^= {frozenset(a for a, e in m)}
    return v

ONE_MONO = frozenset()

def _reduce_row(rows, v, k):
    v = set(v)
    if ONE_MONO in v:
        v.discard(ONE_MONO)
        k ^= 1
    for piv in sorted(rows, key=_row_key, reverse=True):
        if piv in v:
            w, kk = rows[piv]
            v ^= w | {piv}
            k ^= kk
    return v, k

def _row_key(mono):
    return (len(mono), sorted(a.id for a in mono))

def _add_row(rows, v, odd):
    """the sum of the monomials in v is odd (1) or even (0)"""
    v, k = _reduce_row(rows, v, odd)
    if not v:
        return
    piv = max(v, key=_row_key)
    rows[piv] = (v - {piv}, k)

def remainder_of_two(q):
    """q = (r mod 2) + c with the remainder written r - 2 idiv(r,2): (r, c), or (r, "-") for -(r mod 2)"""
    for m, c in q.d.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "app" and m[0][0].data[0] == "idiv" and m[0][0].data[1][1] == P(2):
            r = m[0][0].data[1][0]
            z = r - 2 * P(m[0][0])
            if c == (-2, 0):
                d = q - z
                if d.is_int_const() or d.is_zero():
                    return r, int(d.const()[0]) if not d.is_zero() else 0
            if c == (2, 0) and (q + z).is_zero():
                return r, "-"
            if c == (2, 0) and (q + z).is_int_const() and (q + z).const()[0] == 1:
                return r, "1-"
    return None

def orthonormal_rule(name, rows, cols, real, cols_first=False):
    """rows of the array `name` are orthonormal: sum_k X[a,k] conj(X[b,k]) = [a == b]; with cols_first its columns"""
    ROW, COL = (1, 0) if cols_first else (0, 1)
    def rule(prover, syms, counts, m):
        for s in syms:
            if counts[s] != cols or any(s in counts[t].fv for t in syms):
                continue
            ins = [(a, e) for a, e in m if s in a.fv]
            xs, ys = [], []
            bad = False
            for a, e in ins:
                b, cj = (a.data[0], True) if a.kind == "conj" else (a, False)
                if b.kind != "app" or b.data[0] != name or b.data[1][COL] != P(s) or s in b.data[1][ROW].fv:
                    bad = True
                    break
                if e not in (1, 2) or (e == 2 and not real):
                    bad = True
                    break
                (ys if cj else xs).extend([b.data[1][ROW]] * e)
            if bad:
                continue
            if real and len(xs) == 2 and not ys:
                a, b = xs
            elif not real and len(xs) == 1 and len(ys) == 1:
                a, b = xs[0], ys[0]
            else:
                continue
            if prover.facts.entails(f_and(f_ge(a), f_gt(rows - a), f_ge(b), f_gt(rows - b))):
                rest = Poly({tuple(x for x in m if x not in ins): T.ONE})
                return [s], rest * iv(f_eq(a, b))
        return None
    return rule

def _idiv_args(p):
    """p is exactly idiv(x, d): (x, d)"""
    if len(p.d) != 1:
        return None
    (m, c), = p.d.items()
    if c != T.ONE or len(m) != 1 or m[0][1] != 1:
        return None
    a = m[0][0]
    return a.data[1] if a.kind == "app" and a.data[0] == "idiv" else None

def _only_in(s, counts, m, names):
    """the application of one of those names to the bound s through which alone the monomial depends on s: (names -> atom)"""
    if any(s in P(c).fv for c in counts.values()):
        return None
    got = {}
    for a in T.all_atoms(Poly({m: T.ONE})):
        if a.kind == "app" and a.data[0] in names and s in a.fv:
            if got.get(a.data[0], a) is not a or any(s in lam.fv for lam in a.data[2]):
                return None
            got[a.data[0]] = a
    return got or None

def permutation_rule(prover, syms, counts, m):
    """sum_{p<n} g(argsort(p)) = sum_{k<n} g(k), and the same for the reversed permutation"""
    for s in syms:
        got = _only_in(s, counts, m, ("argsort",))
        if got is None:
            continue
        a = got["argsort"]
        x, n = a.data[1]
        if n != P(counts[s]) or x not in (P(s), n - 1 - P(s)):
            continue
        k = T.fresh("k")
        body = subst(Poly({m: T.ONE}), {a: k})
        if s not in body.fv:
            return [s], T.Sum0(k, n, body)
    return None

def pieces_rule(prover, syms, counts, m):
    """sum over the rows of a concatenation = sum over its pieces of the sum over each piece"""
    for s in syms:
        got = _only_in(s, counts, m, ("seg", "off"))
        if got is None:
            continue
        data = {a.data[1:] for a in got.values()}
        if len(data) != 1:
            continue
        ((x, n), lams), = data
        k = T.fresh("k")
        size = T.app_lam(lams[0], (k,))
        if x != P(s) or prover.simp(T.Sum0(k, n, size) - P(counts[s])) != T.PZERO or not prover.facts.entails(
                T.f_or(f_gt(-k), f_ge(k - n), f_ge(size))):
            continue
        j = T.fresh("j")
        body = subst(Poly({m: T.ONE}), {a: {"seg": k, "off": j}[w] for w, a in got.items()})
        if s not in body.fv:
            return [s], T.Sum0(k, n, T.Sum0(j, size, body))
    return None

def stride_rule(prover, syms, counts, m):
    """division algorithm: sum_{i<w} sum_{k<ceil((n-i)/w)} g(i + k w) = sum_{q<n} g(q), and with g = 1
    sum_{i<w} ceil((n-i)/w) = n   (n >= 0, w > 0)"""
    def total(x, w, i):
        n = x - w + 1 + P(i)
        if any(s in n.fv or s in w.fv for s in syms) or not prover.facts.entails(f_and(f_ge(n), f_gt(w))):
            return None
        return n
    for i in syms:
        w = P(counts[i])
        for k in syms:
            if k is i or i not in P(counts[k]).fv or k in w.fv:
                continue
            xd = _idiv_args(P(counts[k]))
            if xd is None or xd[1] != w:
                continue
            n = total(xd[0], w, i)
            if n is None:
                continue
            q = T.fresh("q")
            body = subst(Poly({m: T.ONE}), {i: q - P(k) * w})
            if k in body.fv or i in body.fv:
                continue
            return [i, k], T.Sum0(q, n, body)
        ins = [(a, e) for a, e in m if i in a.fv]
        if len(ins) == 1 and ins[0][1] == 1:
            xd = _idiv_args(P(ins[0][0]))
            if xd is not None and xd[1] == w:
                n = total(xd[0], w, i)
                if n is not None:
                    return [i], n * Poly({tuple(x for x in m if x not in ins): T.ONE})
    return None

def _idiv_ax(a):
    x, d = a.data[1]
    r = P(a)
    return [T.f_or(f_ge(-d), f_and(f_ge(x - d * r), f_gt(d + d * r - x))), T.f_or(f_ge(d), f_and(f_ge(d * r - x), f_gt(x - d * r - d)))]

AXIOMS["idiv"] = _idiv_ax

def column_norm_rule(name, rows, cols):
    """columns of the real array `name` have unit norm: sum_j X[j,p]^2 = 1"""
    def rule(prover, syms, counts, m):
        for s in syms:
            if counts[s] != rows or any(s in counts[t].fv for t in syms):
                continue
            ins = [(a, e) for a, e in m if s in a.fv]
            if len(ins) != 1 or ins[0][1] != 2:
                continue
            b = ins[0][0]
            if b.kind != "app" or b.data[0] != name or b.data[1][0] != P(s) or s in b.data[1][1].fv:
                continue
            p = b.data[1][1]
            if prover.facts.entails(f_and(f_ge(p), f_gt(cols - p))):
                return [s], Poly({tuple(x for x in m if x not in ins): T.ONE})
        return None
    return rule

def subst_formula_atom(f, b, v):
    q = replace_atoms(f.args[0], {b: v})
    return {"eq": f_eq, "ge": f_ge, "gt": f_gt}[f.op](q)

def magnitudes(a):
    """extreme of c*|g| with real g and c > 0: the array c*g, else None"""
    lam = a.data[2][0]
    syms = tuple(T.fresh("e") for _ in range(lam.n))
    b = T.app_lam(lam, syms)
    if not isinstance(b, Poly) or len(b.d) != 1:
        return None
    (m, c), = b.d.items()
    if c[1] == 0 and c[0] > 0 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "abs" and P(m[0][0].data[0]).sort != "C":
        return T.mk_lam(syms, P(m[0][0].data[0]).scale(c))
    return None

def _attained_ax(a):
    """an extreme is the value somewhere (arrays with no elements have no extremes)"""
    dims, lam = a.data[1], a.data[2][0]
    pts = tuple(T.app("at_%s%d" % (a.data[0], k), dims, "I", (lam,)) for k in range(len(dims)))
    b = T.app_lam(lam, pts)
    if not isinstance(b, Poly) or b.sort == "C":
        return []
    return [f for p, d in zip(pts, dims) for f in (f_ge(p), f_gt(d - p))] + [f_eq(P(a) - b)]
AXIOMS["arrmax"] = AXIOMS["arrmin"] = _attained_ax

def order_lemmas(atoms):
    """elements of a sorted array are monotone in the index"""
    out = []
    srt = [a for a in atoms if a.kind == "app" and a.data[0] == "sorted"]
    for i, a in enumerate(srt):
        for b in srt[i + 1:]:
            if a.data[2] == b.data[2] and a.data[1][1] == b.data[1][1]:
                n = a.data[1][1]
                x, y = a.data[1][0], b.data[1][0]
                ok = f_and(f_ge(x), f_ge(y), f_gt(n - x), f_gt(n - y))
                out.append(T.f_or(f_not(ok), f_gt(x - y), f_ge(P(b) - P(a))))
                out.append(T.f_or(f_not(ok), f_gt(y - x), f_ge(P(a) - P(b))))
    for a in atoms:
        if a.kind == "app" and a.data[0] == "arrmin":
            g = magnitudes(a)
            if g is not None:
                hi = T.mk_max(T.app("arrmax", a.data[1], a.sort, (g,)), -T.app("arrmin", a.data[1], a.sort, (g,)))
                out.append(f_ge(hi - P(a)))
        if a.kind == "app" and a.data[0] == "arrmax":
            for b in atoms:
                if b.kind == "app" and b.data[0] == "arrmin" and b.data[1] == a.data[1] and b.data[2] == a.data[2]:
                    # the arrays have elements (an empty one has no extremes)
                    out.append(f_ge(P(a) - P(b)))
    return out + _more_order(atoms) + segment_lemmas(atoms)

ASCENDING: dict = {}   # input arrays assumed sorted: app name -> length
DESCENDING: dict = {}  # input arrays whose rows are assumed sorted downwards: app name -> length of a row, from its index

def _more_order(atoms):
    out = []
    groups = {}
    for a in atoms:
        if a.kind == "app" and a.data[0] == "argsort":
            groups.setdefault(("argsort", a.data[2], a.data[1][1]), []).append(a)
        elif a.kind == "app" and a.data[0] in ASCENDING:
            groups.setdefault((a.data[0], None, ASCENDING[a.data[0]]), []).append(a)
        elif a.kind == "app" and a.data[0] in DESCENDING:
            groups.setdefault((a.data[0], "rows", a.data[1][0]), []).append(a)
        elif a.kind == "app" and a.data[0] == "nth0" and len(a.data[1]) == 2:
            groups.setdefault(("nth0", a.data[2], a.data[1][1]), []).append(a)
    for (name, lams, n), g in groups.items():
        for i, a in enumerate(g):
            for b in g[i + 1:]:
                x, y = a.data[1][0], b.data[1][0]
                va, vb = (T.app_lam(lams[0], (P(a),)), T.app_lam(lams[0], (P(b),))) if name == "argsort" else (P(a), P(b))
                if lams == "rows":
                    x, y, c = a.data[1][1], b.data[1][1], DESCENDING[name](n)
                    ok = f_and(f_ge(x), f_ge(y), f_gt(c - x), f_gt(c - y))
                    out.append(T.f_or(f_not(ok), f_gt(x - y), f_ge(P(a) - P(b))))
                    out.append(T.f_or(f_not(ok), f_gt(y - x), f_ge(P(b) - P(a))))
                    continue
                if name == "nth0":      # selected points come in order
                    c = nth_count(a)
                    ok = f_and(f_ge(x), f_ge(y), f_gt(c - x), f_gt(c - y))
                    out.append(T.f_or(f_not(ok), f_ge(x - y), f_gt(vb - va)))
                    out.append(T.f_or(f_not(ok), f_ge(y - x), f_gt(va - vb)))
                    continue
                ok = f_and(f_ge(x), f_ge(y), f_gt(n - x), f_gt(n - y))
                out.append(T.f_or(f_not(ok), f_gt(x - y), f_ge(vb - va)))
                out.append(T.f_or(f_not(ok), f_gt(y - x), f_ge(va - vb)))
    return out

def nth_count(a):
    """how many points the selection has"""
    syms = [T.fresh("c") for _ in a.data[1][1:]]
    r = T.app_lam(a.data[2][0], tuple(syms))
    for v, n in reversed(list(zip(syms, a.data[1][1:]))):
        r = T.Sum0(v, n, r)
    return r

def _nth_ax(a):
    """the k-th selected point is in the domain and selected, when there are that many"""
    k, dom = a.data[1][0], a.data[1][1:]
    pts = tuple(T.app("nth%d" % j, a.data[1], "I", a.data[2]) for j in range(len(dom)))
    inside = f_and(*[f for p, d in zip(pts, dom) for f in (f_ge(p), f_gt(d - p))], f_eq(T.app_lam(a.data[2][0], pts), 1))
    return [T.f_or(f_gt(-k), f_ge(k - nth_count(a)), inside)]

AXIOMS["nth0"] = AXIOMS["nth1"] = _nth_ax

def _segment_ax(a):
    """rows of a concatenation: inside the total, the piece exists and the offset lies in it"""
    q, n = a.data[1]
    lam = a.data[2][0]
    seg, off = T.app("seg", (q, n), "I", (lam,)), T.app("off", (q, n), "I", (lam,))
    k = T.fresh("k")
    total = T.Sum0(k, n, T.app_lam(lam, (k,)))
    inside = f_and(f_ge(seg), f_gt(n - seg), f_ge(off), f_gt(T.app_lam(lam, (seg,)) - off))
    return [T.f_or(f_gt(-q), f_ge(q - total), inside)]

AXIOMS["seg"] = AXIOMS["off"] = _segment_ax

def _exists_ax(a):
    """a true 'exists' has a witness"""
    ws = [T.app("witness%d" % k, a.data[1], "I", a.data[2]) for k in range(len(a.data[1]))]
    inside = f_and(*[f_ge(w) for w in ws], *[f_gt(d - w) for w, d in zip(ws, a.data[1])], T.app_lam(a.data[2][0], tuple(ws)))
    return [T.f_or(f_not(T.f_batom(P(a))), inside)]

AXIOMS["exists"] = _exists_ax

def segment_lemmas(atoms):
    """different rows of a concatenation come from different pieces or offsets"""
    out = []
    g = [a for a in atoms if a.kind == "app" and a.data[0] == "seg"]
    for i, a in enumerate(g):
        for b in g[i + 1:]:
            if a.data[2] == b.data[2] and a.data[1][1] == b.data[1][1]:
                oa, ob = [T.app("off", x.data[1], "I", x.data[2]) for x in (a, b)]
                eq = f_eq(a.data[1][0], b.data[1][0])
                same = f_and(f_eq(P(a), P(b)), f_eq(oa, ob))
                out += [T.f_or(f_not(eq), same), T.f_or(f_not(same), eq)]
    return out

def eigen_rule(mat, vec, val, n, cols=None, lead=0):
    """columns of vec are eigenvectors: sum_k M[i,k] V[k,j] = val[j] V[i,j], and the conjugate of this; with leading
    indices there is one such system for each of them, with cols(lead) columns"""
    def rule(prover, syms, counts, m):
        for s in syms:
            if counts[s] != n or any(s in counts[t].fv for t in syms):
                continue
            ins = [(a, e) for a, e in m if s in a.fv]
            if len(ins) != 2 or any(e != 1 for _, e in ins):
                continue
            got = {}
            for a, e in ins:
                b, cj = (a.data[0], True) if a.kind == "conj" else (a, False)
                if b.kind == "app" and b.data[0] in (mat, vec):
                    got[b.data[0]] = (b.data[1], cj)
            if len(got) != 2 or got[mat][1] != got[vec][1]:
                continue
            pre, pre2 = got[mat][0][:lead], got[vec][0][:lead]
            (i, k), (k2, j) = got[mat][0][lead:], got[vec][0][lead:]
            if k != P(s) or k2 != P(s) or any(s in x.fv for x in (i, j) + pre + pre2):
                continue
            c = n if cols is None else cols(*pre)
            if all(x == y or prover.facts.entails(f_eq(x, y)) for x, y in zip(pre, pre2)) and prover.facts.entails(
                    f_and(f_ge(i), f_gt(n - i), f_ge(j), f_gt(c - j))):
                v = T.app(vec, pre + (i, j), prover_sort(m, vec))
                rest = Poly({tuple(x for x in m if x not in ins): T.ONE})
                return [s], rest * T.app(val, pre + (j,), "R") * (T.conj(v) if got[vec][1] else v)
        return None
    return rule

def isometry_rule(vec, n, cols, lead=0):
    """columns of vec are orthonormal, within one leading index and across them: sum_k V[a,k,i] conj(V[b,k,j]) = [a == b][i == j]"""
    def rule(prover, syms, counts, m):
        for s in syms:
            if counts[s] != n or any(s in counts[t].fv for t in syms):
                continue
            ins = [(a, e) for a, e in m if s in a.fv]
            if not ins or sum(e for _, e in ins) != 2 or any(e < 1 for _, e in ins):
                continue
            got = []
            for a, e in ins:
                b, cj = (a.data[0], True) if a.kind == "conj" else (a, False)
                if b.kind == "app" and b.data[0] == vec:
                    got += [(b.data[1], cj, b.sort)] * e
            if len(got) != 2 or (got[0][2] == "C" and got[0][1] == got[1][1]):
                continue
            x, y = got[0][0], got[1][0]
            if x[lead] != P(s) or y[lead] != P(s) or any(s in z.fv for z in x[:lead] + x[lead + 1:] + y[:lead] + y[lead + 1:]):
                continue
            ok = [f_and(f_ge(z[lead + 1]), f_gt(cols(*z[:lead]) - z[lead + 1])) for z in (x, y)]
            if prover.facts.entails(f_and(*ok)):
                rest = Poly({tuple(z for z in m if z not in ins): T.ONE})
                for u, w in zip(x[:lead] + x[lead + 1:], y[:lead] + y[lead + 1:]):
                    rest = rest * iv(f_eq(u, w))
                return [s], rest
        return None
    return rule

def prover_sort(m, name):
    for a, _ in m:
        b = a.data[0] if a.kind == "conj" else a
        if b.kind == "app" and b.data[0] == name:
            return b.sort
    raise KeyError(name)

def replace_atoms(p, sub):
    out = T.PZERO
    for m, c in p.d.items():
        t = Poly({(): c})
        keep = []
        for a, e in m:
            if a in sub:
                x = sub[a]
                t = t * (x ** e if e >= 0 else T.inv0(x) ** (-e))
            else:
                keep.append((a, e))
        out = out + t * Poly({tuple(keep): T.ONE})
    return out

# -------------------------------------------------------------------- isqrt atoms
def isqrt(q):
    q = P(q)
    if q.is_int_const():
        import math
        return P(math.isqrt(max(0, q.const()[0])))
    return T.app("isqrt", (q,), "I")

def _isqrt_ax(a):
    q = a.data[1][0]
    R = P(a)
    return [f_ge(R), T.f_or(f_gt(-q), f_ge(q - R * R)), T.f_or(f_gt(-q), f_gt((R + 1) * (R + 1) - q))]

AXIOMS["isqrt"] = _isqrt_ax
T.REBUILD["isqrt"] = lambda args, sort, lams: isqrt(args[0])
