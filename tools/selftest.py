"""Soundness guard for the verifier itself (not for sleplet): /opt/venv/bin/python tools/selftest.py [N] [SEED]

1. Random expressions are built twice: as terms (through the normalising constructors of pyvc/terms.py) and as plain Python
   closures. The numeric value of the normal form must agree with the closure for random assignments, also after substitution,
   conjugation and rewriting by the prover under facts that hold for the assignment.
2. An equation or inequality that is numerically false for some assignment satisfying the facts must not be proved.
"""
import cmath, math, os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyvc import terms as T
from pyvc.solver import Facts, Prover
from pyvc.terms import P


def pseudo(name, args, sort):
    h = math.sin(12.9898 * (sum(ord(c) for c in name) + 1) + sum((i + 1.37) * 4.1414 * (complex(a).real + .73 * complex(a).imag) for i, a in enumerate(args))) * 43758.5453
    h -= math.floor(h)
    if sort == "C":
        g = h * 7919.13
        return complex(2 * h - 1, 2 * (g - math.floor(g)) - 1)
    return 2 * h - 1


def ev(t, env):
    """numeric value of a Poly / Formula"""
    if isinstance(t, T.Formula):
        o = t.op
        if o in ("true", "false"):
            return o == "true"
        if o == "and":
            return all(ev(x, env) for x in t.args)
        if o == "or":
            return any(ev(x, env) for x in t.args)
        if o == "not":
            return not ev(t.args[0], env)
        v = complex(ev(t.args[0], env))
        if o == "ge":
            return v.real >= -1e-9
        if o == "gt":
            return v.real > 1e-9
        if o == "eq":
            return abs(v) < 1e-9
        raise NotImplementedError(o)
    tot = 0j
    for m, c in t.d.items():
        v = complex(float(c[0]), float(c[1]))
        for a, e in m:
            v *= eva(a, env) ** e
        tot += v
    return tot


def eva(a, env):
    k = a.kind
    if a in env:
        return env[a]
    if k == "sym":
        if a is T.PI_ATOM:
            return math.pi
        raise KeyError(a)
    if k == "conj":
        return complex(eva(a.data[0], env)).conjugate()
    if k == "inv":
        return 1 / ev(a.data[0], env)
    if k == "sqrt":
        return cmath.sqrt(ev(a.data[0], env))
    if k == "exp":
        return cmath.exp(ev(a.data[0], env))
    if k == "abs":
        return abs(ev(a.data[0], env))
    if k == "iv":
        return 1 if ev(a.data[0], env) else 0
    if k == "app":
        args = [ev(x, env) for x in a.data[1]]
        if a.data[0] in ("floor", "idiv"):
            raise NotImplementedError(a.data[0])
        return pseudo(a.data[0], args, a.sort)
    if k == "sum":
        counts, body, base = a.data

        def go(i, env):
            if i == len(counts):
                return ev(body, env)
            n = round(complex(ev(counts[i], env)).real)
            b = T.mk_atom("bv", (base + i,), "I")
            return sum((go(i + 1, {**env, b: v}) for v in range(n)), 0j)
        return go(0, env)
    if k == "bv":
        return env[a]
    raise NotImplementedError(k)


class Gen:
    """(term, closure over env) pairs; env maps symbol atoms to numbers"""

    def __init__(self, rng):
        self.r = rng
        self.ints = [T.sym(f"st_n{i}", "I") for i in range(3)]     # >= 0 in every assignment
        self.reals = [T.sym(f"st_x{i}", "R") for i in range(3)]
        self.cplx = [T.sym(f"st_z{i}", "C") for i in range(2)]

    def env(self):
        e = {}
        for s in self.ints:
            e[T.the_sym(s)] = self.r.randrange(0, 6)
        for s in self.reals:
            e[T.the_sym(s)] = round(self.r.uniform(-3, 3), 3) or .5
        for s in self.cplx:
            e[T.the_sym(s)] = complex(self.r.uniform(-2, 2), self.r.uniform(-2, 2))
        return e

    def I(self, d, bound):
        r = self.r
        c = r.randrange(6)
        pool = self.ints + bound
        if d <= 0 or c == 0:
            if r.random() < .3:
                k = r.randrange(-3, 4)
                return P(k), lambda e: k
            s = r.choice(pool)
            a = T.the_sym(s)
            return s, lambda e: e[a]
        if c == 5:
            f, g = self.F(d - 1, bound)
            return T.iv(f), lambda e: int(g(e))
        x, fx = self.I(d - 1, bound)
        y, fy = self.I(d - 1, bound)
        if c in (1, 2):
            return x + y, lambda e: fx(e) + fy(e)
        if c == 3:
            return x - y, lambda e: fx(e) - fy(e)
        return T.mk_max(x, y), lambda e: max(fx(e), fy(e))

    def F(self, d, bound):
        x, fx = self.I(d - 1, bound)
        y, fy = self.I(d - 1, bound)
        c = self.r.randrange(5)
        if c == 0:
            return T.f_ge(x - y), lambda e: fx(e) >= fy(e)
        if c == 1:
            return T.f_eq(x, y), lambda e: fx(e) == fy(e)
        if c == 2:
            return T.f_lt(x, y), lambda e: fx(e) < fy(e)
        f, ff = (T.f_ge(x), lambda e: fx(e) >= 0)
        g, gg = (T.f_gt(y), lambda e: fy(e) > 0)
        if c == 3:
            return T.f_and(f, T.f_not(g)), lambda e: ff(e) and not gg(e)
        return T.f_or(f, g), lambda e: ff(e) or gg(e)

    def R(self, d, bound):
        r = self.r
        c = r.randrange(11)
        if d <= 0 or c == 0:
            s = r.choice(self.reals)
            a = T.the_sym(s)
            return s, lambda e: e[a]
        if c == 1:
            return self.I(d - 1, bound)
        if c == 2:
            x, fx = self.I(d - 1, bound)
            n = r.choice("fg")
            return T.app("st_" + n, (x,), "R"), lambda e: pseudo("st_" + n, [fx(e)], "R")
        if c == 3:
            x, fx = self.C(d - 1, bound)
            return T.mk_abs(x), lambda e: abs(fx(e))
        if c == 4:
            x, fx = self.R(d - 1, bound)
            q = x * x + 1
            return T.mk_sqrt(q), lambda e: math.sqrt(fx(e) ** 2 + 1)
        if c == 5:
            x, fx = self.R(d - 1, bound)
            q = x * x + 2
            return T.inv(q), lambda e: 1 / (fx(e) ** 2 + 2)
        if c == 6:
            x, fx = self.I(d - 1, bound)
            return T.mk_exp(x * P(T.Fraction(1, 3))), lambda e: math.exp(fx(e) / 3)
        if c == 7:
            x, fx = self.C(d - 1, bound)
            return (T.real_part(x), lambda e: complex(fx(e)).real) if r.random() < .5 else (T.imag_part(x), lambda e: complex(fx(e)).imag)
        x, fx = self.R(d - 1, bound)
        y, fy = self.R(d - 1, bound)
        if c == 8:
            return x + y, lambda e: fx(e) + fy(e)
        if c == 9:
            return x * y, lambda e: fx(e) * fy(e)
        f, ff = self.F(d - 1, bound)
        return T.ite(f, x, y), lambda e: fx(e) if ff(e) else fy(e)

    def C(self, d, bound):
        r = self.r
        c = r.randrange(9)
        if d <= 0 or c == 0:
            s = r.choice(self.cplx)
            a = T.the_sym(s)
            return s, lambda e: e[a]
        if c == 1:
            return self.R(d - 1, bound)
        if c == 2:
            x, fx = self.I(d - 1, bound)
            return T.app("st_h", (x,), "C"), lambda e: pseudo("st_h", [fx(e)], "C")
        if c == 3:
            x, fx = self.C(d - 1, bound)
            return T.conj(x), lambda e: complex(fx(e)).conjugate()
        if c == 4:
            x, fx = self.I(d - 1, bound)
            k = r.choice([1, 2, 3, 4])
            return T.mk_exp(T.IMAG * P(T.PI_ATOM) * x * P(T.Fraction(1, k))), lambda e: cmath.exp(1j * math.pi * fx(e) / k)
        if c == 5 and len(bound) < 2:
            n, fn = self.I(1, bound)
            v = T.fresh("k")
            b, fb = self.C(d - 1, bound + [v])
            va = T.the_sym(v)
            return T.Sum(v, P(0), n, b), lambda e: sum((fb({**e, va: i}) for i in range(fn(e))), 0j)
        x, fx = self.C(d - 1, bound)
        y, fy = self.C(d - 1, bound)
        if c in (5, 6):
            return x + y, lambda e: fx(e) + fy(e)
        if c == 7:
            return x * y, lambda e: fx(e) * fy(e)
        return x - y, lambda e: fx(e) - fy(e)


def close(a, b):
    return abs(a - b) <= 1e-6 * (1 + abs(a) + abs(b))


def main(n=2000, seed=0):
    rng = random.Random(seed)
    bad = refused = proved = skipped = 0
    for it in range(n):
        facts = Facts()
        prover = Prover(facts)
        g = Gen(rng)
        for s in g.ints:
            facts.push(T.f_ge(s))
        try:
            t, f = g.C(rng.randrange(2, 5), [])
        except (T.TooBig, NotImplementedError):
            skipped += 1
            continue
        envs = [g.env() for _ in range(4)]
        try:
            vals = [f(e) for e in envs]
            got = [ev(t, e) for e in envs]
        except (NotImplementedError, OverflowError, ZeroDivisionError, KeyError) as x:
            skipped += 1
            continue
        if any(abs(v) > 1e9 for v in vals):
            skipped += 1
            continue
        for e, v, w in zip(envs, vals, got):
            if not close(v, w):
                bad += 1
                print("NORMAL FORM", it, t, "\n   env", e, "expected", v, "got", w)
                break
        # substitution of an integer symbol
        s = rng.choice(g.ints)
        u, fu = g.I(1, [])
        try:
            ts = T.subst(t, {T.the_sym(s): u})
            for e in envs:
                k = fu(e)
                if k < 0:
                    continue
                v, w = f({**e, T.the_sym(s): k}), ev(ts, e)
                if not close(v, w):
                    bad += 1
                    print("SUBSTITUTION", it, t, "[", s, ":=", u, "]", "expected", v, "got", w)
                    break
        except (T.TooBig, NotImplementedError, OverflowError, ZeroDivisionError):
            pass
        # a perturbed equation that is false somewhere must not be proved; prove_zero on a true one is only counted
        d, fd = g.C(rng.randrange(1, 3), [])
        try:
            false_somewhere = any(abs(fd(e)) > 1e-6 for e in envs)
            import time
            prover.deadline = time.time() + 5
            r = prover.prove_zero(d)
        except Exception as x:
            if type(x).__name__ not in ("TooBig", "NotImplementedError", "Timeout", "OutOfTime", "NotZ3", "BudgetExceeded"):
                print("ERROR", it, type(x), x)
            skipped += 1
            continue
        if r is True and false_somewhere:
            bad += 1
            print("PROVED A FALSE EQUATION", it, d)
        proved += r is True
        refused += r is not True
        fm, ff = g.F(3, [])
        try:
            false_somewhere = any(not ff(e) for e in envs)
            r = prover.prove(fm)
        except Exception as x:
            skipped += 1
            continue
        if r is True and false_somewhere:
            bad += 1
            print("PROVED A FALSE FORMULA", it, fm)
    print(f"{n} expressions, {skipped} skipped, equations proved {proved} refused {refused}, FAILURES {bad}")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main(*(int(x) for x in sys.argv[1:3])))
