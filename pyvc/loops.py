"""Loop rule: one generic iteration with havocked state gives a transition; closed forms for
accumulators and for independent writes are then proved sufficient (no bound on the iterations)."""
from __future__ import annotations

from . import terms as T
from .terms import P, Poly, Formula, TRUE, FALSE, f_not, f_and, f_or, f_ge, f_gt, f_eq, iv, ite, subst
from .values import *
from . import arrays as A
from . import interp as I
from . import solver as SV
from . import models as MO

def cond_poly(conds):
    return iv(f_and(*conds)) if conds else P(1)

def merge_values(res):
    """merge per-path values: list of (conds, value)"""
    if len(res) == 1:
        return res[0][1]
    vs = [v for _, v in res]
    if all(is_scalar(v) for v in vs):
        k = "b"
        for v in vs:
            k = kmax(k, kind(v))
        if k == "b":
            return mkbool(f_or(*[f_and(*(list(c) + [formula(v)])) for c, v in res]))
        # the last path serves as default
        r = poly(res[-1][1])
        for c, v in res[:-1]:
            r = r + cond_poly(c) * (poly(v) - poly(res[-1][1]))
        return num(r, k, any(isnp(v) for v in vs))
    if all(isinstance(v, Arr) for v in vs):
        sh = vs[0].shape
        if any(len(v.shape) != len(sh) or any(x != y for x, y in zip(v.shape, sh)) for v in vs):
            raise Unsupported("paths with arrays of different shape")
        k = "b"
        for v in vs:
            k = kmax(k, v.dt)
        if k == "b":
            fs = [(c, v.fn()) for c, v in res]
            return new_arr(sh, "b", lambda i: f_or(*[f_and(*(list(c) + [f(i)])) for c, f in fs]))
        fs = [(c, A.tofn(v)) for c, v in res]
        def fn(i):
            last = fs[-1][1](i)
            r = last
            for c, f in fs[:-1]:
                r = r + cond_poly(c) * (f(i) - last)
            return r
        return new_arr(sh, k, fn)
    if all(isinstance(v, tuple) for v in vs) and len({len(v) for v in vs}) == 1:
        return tuple(merge_values([(c, v[i]) for c, v in res]) for i in range(len(vs[0])))
    if all(v is vs[0] for v in vs):
        return vs[0]
    if all(isinstance(v, (str, type(None))) and v == vs[0] for v in vs):
        return vs[0]
    raise Unsupported("merging values of different types")

def loop_exceptions(it, n, k, res, resolve=lambda x: x):
    """a path of the body that raises: the loop raises iff some iteration takes it"""
    for conds, state, out in res:
        if out[0] != "exc":
            continue
        pc = f_and(*conds)
        pc = resolve(pc)
        if pc.op == "false":
            continue
        q = A._exists([n], [k], pc)
        if q.op == "false":
            continue
        if it.decide(q):
            # Skolem witness
            w = T.fresh("w")
            it.facts.push(f_ge(w))
            it.facts.push(f_gt(n - w))
            it.facts.push(subst(pc, {T.the_sym(k): w}))
            raise out[1]

def has_names(t, names):
    """does the term contain an application of one of names (deep)"""
    return any(a.kind == "app" and a.data[0] in names for a in T.all_atoms(t))

def rewrite_apps(it, p, names, cb):
    """rewrite applications of names in p; cb(name, args) under the facts of the context"""
    if not has_names(p, names):
        return p
    if isinstance(p, Formula):
        return _rw_formula(it, p, names, cb)
    out = P(0)
    for m, c in p.d.items():
        t = Poly({(): c})
        mono = Poly({m: T.ONE})
        if not has_names(mono, names):
            out = out + t * mono
            continue
        mark = it.facts.mark()
        for a, e in m:
            if a.kind == "iv" and not has_names(P(a), names):
                it.facts.push(a.data[0])
        try:
            for a, e in m:
                if not has_names(P(a), names):
                    t = t * Poly({((a, e),): T.ONE})
                    continue
                x = _rw_atom(it, a, names, cb)
                t = t * (x ** e if e >= 0 else T.inv0(x) ** (-e))
        finally:
            it.facts.pop(mark)
        out = out + t
    return out

def _rw_atom(it, a, names, cb):
    k = a.kind
    if k == "app":
        name, args, lams = a.data
        na = tuple(rewrite_apps(it, x, names, cb) if isinstance(x, (Poly, Formula)) else x for x in args)
        if name in names:
            return cb(name, na)
        nl = []
        for l in lams:
            if has_names(l.body, names):
                syms = [T.fresh("b") for _ in range(l.n)]
                nl.append(T.mk_lam(syms, rewrite_apps(it, T.app_lam(l, syms), names, cb)))
            else:
                nl.append(l)
        return T.rebuild_app(name, na, a.sort, tuple(nl))
    if k == "sum":
        syms, cs, body = T.open_sum(a)
        mark = it.facts.mark()
        ncs = []
        try:
            for s, n in zip(syms, cs):
                n2 = rewrite_apps(it, n, names, cb)
                ncs.append(n2)
                it.facts.push(f_ge(s))
                it.facts.push(f_gt(n2 - s))
            nb = rewrite_apps(it, body, names, cb)
        finally:
            it.facts.pop(mark)
        r = nb
        for s, n in reversed(list(zip(syms, ncs))):
            r = T.Sum0(s, n, r)
        return r
    if k == "iv":
        return iv(_rw_formula(it, a.data[0], names, cb))
    if k == "conj":
        return T.conj(_rw_atom(it, a.data[0], names, cb))
    q = rewrite_apps(it, a.data[0], names, cb)
    return {"sqrt": lambda z: T.mk_sqrt(z, it.facts.nonneg), "exp": T.mk_exp, "inv": T.inv0, "abs": T.mk_abs}[k](q)

def _rw_formula(it, f, names, cb):
    if f.op in ("true", "false"):
        return f
    if f.op in ("and", "or"):
        a = [_rw_formula(it, g, names, cb) for g in f.args]
        return f_and(*a) if f.op == "and" else f_or(*a)
    if f.op == "not":
        return f_not(_rw_formula(it, f.args[0], names, cb))
    if f.op == "b":
        x = _rw_atom(it, T.atoms_of(f.args[0]).pop(), names, cb)
        if len(x.d) == 1:
            (m, c), = x.d.items()
            if c == (1, 0) and len(m) == 1 and m[0][0].sort == "B":
                return Formula("b", (x,))
        return f_not(f_eq(x, 0))
    p = rewrite_apps(it, f.args[0], names, cb)
    return {"ge": f_ge, "gt": f_gt, "eq": f_eq}[f.op](p)

class Loc:
    def __init__(self, t, pre):
        self.t, self.pre = t, pre
        self.kind = t[0]
        self.name = None       # opaque state function
        self.mode = None       # 'num','cell','poison','list','dict'
        self.k = None
        self.read = False      # a poisoned value was asked for
        self.dt = None         # 'rebind': element kind of the array the variable holds

    @property
    def shape(self):
        return self.pre.shape if self.mode == "rebind" else self.t[1].shape

    def start(self):
        """the content before the loop, as a function of the index"""
        return self.pre.fn() if self.mode == "rebind" else self.pre

def pre_value(t):
    return I.loc_value(t)

EXIT = "<loop left>"

class LoopExit(Exception):
    """some iteration breaks or returns: exactly those j with when(j)"""
    def __init__(self, when):
        self.when = when

def run_loop(it, n, body, parallel=False):
    """a loop of n iterations. Where an iteration may leave it (break, return): either none does, or there is a first one K that
    does; then the iterations before K all run to their end, and K runs in full, leaving the loop the way the code says."""
    try:
        summarise(it, n, body, parallel)
        return
    except LoopExit as e:
        when = e.when

    it.weak = True

    def staying(k):
        it.facts.push(T.f_not(when(k)))
        body(k)

    def stay(m):
        try:
            summarise(it, m, staying)
        except LoopExit:
            raise Unsupported("loop left early")

    n = P(n)
    if it.decide(A.quant_formula("exists", [n], lambda i: when(i[0]))):
        first = T.fresh("first")
        it.facts.push(f_ge(first))
        it.facts.push(f_gt(n - first))
        it.facts.push(when(first))
        it.facts.push(A.quant_formula("forall", [first], lambda i: T.f_not(when(i[0]))))
        stay(first)
        body(first)
        raise Unsupported("loop exit not taken")
    stay(n)

def summarise(it, n, body, parallel=False):
    n = P(n)
    if it.facts.entails(f_ge(-n)):
        return
    stamp = next(I._ids)
    k = T.fresh("k")
    ks = T.the_sym(k)
    locs = {}
    base = it.facts.mark()

    def leaving():
        try:
            body(k)
        except (I._Break, I._Return, I._Left, I._Through):
            return EXIT
        return None

    for attempt in range(8):
        mark = len(it.trail)
        it.facts.push(f_ge(k))
        it.facts.push(f_gt(n - k))
        try:
            for key, l in locs.items():
                havoc(it, l, k)
            inner = len(it.trail)
            try:
                res = it.explore(leaving)
            except Unsupported:
                # an array carried from one iteration to the next by assigning its variable anew
                hit = [l for l in locs.values() if l.read and l.mode == "poison" and l.kind == "env" and isinstance(l.pre, Arr) and l.pre.dt != "b"]
                if not hit:
                    raise
                for l in hit:
                    l.mode, l.name, l.dt, l.pre = "rebind", fresh_name(), l.pre.dt, I.freeze(l.pre)
                continue
        finally:
            it.undo(mark)
            it.facts.pop(base)
        new = False
        for conds, state, out in res:
            if out == ("ok", EXIT):
                continue
            for key, (t, v) in state.items():
                if not preexisting(t, stamp):
                    continue
                if key not in locs:
                    locs[key] = make_loc(t)
                    new = True
                l = locs[key]
                if l.mode == "rebind" and out[0] == "ok":
                    if not isinstance(v, Arr) or tuple(v.shape) != tuple(l.pre.shape):
                        raise Unsupported("value carried between loop iterations")
                    if v.dt != l.dt:
                        if KORD.get(v.dt, -1) < KORD[l.dt] or not it.facts.entails(f_gt(n)):
                            raise Unsupported("value carried between loop iterations")
                        l.dt, l.name, new = v.dt, fresh_name(), True
                if l.mode == "num" and v is not I.MISSING and out[0] == "ok":
                    if not is_scalar(v):
                        l.mode = "poison"
                        new = True
                    elif KORD[kind(v)] > KORD[l.k]:
                        l.k = kind(v)
                        l.name = fresh_name()
                        new = True
        if not new:
            break
    else:
        raise Unsupported("loop state does not stabilise")
    exits = [f_and(*conds) for conds, state, out in res if out == ("ok", EXIT)]
    if exits:
        c = T.f_or(*exits)
        names = {l.name for l in locs.values() if l.name is not None}
        if parallel or any(has_names(e, names) for e in exits):
            raise Unsupported("loop left early on a condition it changes itself")
        raise LoopExit(lambda j: subst(c, {ks: P(j)}))
    finish(it, n, k, locs, res, parallel)

_nm = iter(range(10 ** 9))

def fresh_name():
    return f"st{next(_nm)}"

def preexisting(t, stamp):
    o = t[1]
    i = getattr(o, "ident", None)
    return i is None or i < stamp

def make_loc(t):
    l = Loc(t, pre_value(t))
    v = l.pre
    if l.kind == "cell":
        l.mode = "cell"
        l.name = fresh_name()
    elif l.kind in ("env", "fld"):
        if v is not I.MISSING and is_scalar(v):
            l.mode = "num"
            l.k = kind(v)
            if l.k == "b":
                l.k = "i" if False else "b"
            l.name = fresh_name()
        elif l.kind == "env" and isinstance(v, Arr) and v.shape and v.shape[0].is_zero() and v.dt != "b":
            l.mode = "grow"          # an array extended by pieces, see grown()
            l.name = fresh_name()
        else:
            l.mode = "poison"
    elif l.kind == "list":
        l.mode = "list"
    elif l.kind == "dict":
        l.mode = "dict"
    return l

def havoc(it, l, k):
    kd, o, n, _ = l.t
    if l.mode == "cell":
        dt = o.dt
        name = l.name
        if dt == "b":
            it.set_cell(o, lambda idx: T.f_batom(T.app(name, (k,) + tuple(idx), "B")))
        else:
            it.set_cell(o, lambda idx: T.app(name, (k,) + tuple(idx), SORT[dt]))
        return
    if l.mode == "num":
        if l.k == "b":
            v = mkbool(T.f_batom(T.app(l.name, (k,), "B")))
        else:
            v = Num(T.app(l.name, (k,), SORT[l.k]), l.k, isnp(l.pre))
    elif l.mode == "grow":
        name = l.name
        size = T.app(name + "#", (k,), "I")
        SV.AXIOMS[name + "#"] = lambda a: [f_ge(P(a))]
        v = new_arr((size,) + tuple(l.pre.shape[1:]), l.pre.dt, lambda idx: T.app(name, (k,) + tuple(idx), SORT[l.pre.dt]))
        v.tag = ("grown", name, (), v.cell.fn)
    elif l.mode == "rebind":
        name, dt = l.name, l.dt
        v = new_arr(l.pre.shape, dt, lambda idx: T.app(name, (k,) + tuple(idx), SORT[dt]))
    elif l.mode == "poison":
        v = I.Poison("value carried between loop iterations", l)
    elif l.mode == "list":
        it.trail.append(("list", o, None, (o.items, o.n, o.fn)))
        o.items, o.n, o.fn = MARK, None, None
        return
    elif l.mode == "dict":
        return
    if kd == "env":
        it.trail.append(("env", o, n, o.vars.get(n, I.MISSING)))
        o.vars[n] = v
    else:
        it.trail.append(("fld", o, n, o.f.get(n, I.MISSING)))
        o.f[n] = v

def _no_read(*a):
    raise Unsupported("a list read while a loop appends to it")

class _Mark(list):
    """what the current iteration has appended to a list of unknown length"""
    def __add__(self, o):
        return _Mark(list.__add__(self, o))

    def appended(self):
        return [list.__getitem__(self, i) for i in range(list.__len__(self))]

    __len__ = __iter__ = __getitem__ = __contains__ = __bool__ = __reversed__ = __eq__ = _no_read
    __hash__ = None

MARK = _Mark()

def finish(it, n, k, locs, res, parallel):
    ks = T.the_sym(k)
    facts = it.facts
    ok = [(c, s) for c, s, o in res if o[0] == "ok"]
    names = {l.name for l in locs.values() if l.name}
    rng = [f_ge(k), f_gt(n - k)]
    def with_range(f):
        m = facts.mark()
        for x in rng:
            facts.push(x)
        try:
            return f()
        finally:
            facts.pop(m)
    # ---- scalars
    scal = {}
    for key, l in locs.items():
        if l.mode == "num":
            gen = mkbool(T.f_batom(T.app(l.name, (k,), "B"))) if l.k == "b" else Num(T.app(l.name, (k,), SORT[l.k]), l.k)
            vals = [(c, s[key][1] if key in s else gen) for c, s in ok]
            if not vals:
                continue
            if any(v is I.MISSING for _, v in vals):
                l.mode = "poison"
                continue
            v = with_range(lambda: merge_values(vals))
            p = poly(v)
            scal[l.name] = (l, with_range(lambda: it.prover.simp(p)))
    solved = {}      # name -> (value at iteration j (function of Poly), final Poly)
    temps = {}
    def sub_solved(p, names_):
        def cb(name, args):
            return solved[name][0](args[0])
        return rewrite_apps(it, p, names_, cb)
    progress = True
    pend = dict(scal)
    while progress and pend:
        progress = False
        for name, (l, p) in list(pend.items()):
            q = with_range(lambda: it.prover.simp(sub_solved(p, set(solved)))) if solved else p
            if not has_names(q, names):
                # overwritten each iteration
                x0 = poly(l.pre)
                def at(j, q=q, x0=x0):
                    # value at the start of iteration j
                    return ite(f_gt(j), subst(q, {ks: P(j) - 1}), x0)
                solved[name] = (at, None)
                del pend[name]
                progress = True
                continue
            d = q - T.app(name, (k,), "B" if l.k == "b" else SORT[l.k]) if l.k != "b" else None
            if d is not None:
                d = with_range(lambda: it.prover.simp(d))
            if d is not None and not has_names(d, names):
                x0 = poly(l.pre)
                def at(j, d=d, x0=x0):
                    v = T.fresh("j")
                    return x0 + T.Sum0(v, P(j), subst(d, {ks: v}))
                solved[name] = (at, None)
                del pend[name]
                progress = True
    unsolved_scal = set(pend)
    def resolve_scal(p):
        return sub_solved(p, set(solved)) if solved else p
    # ---- cells
    cells = {}
    for key, l in locs.items():
        if l.mode not in ("cell", "rebind"):
            continue
        cell = l
        cdt = l.dt if l.mode == "rebind" else l.t[1].dt
        q = [T.fresh("q") for _ in cell.shape]
        old = T.app(l.name, (k,) + tuple(q), "B" if cdt == "b" else SORT[cdt])
        m = facts.mark()
        for x in rng:
            facts.push(x)
        for s, d in zip(q, cell.shape):
            facts.push(f_ge(s))
            facts.push(f_gt(d - s))
        try:
            delta = P(0)
            for c, s in ok:
                if key not in s:
                    continue
                fn = s[key][1].fn() if l.mode == "rebind" else s[key][1]
                mm = facts.mark()
                for f in c:
                    facts.push(f)
                try:
                    v = fn(tuple(q))
                    v = iv(v) if isinstance(v, Formula) else v
                    dv = it.prover.simp(v - old)
                finally:
                    facts.pop(mm)
                delta = delta + cond_poly(c) * dv
            delta = it.prover.simp(resolve_scal(delta))
        finally:
            facts.pop(m)
        cells[l.name] = (l, q, delta)
    cellnames = set(cells)
    def supports(name):
        l, q, delta = cells[name]
        return [[a.data[0] for a, e in mono if a.kind == "iv"] for mono in delta.d]
    supp = {nm: supports(nm) for nm in cells}
    def untouched(name, r):
        """location r of the cell is not written by any other (earlier) iteration"""
        l, q, delta = cells[name]
        k2 = T.fresh("kp")
        sub = {T.the_sym(a): b for a, b in zip(q, r)}
        sub[ks] = k2
        mk = facts.mark()
        facts.push(f_ge(k2))
        facts.push(f_gt(n - k2))
        facts.push(f_gt(k - k2) if not parallel else f_not(f_eq(k, k2)))
        try:
            if all(apart(lits, sub) for lits in supp[name]):
                return True
            d = it.prover.simp(subst(delta, sub))
            return all(apart([a.data[0] for a, e in mono if a.kind == "iv"], {}) for mono in d.d)
        finally:
            facts.pop(mk)
    def apart(lits, sub):
        ls = [subst(x, sub) for x in lits]
        ls = [x for x in ls if not has_names(x, names)]
        if any(x.op == "false" for x in ls):
            return True
        flat = []
        for x in ls:
            flat += list(x.args) if x.op == "and" else [x]
        return bool(flat) and facts.unsat(flat)
    free = {}
    def cb_self(name, args):
        if args[0] != k and not facts.entails(f_eq(args[0], k)):
            raise Unsupported("state at another iteration")
        if untouched(name, args[1:]):
            pre = cells[name][0].start()
            v = pre(tuple(args[1:]))
            return iv(v) if isinstance(v, Formula) else v
        if not parallel and name in free:
            l, q, d = free[name]
            j = T.fresh("j")
            sub = {T.the_sym(a): b for a, b in zip(q, args[1:])}
            sub[ks] = j
            v = l.start()(tuple(args[1:]))
            v = iv(v) if isinstance(v, Formula) else v
            return v + T.Sum0(j, k, subst(d, sub))
        raise Unsupported("loop-carried dependence through an array")
    pend = dict(cells)
    err = None
    for _ in range(len(pend) + 1):
        for name, (l, q, delta) in list(pend.items()):
            m = facts.mark()
            for x in rng:
                facts.push(x)
            for s, d in zip(q, l.shape):
                facts.push(f_ge(s))
                facts.push(f_gt(d - s))
            try:
                d2 = rewrite_apps(it, delta, cellnames, cb_self)
                d2 = it.prover.simp(d2)
            except Unsupported as e:
                err = e
                continue
            finally:
                facts.pop(m)
            if has_names(d2, unsolved_scal):
                err = Unsupported("loop-carried scalar")
                continue
            free[name] = (l, q, d2)
            del pend[name]
        if not pend:
            break
    if pend:
        raise err or Unsupported("loop over arrays")
    if parallel:
        for name, (l, q, d2) in free.items():
            check_parallel(it, n, k, l, q, d2, supp[name], names)
        if any(l.mode == "num" and l.name not in solved for l in locs.values()):
            raise Unsupported("shared scalar in parallel loop")
    # ---- exceptions raised by iterations
    def resolve_f(f):
        f = sub_solved(f, set(solved)) if solved and has_names(f, set(solved)) else f
        if has_names(f, cellnames):
            f = rewrite_apps(it, f, cellnames, cb_self)
        if has_names(f, names):
            raise Unsupported("exception depends on loop state")
        return f
    loop_exceptions(it, n, k, res, resolve_f)
    # ---- commit
    for name, (l, q, d2) in free.items():
        cell = l if l.mode == "rebind" else l.t[1]
        pre = l.start()
        m = facts.mark()
        for s, d in zip(q, cell.shape):
            facts.push(f_ge(s))
            facts.push(f_gt(d - s))
        try:
            tot = it.prover.simp(T.Sum0(k, n, d2))
        finally:
            facts.pop(m)
        qa = [T.the_sym(s) for s in q]
        if cell.dt == "b":
            def fn(idx, pre=pre, tot=tot, qa=qa):
                return A.poly_truth(iv(pre(idx)) + subst(tot, dict(zip(qa, idx))))
        else:
            def fn(idx, pre=pre, tot=tot, qa=qa):
                return pre(idx) + subst(tot, dict(zip(qa, idx)))
        if l.mode == "rebind":
            it.set_var(l.t[1], l.t[2], new_arr(l.pre.shape, l.dt, fn))
            continue
        it.set_cell(cell, fn)
    nn = T.mk_count(n)
    for key, l in locs.items():
        kd, o, nm, _ = l.t
        if l.mode == "num":
            if l.name in solved:
                p = it.prover.simp(solved[l.name][0](nn))
                v = mkbool(A.poly_truth(p)) if l.k == "b" else num(p, l.k, isnp(l.pre))
            else:
                v = I.Poison("loop-carried scalar")
        elif l.mode == "grow":
            v = grown(it, n, k, key, l, ok, names | {x + "#" for x in names})
        elif l.mode == "poison":
            v = final_temp(it, n, k, key, l, ok, names)
        elif l.mode == "list":
            finish_list(it, n, k, key, l, ok, names, sub_solved, solved)
            continue
        elif l.mode == "dict":
            finish_dict(it, l, ok, key)
            continue
        else:
            continue
        if kd == "env":
            it.set_var(o, nm, v)
        else:
            it.set_field(o, nm, v)

def final_temp(it, n, k, key, l, ok, names):
    """value of a variable assigned in every iteration, after the loop"""
    vals = [(c, s[key][1]) for c, s in ok if key in s]
    if len(vals) == 1 and len(ok) == 1 and it.facts.entails(f_gt(n)):
        v = vals[0][1]
        try:
            w = I.value_subst(v, {T.the_sym(k): n - 1})
        except Unsupported:
            return I.Poison("temporary of a loop used after it")
        if is_scalar(w) and not has_names(poly(w), names):
            return w
        if isinstance(w, Arr):
            syms = tuple(T.fresh("e") for _ in w.shape)
            x = w.fn()(syms)
            if not has_names(x, names):
                return w
    return I.Poison("temporary of a loop used after it")

def grown(it, n, k, key, l, ok, names):
    """an array to which every iteration appends one piece: the concatenation of the pieces"""
    pieces = []
    for c, s in ok:
        v = s[key][1] if key in s else None
        tag = getattr(v, "tag", None)
        if not isinstance(tag, tuple) or tag[:2] != ("grown", l.name) or len(tag[2]) != 1:
            return final_temp(it, n, k, key, l, ok, names)
        pieces.append((c, tag[2][0]))
    try:
        v = merge_values(pieces)
    except Unsupported as e:
        return I.Poison(str(e))
    syms = tuple(T.fresh("e") for _ in v.shape)
    if has_names(v.fn()(syms), names) or any(has_names(x, names) for x in v.shape):
        return I.Poison("appended array depends on loop state")
    return A.ragged(n, lambda i: I.value_subst(v, {T.the_sym(k): P(i)}), dt=kmax(l.pre.dt, v.dt))

def finish_list(it, n, k, key, l, ok, names, sub_solved, solved):
    o = l.t[1]
    pre = l.pre
    vals = []
    for c, s in ok:
        if key not in s:
            raise Unsupported("conditional append")
        items, nn, fn = s[key][1]
        if isinstance(items, _Mark):
            items = items.appended()
        elif items is not None:
            raise Unsupported("append pattern")
        vals.append((c, items, nn, fn))
    if pre[0] is None:
        raise Unsupported("append to a symbolic list in a symbolic loop")
    nested = isinstance(pre[0], _Mark)      # the list is filled by an enclosing loop as well
    head = pre[0].appended() if nested else list(pre[0])
    if head and nested:
        raise Unsupported("append to a non-empty list in a symbolic loop")
    if head:
        from .values import concat_lists
        raw = it.set_list
        def put(o_, items, n_, fn_):
            c = concat_lists(PList(head), PList(None, n_, fn_))
            raw(o_, None, c.n, c.fn)
    else:
        put = it.set_list
    ks = T.the_sym(k)
    if len(vals) == 1 and vals[0][1] is None:
        # every iteration appends m elements, by a loop of its own
        m, f = vals[0][2], vals[0][3]
        square = (m - 2 * k - 1).is_zero()      # 2l + 1 entries for each l
        if (ks in m.fv and not square) or has_names(m, names):
            raise Unsupported("append pattern")
        j = T.fresh("e")
        js = T.the_sym(j)
        it.weak = True
        v = clean_value(f(j), names, sub_solved, solved)
        if square:
            def at_lm(i):
                q = MO.find_isqrt(P(i))
                return I.value_subst(v, {ks: q, js: P(i) - q * q})
            put(o, None, n * n, at_lm)
            return
        put(o, None, n * m, lambda i: I.value_subst(v, {ks: idiv(P(i), m), js: imod(P(i), m)}))
        return
    if any(x[1] is None for x in vals) or len({len(x[1]) for x in vals}) != 1 or not vals[0][1]:
        raise Unsupported("conditional append")
    c = len(vals[0][1])
    if c > 1:
        vs = [clean_value(merge_values([(x[0], x[1][t]) for x in vals]), names, sub_solved, solved) for t in range(c)]
        if not all(is_scalar(x) for x in vs):
            raise Unsupported("append pattern")
        it.weak = True

        def at(i):
            q, r = idiv(P(i), P(c)), imod(P(i), P(c))
            out = poly(I.value_subst(vs[-1], {ks: q}))
            for t in range(c - 2, -1, -1):
                out = ite(f_eq(r, t), poly(I.value_subst(vs[t], {ks: q})), out)
            return num(out, max((kind(x) for x in vs), key=KORD.get))
        put(o, None, n * c, at)
        return
    v = clean_value(merge_values([(x[0], x[1][0]) for x in vals]), names, sub_solved, solved)
    put(o, None, n, lambda i: I.value_subst(v, {ks: P(i)}))

def clean_value(v, names, sub_solved, solved):
    def clean(v):
        if is_scalar(v):
            p = poly(v)
            if solved:
                p = sub_solved(p, set(solved))
            if has_names(p, names):
                raise Unsupported("appended value depends on loop state")
            return num(p, kind(v), isnp(v)) if kind(v) != "b" else v
        if isinstance(v, Arr):
            syms = tuple(T.fresh("e") for _ in v.shape)
            if has_names(v.fn()(syms), names):
                raise Unsupported("appended array depends on loop state")
            return v
        if isinstance(v, tuple):
            return tuple(clean(x) for x in v)
        return v
    return clean(v)

def finish_dict(it, l, ok, key):
    o = l.t[1]
    memo = None
    for c, s in ok:
        if key in s:
            d, m = s[key][1]
            if d or m is None:
                raise Unsupported("dictionary written in a symbolic loop")
            memo = m if memo is None else memo
            if memo is not m:
                if not I.same_value(I.value_subst(m[1], {m[0]: P(memo[0])}), memo[1]):
                    raise Unsupported("memo table values are not a function of the key")
    if memo is not None:
        it.set_dict(o, o.d, memo[:2] + (None,))      # which keys are present afterwards is not tracked

def check_parallel(it, n, k, l, q, d2, supp, names):
    """writes of different iterations must be disjoint"""
    facts = it.facts
    k2 = T.fresh("kp")
    ks = T.the_sym(k)
    m = facts.mark()
    for x in (f_ge(k), f_gt(n - k), f_ge(k2), f_gt(n - k2), f_not(f_eq(k, k2))):
        facts.push(x)
    for s, d in zip(q, l.shape):
        facts.push(f_ge(s))
        facts.push(f_gt(d - s))
    try:
        sup2 = [[a.data[0] for a, e in mono if a.kind == "iv"] for mono in d2.d]
        for a in sup2:
            for b in sup2:
                b2 = [subst(x, {ks: k2}) for x in b]
                fl = []
                for x in a + b2:
                    fl += list(x.args) if x.op == "and" else [x]
                if any(x.op == "false" for x in fl):
                    continue
                if not facts.unsat(fl):
                    raise Unsupported("parallel iterations may write the same element")
    finally:
        facts.pop(m)
