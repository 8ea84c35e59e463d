"""numpy array semantics over symbolic shapes."""
from __future__ import annotations

from fractions import Fraction

from . import terms as T
from .terms import P, Poly, Formula, TRUE, FALSE, f_not, f_and, f_or, f_ge, f_gt, f_eq, iv, ite, subst
from .values import *
from .values import ctx

ONE_ = P(1)

def tofn(a):
    """Poly-valued element function"""
    f = a.fn()
    if a.dt == "b":
        return lambda idx: iv(f(idx))
    return f

def dim_is(d, v):
    """decide d == v"""
    return ctx().decide(f_eq(P(d), P(v)))

def bc_dim(a, b):
    """result dim and which operands are stretched"""
    if a == b:
        return a, False, False
    a1 = a.is_int_const() and a.const()[0] == 1
    b1 = b.is_int_const() and b.const()[0] == 1
    if a1:
        return b, True, False
    if b1:
        return a, False, True
    if dim_is(a, b):
        return (a if a.is_const() else b if b.is_const() else a), False, False
    if not a.is_const() and dim_is(a, 1):
        return b, True, False
    if not b.is_const() and dim_is(b, 1):
        return a, False, True
    raise PyExc("ValueError", ("operands could not be broadcast together",))

def bcast(shapes):
    """common shape and index maps"""
    n = max(len(s) for s in shapes)
    out = [ONE_] * n
    stretch = [[False] * n for _ in shapes]
    for d in range(n):
        cur = None
        owners = []
        for i, s in enumerate(shapes):
            j = d - (n - len(s))
            if j < 0:
                continue
            if cur is None:
                cur = s[j]
                owners = [i]
                continue
            r, sa, sb = bc_dim(cur, s[j])
            if sa:
                for o in owners:
                    stretch[o][d] = True
            if sb:
                stretch[i][d] = True
            else:
                owners.append(i)
            cur = r
        out[d] = cur
    maps = []
    for i, s in enumerate(shapes):
        off = n - len(s)
        st = stretch[i]
        def mp(idx, off=off, st=st, k=len(s)):
            return tuple(P(0) if st[off + j] else idx[off + j] for j in range(k))
        maps.append(mp)
    return tuple(out), maps

def as_arr(v):
    if isinstance(v, Arr):
        return v
    if isinstance(v, (PList, tuple)):
        return array_of(v)
    if is_scalar(v):
        k = kind(v)
        if k == "b":
            f = formula(v)
            return new_arr((), "b", lambda idx: f)
        p = poly(v)
        return new_arr((), k, lambda idx: p)
    raise Unsupported(f"array from {type(v).__name__}")

def array_of(v):
    """np.array of nested lists / tuples / symbolic lists"""
    if isinstance(v, Arr):
        f, sh, dt = v.fn(), v.shape, v.dt
        return new_arr(sh, dt, f)
    if is_scalar(v):
        return as_arr(v)
    if isinstance(v, PList) and v.items is None:
        n, g = v.n, v.fn
        probe = T.fresh("k")
        x = g(probe)
        if is_scalar(x):
            k = kind(x)
            if k == "b":
                return new_arr((n,), "b", lambda idx: formula(g(idx[0])))
            return new_arr((n,), k, lambda idx: poly(g(idx[0])))
        x = as_arr(x)
        if any(T.the_sym(probe) in s.fv for s in x.shape):
            raise Unsupported("ragged array")
        def fn(idx):
            e = as_arr(g(idx[0]))
            return e.fn()(idx[1:])
        return new_arr((n,) + x.shape, x.dt, fn)
    items = v.items if isinstance(v, PList) else list(v)
    if not items:
        return new_arr((P(0),), "f", lambda idx: P(0))
    arrs = [as_arr(x) for x in items]
    return stack(arrs)

def stack(arrs):
    k = arrs[0].dt
    for a in arrs[1:]:
        k = kmax(k, a.dt)
    sh = arrs[0].shape
    for a in arrs[1:]:
        if len(a.shape) != len(sh):
            raise PyExc("ValueError", ("inhomogeneous shape",))
        for x, y in zip(sh, a.shape):
            if not dim_is(x, y):
                raise PyExc("ValueError", ("inhomogeneous shape",))
    fs = [a.fn() if k == "b" else tofn(a) for a in arrs]
    def fn(idx):
        i, rest = idx[0], idx[1:]
        if i.is_int_const():
            return fs[i.const()[0]](rest)
        if k == "b":
            return f_or(*[f_and(f_eq(i, j), f(rest)) for j, f in enumerate(fs)])
        r = P(0)
        for j, f in enumerate(fs):
            r = r + iv(f_eq(i, j)) * f(rest)
        return r
    return new_arr((P(len(arrs)),) + tuple(sh), k, fn)

def ewise(fn, dt, *ops):
    """elementwise application: fn(*polys) -> Poly/Formula"""
    arrs = [as_arr(o) for o in ops]
    shape, maps = bcast([a.shape for a in arrs])
    fs = [tofn(a) for a in arrs]
    def g(idx):
        return fn(*[f(m(idx)) for f, m in zip(fs, maps)])
    if not shape:
        r = g(())
        return elem(r, dt)
    return new_arr(shape, dt, g)

def opkind(o):
    return as_kind(o)

def as_kind(o):
    if isinstance(o, (Arr, Sel)):
        return o.dt
    if is_scalar(o):
        return kind(o)
    return as_arr(o).dt

def arr_binop(op, a, b):
    if isinstance(a, Sel) or isinstance(b, Sel):
        return sel_binop(op, a, b)
    if a is None or b is None or isinstance(a, (str, Obj)) or isinstance(b, (str, Obj)):
        raise PyExc("TypeError", ("unsupported operand",))
    ka, kb = as_kind(a), as_kind(b)
    k = kmax(ka, kb)
    if op == "@":
        return matmul(as_arr(a), as_arr(b))
    if k == "b" and op in ("+", "|", "*", "&", "^"):
        if op in ("+", "|"):
            return ewise(lambda p, q: f_or(tf(p), tf(q)), "b", a, b)
        if op in ("*", "&"):
            return ewise(lambda p, q: f_and(tf(p), tf(q)), "b", a, b)
        return ewise(lambda p, q: f_not(f_eq(p, q)), "b", a, b)
    if op == "+":
        return ewise(lambda p, q: p + q, "i" if k == "b" else k, a, b)
    if op == "-":
        return ewise(lambda p, q: p - q, k, a, b)
    if op == "*":
        return ewise(lambda p, q: p * q, k, a, b)
    if op == "/":
        return ewise(lambda p, q: p * sinv(q), "c" if k == "c" else "f", a, b)
    if op in ("//", "%", "**") or (op in ("&", "<<", ">>") and k == "i"):
        probe = scalar_op(op, T.fresh("p", SORT[ka]) if is_scalar(a) is False else poly(a),
                          T.fresh("q", SORT[kb]) if is_scalar(b) is False else poly(b), k, True, ka, kb)
        kk = probe[1]
        if op == "**" and ka in "bi" and kb in "bi":
            kk = "i"
        return ewise(lambda p, q: scalar_op(op, p, q, k, True, ka, kb)[0], kk, a, b)
    raise Unsupported(f"array operator {op}")

def sinv(q):
    if q.is_zero():
        raise Unsupported("numpy division by the constant zero")
    return T.inv(q)

def tf(p):
    return p if isinstance(p, Formula) else poly_truth(p)

def poly_truth(p):
    """formula p != 0 for an indicator-valued poly"""
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if c == (1, 0) and m and all(a.kind == "iv" for a, _ in m):
            return f_and(*[a.data[0] for a, _ in m])
    return f_not(f_eq(p, 0))

def arr_compare(op, a, b):
    if a is None or b is None or isinstance(a, (str, SStr)) or isinstance(b, (str, SStr)):
        raise Unsupported("array comparison with None/str")
    return ewise(lambda p, q: cmp_formula(op, p, q), "b", a, b)

def ufunc(f, a, k):
    """unary elementwise; k: kind function"""
    if isinstance(a, Sel):
        g = a.fn
        return Sel(a.dom, a.pred, lambda i: f(g(i)), k(a.dt), a.key)
    if is_scalar(a):
        return num(f(poly(a)), k(kind(a)), True)
    return ewise(f, k(as_kind(a)), a)

# ------------------------------------------------------------------------- selections
def sel_binop(op, a, b):
    s = a if isinstance(a, Sel) else b
    for x in (a, b):
        if isinstance(x, Sel):
            if x.key != s.key:
                raise Unsupported("arithmetic between different selections")
        elif isinstance(x, Arr) and len(x.shape) > 0:
            y = sel_to_arr(s)
            if y is None:
                raise Unsupported("selection with array arithmetic")
            return arr_binop(op, y if a is s else a, y if b is s else b)
    def el(x):
        if isinstance(x, Sel):
            if x.dt == "b":
                return lambda i: iv(x.fn(i))
            return x.fn
        p = poly(x) if is_scalar(x) else tofn(x)(())
        return lambda i: p
    ea, eb = el(a), el(b)
    ka, kb = as_kind(a), as_kind(b)
    k = kmax(ka, kb)
    kk = scalar_op(op, T.fresh("p", SORT[ka]), T.fresh("q", SORT[kb]), k, True, ka, kb)[1] if op not in ("**",) else k
    return Sel(s.dom, s.pred, lambda i: scalar_op(op, ea(i), eb(i), k, True, ka, kb)[0], kk, s.key)

def sel_compare(op, a, b):
    s = a if isinstance(a, Sel) else b
    if isinstance(a, Sel) and isinstance(b, Sel) and a.key != b.key:
        raise Unsupported("comparison of different selections")
    el = lambda x: x.fn if isinstance(x, Sel) else (lambda i: poly(x))
    ea, eb = el(a), el(b)
    return Sel(s.dom, s.pred, lambda i: cmp_formula(op, ea(i), eb(i)), "b", s.key)

_selkey = iter(range(10**9))

def mask_sel(mask, fn=None, dt=None):
    """selection of the points where a bool array holds"""
    mf = mask.fn()
    key = ("mask", tuple(mask.shape), _mask_sig(mask))
    return mf, key

def _mask_sig(mask):
    syms = [T.fresh("mi") for _ in mask.shape]
    b = mask.fn()(tuple(syms))
    return T.mk_lam(syms, b)

# ------------------------------------------------------------------------- indexing
class Ix:
    """result of normalising an index expression"""

def norm_index(i, n):
    """in-range non-negative index poly; forks IndexError"""
    p = as_int(i)
    c = ctx()
    if p.is_int_const() and p.const()[0] < 0:
        p = n + p
        if not c.decide(f_ge(p)):
            raise PyExc("IndexError", ())
        return p
    if not p.is_int_const():
        if not c.decide(f_ge(p)):
            p = n + p
            if not c.decide(f_ge(p)):
                raise PyExc("IndexError", ())
            return p
    if not c.decide(f_gt(n - p)):
        raise PyExc("IndexError", ())
    return p

def clampidx(v, n, default):
    if v is None:
        return default
    p = as_int(v)
    c = ctx()
    if not c.decide(f_ge(p)):
        p = n + p
        if not c.decide(f_ge(p)):
            return P(0)
        return p
    if not c.decide(f_ge(n - p)):
        return n
    return p

def slice_bounds(s, n):
    """(start, size, step)"""
    st = s[2]
    if st is None:
        st = 1
    if isinstance(st, Num):
        if st.p.is_int_const():
            st = st.p.const()[0]
        else:
            # symbolic positive step
            q = st.p
            if not ctx().facts.entails(f_gt(q)):
                raise Unsupported("slice step")
            if s[1] is None and s[0] is not None:
                lo = as_int(s[0])
                if ctx().facts.entails(f_and(f_ge(lo), f_ge(n - lo + q - 1))):
                    # also right when n < lo < n + step: the size is then 0
                    return lo, idiv(n - lo + q - 1, q), q
            lo = clampidx(s[0], n, P(0))
            hi = clampidx(s[1], n, n)
            size = idiv(hi - lo + q - 1, q)
            if not ctx().facts.entails(f_ge(hi - lo)):
                raise Unsupported("slice with step")
            return lo, size, q
    if st == 1:
        lo = clampidx(s[0], n, P(0))
        hi = clampidx(s[1], n, n)
        d = hi - lo
        if d.is_const():
            return lo, P(max(0, d.const()[0])), 1
        if ctx().decide(f_ge(d)):
            return lo, d, 1
        return lo, P(0), 1
    if st == -1:
        if s[0] is None and s[1] is None:
            return n - 1, n, -1
        raise Unsupported("reversed slice with bounds")
    if st > 1:
        lo = clampidx(s[0], n, P(0))
        hi = clampidx(s[1], n, n)
        d = hi - lo
        if not ctx().decide(f_ge(d)):
            return lo, P(0), st
        return lo, idiv(d + (st - 1), P(st)), st
    raise Unsupported("slice step")

class SliceV:
    __slots__ = ("t",)

    def __init__(self, a, b, c):
        self.t = (a, b, c)

def expand_index(a, idx):
    """list of index items, one per consumed base dim, with None for newaxis"""
    items = list(idx) if isinstance(idx, tuple) else [idx]
    out = []
    for x in items:
        if isinstance(x, slice):
            x = SliceV(x.start, x.stop, x.step)
        if isinstance(x, PList):
            x = array_of(x)
        out.append(x)
    def consumes(x):
        if x is None or x is Ellipsis:
            return 0
        if isinstance(x, Arr) and x.dt == "b":
            return len(x.shape)
        return 1
    used = sum(consumes(x) for x in out)
    nd = len(a.shape)
    if any(x is Ellipsis for x in out):
        k = [i for i, x in enumerate(out) if x is Ellipsis][0]
        out[k:k + 1] = [SliceV(None, None, None)] * (nd - used)
    else:
        out += [SliceV(None, None, None)] * (nd - used)
    if used > nd:
        raise PyExc("IndexError", ("too many indices",))
    return out

def view_of(a, items):
    """basic indexing: a new view"""
    vm = a.vmap
    if vm is None:
        vm = [("dim", j, P(0), P(1)) for j in range(len(a.shape))]
    newshape = []
    trans = []     # per old view dim: ('fix', p) | ('dim', newj, start, step)
    d = 0
    for x in items:
        if x is None:
            newshape.append(ONE_)
            continue
        n = a.shape[d]
        if isinstance(x, SliceV):
            lo, size, st = slice_bounds(x.t, n)
            trans.append(("dim", len(newshape), lo, P(st)))
            newshape.append(size)
        else:
            trans.append(("fix", norm_index(x, n)))
        d += 1
    out = []
    for e in vm:
        if e[0] == "fix":
            out.append(e)
        else:
            t = trans[e[1]]
            if t[0] == "fix":
                out.append(("fix", e[2] + e[3] * t[1]))
            else:
                out.append(("dim", t[1], e[2] + e[3] * t[2], e[3] * t[3]))
    r = Arr(a.cell, newshape, out, a.ro)
    return r

def is_basic(x):
    return x is None or isinstance(x, SliceV) or (is_scalar(x) and kind(x) in ("i",) and not isinstance(x, (bool, Bool)))

def getitem(a, idx):
    if isinstance(a, Sel):
        return sel_getitem(a, idx)
    items = expand_index(a, _clean(idx))
    items = [_unwrap0(x) for x in items]
    if all(is_basic(x) for x in items):
        v = view_of(a, items)
        if not v.shape:
            return elem(v.fn()(()), a.dt)
        return v
    return adv_get(a, items)

def _unwrap0(x):
    if isinstance(x, Arr) and not x.shape and x.dt == "i":
        return elem(x.fn()(()), "i")
    return x

def _clean(idx):
    if isinstance(idx, tuple):
        return tuple(_clean(x) for x in idx)
    if isinstance(idx, TupleIdx):
        return idx
    return idx

class TupleIdx(tuple):
    """tuple of index arrays"""

def adv_get(a, items):
    # boolean mask (single)
    masks = [x for x in items if isinstance(x, Arr) and x.dt == "b"]
    sels = [x for x in items if isinstance(x, Sel)]
    if masks:
        if len(masks) != 1 or sels or any(isinstance(x, Arr) and x.dt != "b" for x in items):
            raise Unsupported("several masks")
        pos = items.index(masks[0])
        if any(x is None for x in items):
            raise Unsupported("mask with newaxis")
        k = len(masks[0].shape)
        rest_pre = items[:pos]
        rest_post = items[pos + 1:]
        if rest_pre and not all(isinstance(x, SliceV) and x.t == (None, None, None) for x in rest_pre):
            a = view_of(a, rest_pre + [SliceV(None, None, None)] * (len(a.shape) - len(rest_pre)))
        npre = len(rest_pre)
        m = masks[0]
        for j in range(k):
            if not dim_is(m.shape[j], a.shape[npre + j]):
                raise PyExc("IndexError", ("boolean index did not match",))
        if rest_post and not all(isinstance(x, SliceV) and x.t == (None, None, None) for x in rest_post):
            raise Unsupported("mask with further indices")
        mf, key = mask_sel(m)
        af = a.fn()
        others_post = a.shape[npre + k:]
        others_pre = a.shape[:npre]
        if not others_post and not others_pre:
            return Sel(m.shape, mf, af, a.dt, key)
        return compress(a, npre, m, k)
    if sels:
        if any(s.key != sels[0].key for s in sels) or any(isinstance(x, Arr) for x in items):
            raise Unsupported("mixed advanced indices")
        af = a.fn()
        if all(isinstance(x, Sel) for x in items):
            def fn(i):
                return af(tuple(normp(s.fn(i), n) for s, n in zip(items, a.shape)))
            return Sel(sels[0].dom, sels[0].pred, fn, a.dt, sels[0].key)
        if isinstance(items[0], Sel) and len(sels) == 1 and all(isinstance(x, SliceV) and x.t == (None, None, None) for x in items[1:]):
            return RowSel(a, sels[0])
        raise Unsupported("selection index on part of the dimensions")
    # integer arrays
    arrs = [(i, x) for i, x in enumerate(items) if isinstance(x, Arr)]
    scal = [(i, x) for i, x in enumerate(items) if is_scalar(x)]
    if any(x.dt not in ("i",) for _, x in arrs):
        if any(x.dt == "f" and x.shape and x.shape[0].is_zero() for _, x in arrs):
            raise Unsupported("empty float index")
        raise PyExc("IndexError", ("arrays used as indices must be of integer type",))
    if not arrs:
        raise Unsupported(f"index {items}")
    if any(x is None for x in items):
        raise Unsupported("newaxis with integer arrays")
    adv = sorted(arrs + scal)
    pos = [i for i, _ in adv]
    contiguous = pos == list(range(pos[0], pos[-1] + 1))
    ops = [as_arr(x) for _, x in adv]
    ish, maps = bcast([o.shape for o in ops])
    fs = [tofn(o) for o in ops]
    # slices
    sl = {}
    for i, x in enumerate(items):
        if isinstance(x, SliceV):
            sl[i] = slice_bounds(x.t, a.shape[i])
    at = pos[0] if contiguous else 0
    before = [i for i in range(len(items)) if i in sl and (i < pos[0] if contiguous else False)]
    after = [i for i in range(len(items)) if i in sl and i not in before]
    shape = [sl[i][1] for i in before] + list(ish) + [sl[i][1] for i in after]
    af = a.fn()
    nb, ni = len(before), len(ish)
    # bounds: indices of integer arrays must be in range (obligation decided generically)
    plain = [check_index_array(f, ish, m, a.shape[i]) for (i, x), f, m in zip(adv, fs, maps)]
    def fn(idx):
        b = [None] * len(items)
        for j, i in enumerate(before):
            b[i] = sl[i][0] + P(sl[i][2]) * idx[j]
        for (i, x), f, m, pl in zip(adv, fs, maps, plain):
            v = f(m(idx[nb:nb + ni]))
            b[i] = v if pl else normp(v, a.shape[i])
        for j, i in enumerate(after):
            b[i] = sl[i][0] + P(sl[i][2]) * idx[nb + ni + j]
        return af(tuple(b))
    return new_arr(shape, a.dt, fn)

def normp(p, n):
    """wrap a possibly negative index"""
    c = ctx()
    if p.is_int_const():
        return p if p.const()[0] >= 0 else n + p
    if c.facts.entails(f_ge(p)):
        return p
    return p + iv(f_gt(-p)) * n

def check_index_array(f, ish, m, n):
    """raise IndexError when some index may be out of range; whether none is negative"""
    c = ctx()
    plain = False
    syms = [T.fresh("ix") for _ in ish]
    mark = c.facts.mark()
    try:
        for s, d in zip(syms, ish):
            c.facts.push(f_ge(s))
            c.facts.push(f_gt(d - s))
        v = f(m(tuple(syms)))
        bad = f_or(f_gt(-(v + n)), f_ge(v - n))
        ok = c.facts.entails(f_not(bad)) or c.facts.inconsistent()
        plain = ok and c.facts.entails(f_ge(v))
    finally:
        c.facts.pop(mark)
    if not ok:
        lam = T.mk_lam(syms, bad)
        e = f_batom(T.app("exists", tuple(ish), "B", (lam,)))
        if c.decide(e):
            raise PyExc("IndexError", ())
    return plain

f_batom = T.f_batom

class RowSel:
    """a[sel] on the first axis, other axes whole"""
    def __init__(self, a, sel):
        self.a, self.sel = a, sel

def selected(x):
    """a selection as an array: element k is that of the k-th selected point"""
    if isinstance(x, RowSel):
        s, af = x.sel, x.a.fn()
        pt = lambda k: s.fn(nth_point(s.dom, s.pred, s.key, k))
        return new_arr((sel_count(s),) + tuple(x.a.shape[1:]), x.a.dt, lambda i: af((pt(i[0]),) + tuple(i[1:])))
    return new_arr((sel_count(x),), x.dt, lambda i: x.fn(nth_point(x.dom, x.pred, x.key, i[0])))

def sel_getitem(s, idx):
    if isinstance(idx, Arr) and idx.dt == "b":
        raise Unsupported("mask of a selection")
    if is_scalar(idx):
        # k-th selected point
        return elem(subst_sel(s, as_int(idx)), s.dt)
    raise Unsupported("index of a selection")

def nth_point(dom, pred, key, k):
    """indices of the k-th point satisfying pred: unique witness if only one point can, else opaque"""
    syms = [T.fresh("pt") for _ in dom]
    lam = T.mk_lam(syms, iv(pred(tuple(syms))))
    if len(dom) == 1 and len(k.d) == 1:
        (m, c), = k.d.items()
        if c == (1, 0) and len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if a.kind == "app" and a.data[0] == "rank0" and a.data[1][1:] == (P(dom[0]),) and a.data[2] == (lam,):
                return (a.data[1][0],)     # the point whose rank this is
    return tuple(T.app(f"nth{j}", (k,) + tuple(dom), "I", (lam,)) for j in range(len(dom)))

def subst_sel(s, k):
    w = unique_point(s)
    if w is not None:
        if not ctx().decide(f_and(f_eq(k, 0), w[1])):
            raise PyExc("IndexError", ())
        return s.fn(w[0])
    pts = nth_point(s.dom, s.pred, s.key, k)
    cnt = sel_count(s)
    if not ctx().decide(f_and(f_ge(k), f_gt(cnt - k))):
        raise PyExc("IndexError", ())
    return s.fn(pts)

def sel_count(s):
    syms = [T.fresh("c") for _ in s.dom]
    r = iv(s.pred(tuple(syms)))
    for v, n in reversed(list(zip(syms, s.dom))):
        r = T.Sum0(v, n, r)
    return r

def unique_point(s):
    """(point, formula 'it is in the domain') when pred determines a single point"""
    if len(s.dom) == 1:
        v = T.fresh("w")
        f = s.pred((v,))
        fs = list(f.args) if f.op == "and" else [f]
        va = T.the_sym(v)
        for g in fs:
            if g.op == "eq":
                sol = T.solve_linear(g.args[0], va)
                if sol is not None:
                    rest = f_and(*[subst(h, {va: sol}) for h in fs if h is not g])
                    return (sol,), f_and(f_ge(sol), f_gt(s.dom[0] - sol), rest)
    elif len(s.dom) == 2 and s.dom[0].is_int_const() and s.dom[0].const()[0] == 1:
        inner = Sel(s.dom[1:], lambda i: s.pred((P(0),) + i), s.fn, s.dt, s.key)
        w = unique_point(inner)
        if w is not None:
            return (P(0),) + w[0], w[1]
    return None

def enumerate_sel(s):
    """(count M, k-th point e, rank of a point) of an index set of one dimension, when it is visibly
    (a) everything or (b) the entries of a fixed order m among the harmonic indices l^2+l+m; each candidate is PROVED
    to be an increasing enumeration of exactly the selected points.  None otherwise."""
    if len(s.dom) != 1:
        return None
    n = s.dom[0]
    c = ctx()
    q = T.fresh("q")
    qa = T.the_sym(q)
    pf = s.pred((q,))
    cands = []
    r = SV_isqrt(q)
    root = None
    lits = list(pf.args) if pf.op == "and" else [pf]
    for f in lits:
        if f.op == "eq" and f.args[0].sort == "I" and qa in f.args[0].fv:
            d = f.args[0]
            for sg in (1, -1):
                m = (q - r * r - r) - d * sg
                if qa not in m.fv:
                    if root is None:
                        root = exact_root(n)
                    if root is None:
                        continue
                    am = m if c.facts.entails(f_ge(m)) else (-m if c.facts.entails(f_ge(-m)) else T.mk_abs(m))
                    M = root - am
                    cands.append((M, lambda k, am=am, m=m: (k + am) * (k + am) + (k + am) + m, lambda x, am=am: SV_isqrt(x) - am))
    cands.append((n, lambda k: k, lambda x: x))
    for M, e, rank in cands:
        k = T.fresh("k")
        mark = c.facts.mark()
        ok = False
        try:
            if c.facts.entails(f_ge(M)):
                c.facts.push(f_ge(k))
                c.facts.push(f_gt(M - k))
                ok = c.prove(f_and(f_ge(e(k)), f_gt(n - e(k)), f_gt(e(k + 1) - e(k)))) and c.prove(s.pred((e(k),)))
                c.facts.pop(mark)
                if ok:
                    c.facts.push(f_ge(q))
                    c.facts.push(f_gt(n - q))
                    c.facts.push(pf)
                    rk = rank(q)
                    ok = c.prove(f_and(f_ge(rk), f_gt(M - rk))) and c.prover.prove_zero(e(rk) - q)
        finally:
            c.facts.pop(mark)
        if ok:
            return M, e, rank
    return None

def SV_isqrt(q):
    from . import solver
    l = ctx().prover.fold_isqrt(q)
    return l if l is not None else solver.isqrt(q)

def exact_root(n):
    """polynomial root of a visible square"""
    import math
    if n.is_int_const():
        r = math.isqrt(max(0, n.const()[0]))
        return P(r) if P(r * r) == n else None
    if len(n.d) == 1:
        (m, c), = n.d.items()
        if all(e % 2 == 0 for _, e in m) and type(c[0]) is int and c[0] > 0 and c[1] == 0 and math.isqrt(c[0]) ** 2 == c[0]:
            r = Poly({tuple((a, e // 2) for a, e in m): (math.isqrt(c[0]), 0)})
            if ctx().facts.entails(f_ge(r)):
                return r
    return None

def sel_to_arr(s):
    """a selection as an ordinary array (see enumerate_sel)"""
    x = enumerate_sel(s)
    if x is None:
        return None
    M, e, _ = x
    return new_arr((M,), s.dt, lambda i: s.fn((e(i[0]),)))

def compress(a, npre, m, k):
    """a[:, mask] with other dims: opaque enumeration of the mask"""
    s = Sel(m.shape, m.fn(), None, "b", mask_sel(m)[1])
    cnt = sel_count(s)
    af = a.fn()
    pre = a.shape[:npre]
    post = a.shape[npre + k:]
    def fn(idx):
        pts = nth_point(s.dom, s.pred, s.key, idx[npre])
        return af(tuple(idx[:npre]) + pts + tuple(idx[npre + 1:]))
    r = new_arr(tuple(pre) + (cnt,) + tuple(post), a.dt, fn)
    r.tag = ("compress", a, npre, m)
    return r

# ------------------------------------------------------------------------- assignment
def cast_store(p, vdt, cdt, scalar):
    """value stored into a cell of kind cdt"""
    if KORD[vdt] <= KORD[cdt]:
        if cdt == "b":
            return p if isinstance(p, Formula) else f_not(f_eq(p, 0))
        return iv(p) if isinstance(p, Formula) else p
    if isinstance(p, Formula):
        p = iv(p)
    if cdt == "b":
        return f_not(f_eq(p, 0))
    if vdt == "c":
        if scalar:
            raise PyExc("TypeError", ("complex to real",))
        p = T.real_part(p)
        if cdt == "f":
            return p
    # truncation of a real to an integer
    if p.sort == "I":
        return p
    return T.app("trunc", (p,), "I")

def setitem(a, idx, val):
    if a.ro:
        raise Unsupported("write through a reshaped copy")
    c = ctx()
    items = expand_index(a, idx)
    items = [_unwrap0(x) for x in items]
    if isinstance(val, (PList,)) or (isinstance(val, tuple)):
        val = array_of(val)
    if all(is_basic(x) for x in items):
        v = view_of(a, items)
        return write_view(v, val)
    masks = [x for x in items if isinstance(x, Arr) and x.dt == "b"]
    sels = [x for x in items if isinstance(x, Sel)]
    if masks and len(masks) == 1 and not sels and not any(isinstance(x, Arr) and x.dt != "b" for x in items):
        m = masks[0]
        pos = items.index(m)
        k = len(m.shape)
        if any(not (isinstance(x, SliceV) and x.t == (None, None, None)) for x in items if x is not m):
            raise Unsupported("mask assignment with other indices")
        for j in range(k):
            if not dim_is(m.shape[j], a.shape[pos + j]):
                raise PyExc("IndexError", ("boolean index did not match",))
        mf, key = mask_sel(m)
        oldf = a.fn()
        if is_scalar(val) or (isinstance(val, Arr) and not val.shape):
            vk = kind(val) if is_scalar(val) else val.dt
            vp = (formula(val) if vk == "b" else poly(val)) if is_scalar(val) else val.fn()(())
            g = lambda i: vp
        elif isinstance(val, Sel):
            if val.key != key:
                raise Unsupported("assignment between different selections")
            vk = val.dt
            g = lambda i: val.fn(i[pos:pos + k])
        elif isinstance(val, Arr) and isinstance(val.tag, tuple) and val.tag[0] == "unmask":
            raise Unsupported("mask assignment")
        elif isinstance(val, Arr):
            r = assign_rows_mask(a, m, pos, val) if k == 1 and len(a.shape) > 1 else assign_flat_mask(a, m, val)
            if r is None:
                raise Unsupported("mask assignment of an array")
            g, vk = r
        else:
            raise Unsupported("mask assignment value")
        cdt = a.dt
        cast_probe(vk, cdt)
        def fn(i):
            cond = mf(tuple(i[pos:pos + k]))
            if cond.op == "false":
                return oldf(i)
            v = cast_store(g(i), vk, cdt, False)
            return site(cond, v, oldf(i))
        return write_all(a, fn)
    if sels and len(sels) >= 1 and all(s.key == sels[0].key for s in sels) and not any(isinstance(x, Arr) for x in items):
        return write_sel(a, items, sels, val)
    arrs = [x for x in items if isinstance(x, Arr)]
    if arrs and all(x.dt == "i" for x in arrs):
        return write_intarr(a, items, val)
    raise Unsupported("fancy assignment")

def cast_probe(vk, cdt):
    return None

def site(cond, v, old):
    """ite for Poly or Formula elements"""
    if isinstance(v, Formula) or isinstance(old, Formula):
        v = v if isinstance(v, Formula) else f_not(f_eq(v, 0))
        old = old if isinstance(old, Formula) else f_not(f_eq(old, 0))
        return f_or(f_and(cond, v), f_and(f_not(cond), old))
    return ite(cond, v, old)

def set_cell(cell, fn):
    ctx().set_cell(cell, fn)

def inv_view(a):
    """for base index b: (condition that b is in the view, view index)"""
    vm = a.vmap
    sh = a.shape
    def g(b):
        cond = []
        vi = [P(0)] * len(sh)
        if vm is None:
            return TRUE, b
        for e, x in zip(vm, b):
            if e[0] == "fix":
                cond.append(f_eq(x, e[1]))
            else:
                st = e[3]
                if st.is_int_const() and st.const()[0] in (1, -1):
                    y = (x - e[2]) if st.const()[0] == 1 else (e[2] - x)
                elif st.is_int_const() or True:
                    y = idiv(x - e[2], st)
                    cond.append(f_eq(imod(x - e[2], st), 0))
                full = e[2].is_zero() and st == P(1)
                cond.append(f_ge(y))
                cond.append(f_gt(sh[e[1]] - y))
                vi[e[1]] = y
        return f_and(*cond), tuple(vi)
    return g

def view_full_dims(a):
    """base dims covered entirely by the view (no condition needed)"""
    vm = a.vmap
    out = []
    for j, e in enumerate(vm or []):
        out.append(e[0] == "dim" and e[2].is_zero() and e[3] == P(1) and a.shape[e[1]] == a.cell.shape[j])
    return out

def write_view(v, val):
    c = ctx()
    cdt = v.dt
    cell = v.cell
    old = cell.fn
    if isinstance(val, Sel):
        if not v.shape:
            raise PyExc("ValueError", ("setting an array element with a sequence.",))
        y = sel_to_arr(val)
        if y is None:
            raise Unsupported("selection stored into a slice")
        val = y
    scalar = is_scalar(val)
    va = as_arr(val)
    # an array of one or more dimensions cannot be stored in one entry (not even with one element)
    if not v.shape and va.shape:
        raise PyExc("ValueError", ("setting an array element with a sequence.",))
    if len(va.shape) > len(v.shape):
        # leading ones are allowed by numpy
        extra = len(va.shape) - len(v.shape)
        if all(s.is_int_const() and s.const()[0] == 1 for s in va.shape[:extra]):
            va = getitem(va, tuple([0] * extra))
            va = as_arr(va)
        else:
            raise PyExc("ValueError", ("could not broadcast",))
    stretch = []
    off = len(v.shape) - len(va.shape)
    for j, d in enumerate(va.shape):
        t = v.shape[off + j]
        if d == t:
            stretch.append(False)
        elif d.is_int_const() and d.const()[0] == 1:
            stretch.append(True)
        elif dim_is(d, t):
            stretch.append(False)
        elif not d.is_const() and dim_is(d, 1):
            stretch.append(True)
        else:
            raise PyExc("ValueError", ("could not broadcast input array",))
    vf = va.fn()
    vdt = va.dt
    if vdt == "c" and cdt in "fi" and scalar:
        raise PyExc("TypeError", ("complex to real",))
    iview = inv_view(v)
    full = view_full_dims(v)
    vm = v.vmap
    def fn(b):
        if vm is None:
            cond, vi = TRUE, b
        else:
            conds = []
            vi = [P(0)] * len(v.shape)
            for j, (e, x) in enumerate(zip(vm, b)):
                if e[0] == "fix":
                    conds.append(f_eq(x, e[1]))
                    continue
                st = e[3]
                if st.is_int_const() and st.const()[0] in (1, -1):
                    y = (x - e[2]) if st.const()[0] == 1 else (e[2] - x)
                else:
                    y = idiv(x - e[2], st)
                    conds.append(f_eq(imod(x - e[2], st), 0))
                if not full[j]:
                    conds.append(f_ge(y))
                    conds.append(f_gt(v.shape[e[1]] - y))
                vi[e[1]] = y
            cond = f_and(*conds)
            vi = tuple(vi)
        if cond.op == "false":
            return old(b)
        src = tuple(P(0) if stretch[j] else vi[off + j] for j in range(len(stretch)))
        nv = cast_store(vf(src), vdt, cdt, scalar)
        if cond.op == "true":
            return nv
        return site(cond, nv, old(b))
    set_cell(cell, fn)

def write_all(a, fn):
    """replace the whole content of array a (in view coordinates)"""
    if a.vmap is None:
        set_cell(a.cell, fn)
        return
    tmp = new_arr(a.shape, a.dt, fn)
    write_view(a, tmp)

def write_sel(a, items, sels, val):
    """a[sel(s)] = val with val a Sel over the same points or a scalar or whole rows"""
    s0 = sels[0]
    cdt = a.dt
    oldf = a.fn()
    pos = [i for i, x in enumerate(items) if isinstance(x, Sel)]
    free = [i for i, x in enumerate(items) if not isinstance(x, Sel)]
    if any(not (isinstance(items[i], SliceV) and items[i].t == (None, None, None)) for i in free):
        raise Unsupported("selection assignment with other indices")
    if isinstance(val, Sel):
        if val.key != s0.key:
            raise Unsupported("assignment between different selections")
        g = lambda pt, b: val.fn(pt)
        vk = val.dt
    elif isinstance(val, RowSelVal):
        if val.key != s0.key:
            raise Unsupported("assignment between different selections")
        g = lambda pt, b: val.fn(pt, tuple(b[i] for i in free))
        vk = val.dt
    elif is_scalar(val):
        vp = poly(val)
        g = lambda pt, b: vp
        vk = kind(val)
    else:
        raise Unsupported("selection assignment value")
    ident = identity_sel(items, sels, pos)
    if ident:
        def fn(b):
            pt = tuple(b[i] for i in pos)
            cond = s0.pred(pt)
            if cond.op == "false":
                return oldf(b)
            return site(cond, cast_store(g(pt, b), vk, cdt, False), oldf(b))
        return write_all(a, fn)
    # shifted one-dimensional selection: b = pt + const
    if len(s0.dom) == 1 and len(pos) == 1:
        w = T.fresh("w")
        e = items[pos[0]].fn((w,))
        d = e - w
        if T.the_sym(w) not in d.fv:
            def fn(b):
                pt = (b[pos[0]] - d,)
                cond = f_and(f_ge(pt[0]), f_gt(s0.dom[0] - pt[0]), s0.pred(pt))
                if cond.op == "false":
                    return oldf(b)
                return site(cond, cast_store(g(pt, b), vk, cdt, False), oldf(b))
            return write_all(a, fn)
    raise Unsupported("selection assignment")

def identity_sel(items, sels, pos):
    s0 = sels[0]
    if len(pos) != len(s0.dom):
        return False
    syms = tuple(T.fresh("w") for _ in s0.dom)
    return all(items[p].fn(syms) == syms[j] for j, p in enumerate(pos))

class RowSelVal:
    def __init__(self, key, fn, dt):
        self.key, self.fn, self.dt = key, fn, dt

def rowsel_values(r):
    """elements of a[sel] (rows)"""
    af = r.a.fn()
    s = r.sel
    return RowSelVal(s.key, lambda pt, rest: af((s.fn(pt),) + rest), r.a.dt)

def write_intarr(a, items, val):
    """assignment through integer index arrays; needs an injective affine index"""
    arrs = [(i, x) for i, x in enumerate(items) if isinstance(x, Arr)]
    if len(arrs) > 1 and all(len(x.shape) == 1 for _, x in arrs) and all(isinstance(x, Arr) or is_scalar(x) for x in items) and len(items) == len(a.shape):
        return write_points(a, items, val)
    if len(arrs) != 1 or len(arrs[0][1].shape) != 1:
        raise Unsupported("assignment through several index arrays")
    i0, ia = arrs[0]
    others = [i for i in range(len(items)) if i != i0]
    if any(not (isinstance(items[i], SliceV) and items[i].t == (None, None, None)) for i in others):
        raise Unsupported("assignment through index array and others")
    n = ia.shape[0]
    f = tofn(ia)
    check_index_array(f, ia.shape, lambda i: i, a.shape[i0])
    oldf = a.fn()
    cdt = a.dt
    if is_scalar(val):
        vp = poly(val)
        vk = kind(val)
        g = lambda k, b: vp
    else:
        va = as_arr(val)
        vk = va.dt
        vf = va.fn()
        sh = list(a.shape)
        sh[i0] = n
        off = len(sh) - len(va.shape)
        st = []
        for j, d in enumerate(va.shape):
            r, s1, s2 = bc_dim(d, sh[off + j])
            if s2:
                raise PyExc("ValueError", ())
            st.append(s1)
        def g(k, b):
            full = [k if i == i0 else b[i] for i in range(len(items))]
            return vf(tuple(P(0) if st[j] else full[off + j] for j in range(len(st))))
    c = ctx()
    # injectivity
    u, v = T.fresh("u"), T.fresh("v")
    mark = c.facts.mark()
    try:
        for s in (u, v):
            c.facts.push(f_ge(s))
            c.facts.push(f_gt(n - s))
        inj = c.facts.unsat([f_eq(f((u,)), f((v,))), f_not(f_eq(u, v))])
    finally:
        c.facts.pop(mark)
    if not inj and not is_scalar(val):
        raise Unsupported("assignment through a non-injective index array")
    if not inj:
        raise Unsupported("assignment through a non-injective index array")
    def fn(b):
        k = T.fresh("k")
        old = oldf(b)
        d = iv(f_eq(normp(f((k,)), a.shape[i0]), b[i0])) * (cast_store(g(k, b), vk, cdt, False) - old)
        return old + T.Sum0(k, n, d)
    return write_all(a, fn)

def write_points(a, items, val):
    """a[i, j] = val with one-dimensional index arrays i, j that name different elements"""
    n = [x.shape[0] for x in items if isinstance(x, Arr)][0]
    if any(isinstance(x, Arr) and not (x.shape[0] - n).is_zero() for x in items):
        raise Unsupported("assignment through index arrays of different lengths")
    fs = []
    for d, x in zip(a.shape, items):
        if isinstance(x, Arr):
            f = tofn(x)
            check_index_array(f, x.shape, lambda i: i, d)
            fs.append(lambda k, f=f, d=d: normp(f((k,)), d))
        else:
            p = norm_index(x, d)
            fs.append(lambda k, p=p: p)
    if is_scalar(val):
        vp, vk = poly(val), kind(val)
        g = lambda k: vp
    else:
        va = as_arr(val)
        vk, vf = va.dt, tofn(va)
        if len(va.shape) == 0:
            g = lambda k: vf(())
        elif len(va.shape) == 1 and (va.shape[0] - n).is_zero():
            g = lambda k: vf((k,))
        else:
            raise Unsupported("assignment through index arrays")
    c = ctx()
    u, v = T.fresh("u"), T.fresh("v")
    mark = c.facts.mark()
    try:
        for s in (u, v):
            c.facts.push(f_ge(s))
            c.facts.push(f_gt(n - s))
        inj = c.facts.unsat([f_eq(f(u), f(v)) for f in fs] + [f_not(f_eq(u, v))])
    finally:
        c.facts.pop(mark)
    if not inj:
        raise Unsupported("assignment through a non-injective index array")
    oldf, cdt = a.fn(), a.dt
    def fn(b):
        k = T.fresh("k")
        old = oldf(b)
        return old + T.Sum0(k, n, iv(f_and(*[f_eq(f(k), x) for f, x in zip(fs, b)])) * (cast_store(g(k), vk, cdt, False) - old))
    return write_all(a, fn)

def assign_rows_mask(a, m, pos, val):
    """a[.., mask, ..] = val with one array-shaped value: position `pos` of val counts the masked points"""
    if len(val.shape) != len(a.shape):
        return None
    x = enumerate_sel(Sel(m.shape, m.fn(), None, "b", None))
    if x is None:
        # the rank of a masked point among the masked points (only looked at where the mask holds)
        v = T.fresh("pt")
        lam = T.mk_lam([v], iv(m.fn()((v,))))
        M = sel_count(Sel(m.shape, m.fn(), None, "b", None))
        rank = lambda p: T.app("rank0", (p, m.shape[0]), "I", (lam,))
    else:
        M, _, rank = x
    for j, d in enumerate(val.shape):
        if not dim_is(d, M if j == pos else a.shape[j]):
            return None
    vf = val.fn()
    return (lambda b: vf(tuple(rank(b[j]) if j == pos else b[j] for j in range(len(b))))), val.dt

def assign_flat_mask(a, m, val):
    """a[mask] = flat, the values being stored at the masked points in row-major order: needs the rank of a masked
    point; masks of one dimension, or of two when every row holds the same 1-d mask"""
    mf = m.fn()
    vf = val.fn()
    if len(val.shape) != 1:
        return None
    if len(m.shape) == 1:
        x = enumerate_sel(Sel(m.shape, mf, None, "b", None))
        if x is None:
            return None
        M, _, rank = x
        total = M
        flat = lambda b: rank(b[0])
    elif len(m.shape) == 2:
        r, t = T.fresh("r"), T.fresh("s")
        if T.the_sym(r) in mf((r, t)).fv:
            return None
        x = enumerate_sel(Sel((m.shape[1],), lambda i: mf((P(0),) + tuple(i)), None, "b", None))
        if x is None:
            return None
        M, _, rank = x
        total = M * m.shape[0]
        tag = getattr(val, "tag", None)
        if isinstance(tag, tuple) and tag[0] == "flat2" and (tag[3] is val.cell.fn if len(tag) > 3 else tag[2] is tag[1].cell.fn):
            sf = tag[1].fn()
            if dim_is(tag[1].shape[0], m.shape[0]) and dim_is(tag[1].shape[1], M):
                return (lambda b: sf((b[0], rank(b[1])))), val.dt
        flat = lambda b: b[0] * M + rank(b[1])
    else:
        return None
    if not dim_is(val.shape[0], total):
        raise PyExc("ValueError", ("NumPy boolean array indexing assignment",))
    return (lambda b: vf((flat(b),))), val.dt

# ------------------------------------------------------------------------- inplace ops
def inplace_mask(op, a, m, val):
    """a[m] op= scalar"""
    k = len(m.shape)
    if k > len(a.shape):
        raise PyExc("IndexError", ("too many indices",))
    for x, y in zip(m.shape, a.shape):
        if not dim_is(x, y):
            raise PyExc("IndexError", ("boolean index did not match",))
    r = arr_binop(op, a, val)
    if KORD[r.dt] > KORD[a.dt]:
        raise PyExc("TypeError", ("UFuncTypeError: cannot cast",))
    mf = m.fn()
    write_view(a, where3(new_arr(a.shape, "b", lambda i: mf(tuple(i[:k]))), r, a))

def inplace(op, a, val):
    """a op= val for arrays"""
    if isinstance(a, RowSel):
        raise Unsupported("in-place on selection")
    if a.dt == "b" and op == "-":
        raise PyExc("TypeError", ())
    r = arr_binop(op, a, val)
    if is_scalar(r):
        r = as_arr(r)
    if KORD[r.dt] > KORD[a.dt]:
        raise PyExc("TypeError", ("UFuncTypeError: cannot cast",))
    # result must have the shape of a
    if len(r.shape) != len(a.shape):
        raise PyExc("ValueError", ("non-broadcastable output",))
    for x, y in zip(r.shape, a.shape):
        if not dim_is(x, y):
            raise PyExc("ValueError", ("non-broadcastable output",))
    write_view(a, r)
    return a

# -------------------------------------------------------------------------- reductions
def norm_axis(axis, nd):
    if axis is None:
        return list(range(nd))
    if isinstance(axis, (PList,)):
        axis = tuple(axis.items)
    if not isinstance(axis, tuple):
        axis = (axis,)
    out = []
    for x in axis:
        p = as_int(x)
        if not p.is_int_const():
            raise Unsupported("symbolic axis")
        x = p.const()[0]
        if not -nd <= x < nd:
            raise PyExc("AxisError", ())
        out.append(x % nd)
    return out

def reduce_sum(a, axis=None, keepdims=False):
    if isinstance(a, Sel):
        syms = [T.fresh("s") for _ in a.dom]
        x = a.fn(tuple(syms))
        body = iv(a.pred(tuple(syms))) * (iv(x) if isinstance(x, Formula) else x)
        for v, n in reversed(list(zip(syms, a.dom))):
            body = T.Sum0(v, n, body)
        return num(body, "i" if a.dt == "b" else a.dt, True)
    a = as_arr(a)
    nd = len(a.shape)
    ax = norm_axis(axis, nd)
    f = tofn(a)
    keep = [j for j in range(nd) if j not in ax]
    dims = [a.shape[j] for j in ax]
    def fn(idx):
        syms = [T.fresh("s") for _ in ax]
        full = [None] * nd
        for v, j in zip(syms, ax):
            full[j] = v
        for i, j in zip(idx, keep):
            full[j] = i
        c = ctx()
        mark = c.facts.mark()
        for v, n in zip(syms, dims):
            c.facts.push(f_ge(v))
            c.facts.push(f_gt(n - v))
        try:
            body = f(tuple(full))
        finally:
            c.facts.pop(mark)
        for v, n in reversed(list(zip(syms, dims))):
            body = T.Sum0(v, n, body)
        return body
    k = "i" if a.dt == "b" else a.dt
    if keepdims:
        sh = [ONE_ if j in ax else a.shape[j] for j in range(nd)]
        return new_arr(sh, k, lambda idx: fn(tuple(idx[j] for j in keep)))
    if not keep:
        return num(fn(()), k, True)
    return new_arr([a.shape[j] for j in keep], k, fn)

def quant_formula(name, dims, body_fn):
    """exists / forall over dims of a formula, canonical opaque atom"""
    dims = [P(d) for d in dims]
    if all(d.is_int_const() and d.const()[0] <= 8 for d in dims):
        import itertools
        fs = [body_fn(tuple(P(i) for i in t)) for t in itertools.product(*[range(max(0, d.const()[0])) for d in dims])]
        return f_or(*fs) if name == "exists" else f_and(*fs)
    c = ctx()
    syms = [T.fresh("qv") for _ in dims]
    mark = c.facts.mark()
    try:
        for v, n in zip(syms, dims):
            c.facts.push(f_ge(v))
            c.facts.push(f_gt(n - v))
        b = body_fn(tuple(syms))
    finally:
        c.facts.pop(mark)
    if name == "forall":
        return f_not(_exists(dims, syms, f_not(b)))
    return _exists(dims, syms, b)

def _exists(dims, syms, b):
    if b.op == "false":
        return FALSE
    if not b.fv & {T.the_sym(s) for s in syms}:
        return f_and(b, *[f_gt(d) for d in dims])
    return f_batom(T.app("exists", tuple(dims), "B", (T.mk_lam(syms, b),)))

def reduce_any(a, axis=None, which="exists"):
    if isinstance(a, Sel):
        f = (lambda i: f_and(a.pred(i), a.fn(i))) if a.dt == "b" else (lambda i: f_and(a.pred(i), f_not(f_eq(a.fn(i), 0))))
        if which == "forall":
            f = lambda i, g=a.fn: T.f_or(f_not(a.pred(i)), g(i) if a.dt == "b" else f_not(f_eq(g(i), 0)))
        return mkbool(quant_formula(which, a.dom, f))
    a = as_arr(a)
    nd = len(a.shape)
    ax = norm_axis(axis, nd)
    f = a.fn()
    keep = [j for j in range(nd) if j not in ax]
    def fn(idx):
        def body(q):
            full = [None] * nd
            for v, j in zip(q, ax):
                full[j] = v
            for i, j in zip(idx, keep):
                full[j] = i
            x = f(tuple(full))
            return x if isinstance(x, Formula) else f_not(f_eq(x, 0))
        return quant_formula(which, [a.shape[j] for j in ax], body)
    if not keep:
        return mkbool(fn(()))
    return new_arr([a.shape[j] for j in keep], "b", fn)

# ------------------------------------------------------------------------- reshaping
def transpose(a, axes=None):
    nd = len(a.shape)
    axes = list(reversed(range(nd))) if axes is None else [x % nd for x in axes]
    vm = a.vmap or [("dim", j, P(0), P(1)) for j in range(nd)]
    invp = {ax: i for i, ax in enumerate(axes)}
    out = [e if e[0] == "fix" else ("dim", invp[e[1]], e[2], e[3]) for e in vm]
    r = Arr(a.cell, [a.shape[x] for x in axes], out, a.ro)
    return r

def prod(ds):
    r = P(1)
    for d in ds:
        r = r * d
    return r

def is1(d):
    return d.is_int_const() and d.const()[0] == 1

def reshaped(a, shape, get, put):
    """the elements of a in another shape: of a contiguous array a view; of another view NumPy may have to copy"""
    if a.vmap is None:
        return Arr(DCell(a, shape, a.dt, get, put))
    r = new_arr(shape, a.dt, get(a.fn()))
    r.ro = True
    return r

def part(a, name):
    """the real or the imaginary part of a complex array: a view"""
    take = T.real_part if name == "real" else T.imag_part
    def get(f):
        return lambda i: take(f(i))
    def put(f, g):
        if name == "real":
            return lambda i: g(i) + T.IMAG * T.imag_part(f(i))
        return lambda i: T.real_part(f(i)) + T.IMAG * g(i)
    return Arr(DCell(a, a.shape, "f", get, put))

def reshape(a, shape):
    a = as_arr(a)
    shape = [s if isinstance(s, int) else as_int(s) for s in shape]
    tgt = []
    neg = None
    for i, s in enumerate(shape):
        p = P(s)
        if p.is_int_const() and p.const()[0] == -1:
            neg = i
        tgt.append(p)
    src = list(a.shape)
    core = [d for d in src if not is1(d)]
    tcore = [(i, d) for i, d in enumerate(tgt) if i != neg and not is1(d)]
    f = a.fn()
    # -1 resolved against the remaining core dims
    if neg is not None:
        rest = list(core)
        ok = True
        left = [d for i, d in enumerate(tgt) if i != neg and not is1(d)]
        if not left:
            tgt[neg] = prod(core)
        else:
            # remove matching dims
            pr = prod(core)
            r = list(core)
            for d in left:
                for x in r:
                    if x == d:
                        r.remove(x)
                        break
                else:
                    ok = False
            if ok:
                tgt[neg] = prod(r)
            else:
                q = None
                dl = prod(left)
                if pr.is_int_const() and dl.is_int_const() and dl.const()[0]:
                    if pr.const()[0] % dl.const()[0]:
                        raise PyExc("ValueError", ())
                    q = P(pr.const()[0] // dl.const()[0])
                else:
                    z = pr * T.inv(dl)
                    if z.sort == "I":
                        q = z
                if q is None:
                    raise Unsupported("reshape")
                tgt[neg] = q
    tc = [d for d in tgt if not is1(d)]
    if len(tc) == len(core):
        for x, y in zip(core, tc):
            if x != y and not dim_is(x, y):
                if ctx().decide(f_eq(prod(core), prod(tc))):
                    raise Unsupported("reshape")
                raise PyExc("ValueError", ("cannot reshape",))
        tpos = [i for i, d in enumerate(tgt) if not is1(d)]
        spos = [i for i, d in enumerate(src) if not is1(d)]
        # a view: same elements with unit dims added / removed
        vm = a.vmap or [("dim", j, P(0), P(1)) for j in range(len(src))]
        new = {s: t for s, t in zip(spos, tpos)}
        out = []
        for e in vm:
            if e[0] == "fix":
                out.append(e)
            elif e[1] in new:
                out.append(("dim", new[e[1]], e[2], e[3]))
            else:
                out.append(("fix", e[2]))
        return Arr(a.cell, tgt, out, a.ro)
    if len(tc) == 1 and len(core) >= 2:
        n = prod(core)
        if tc[0] != n and not dim_is(tc[0], n):
            raise PyExc("ValueError", ("cannot reshape",))
        tpos = [i for i, d in enumerate(tgt) if not is1(d)][0]
        spos = [i for i, d in enumerate(src) if not is1(d)]
        def get(f):
            def fn(idx):
                k = idx[tpos]
                full = [P(0)] * len(src)
                for j in reversed(range(len(core))):
                    if j == 0:
                        full[spos[j]] = k
                    else:
                        full[spos[j]] = imod(k, core[j])
                        k = idiv(k, core[j])
                return f(tuple(full))
            return fn
        def put(f, g):
            def h(b):
                k = P(0)
                for j in range(len(core)):
                    k = k * core[j] + b[spos[j]]
                i = [P(0)] * len(tgt)
                i[tpos] = k
                return g(tuple(i))
            return h
        r = reshaped(a, tgt, get, put)
        if len(core) == 2 and len(src) == 2:
            r.tag = ("flat2", a, a.cell.fn)
        return r
    if len(core) == 1 and len(tc) >= 2:
        n = prod(tc)
        if core[0] != n and not dim_is(core[0], n):
            raise PyExc("ValueError", ("cannot reshape",))
        spos = [i for i, d in enumerate(src) if not is1(d)][0]
        tps = [i for i, d in enumerate(tgt) if not is1(d)]
        def get(f):
            def fn(idx):
                k = P(0)
                for i in tps:
                    k = k * tgt[i] + idx[i]
                full = [P(0)] * len(src)
                full[spos] = k
                return f(tuple(full))
            return fn
        def put(f, g):
            def h(b):
                k = b[spos]
                i = [P(0)] * len(tgt)
                for j in reversed(tps):
                    if j == tps[0]:
                        i[j] = k
                    else:
                        i[j] = imod(k, tgt[j])
                        k = idiv(k, tgt[j])
                return g(tuple(i))
            return h
        return reshaped(a, tgt, get, put)
    if not core and not tc:
        return new_arr(tgt, a.dt, lambda idx: f(tuple(P(0) for _ in src)))
    if prod(core) != prod(tc) and not ctx().decide(f_eq(prod(core), prod(tc))):
        raise PyExc("ValueError", ("cannot reshape",))
    raise Unsupported("reshape")

def concatenate(arrs, axis=0):
    arrs = [as_arr(x) for x in arrs]
    nd = len(arrs[0].shape)
    if any(len(a.shape) != nd for a in arrs):
        raise PyExc("ValueError", ("dimensions mismatch",))
    axis %= nd
    k = arrs[0].dt
    for a in arrs[1:]:
        k = kmax(k, a.dt)
    for a in arrs[1:]:
        for j in range(nd):
            if j != axis and a.shape[j] != arrs[0].shape[j] and not dim_is(a.shape[j], arrs[0].shape[j]):
                raise PyExc("ValueError", ("dimensions mismatch",))
    fs = [a.fn() if k == "b" else tofn(a) for a in arrs]
    offs = [P(0)]
    for a in arrs:
        offs.append(offs[-1] + a.shape[axis])
    def fn(idx):
        i = idx[axis]
        r = None
        for j in reversed(range(len(arrs))):
            loc = tuple(idx[:axis]) + (i - offs[j],) + tuple(idx[axis + 1:])
            if arrs[j].shape[axis].is_zero():
                continue
            if r is None:
                r = fs[j](loc)
            else:
                cond = f_gt(offs[j + 1] - i)
                if cond.op == "false":
                    continue
                r = site(cond, fs[j](loc), r)
        return r if r is not None else P(0)
    sh = list(arrs[0].shape)
    sh[axis] = offs[-1]
    r = new_arr(sh, k, fn)
    t = arrs[0].tag
    if isinstance(t, tuple) and t[0] == "grown" and t[3] is arrs[0].cell.fn and arrs[0].vmap is None and axis == 0 and len(arrs) == 2:
        r.tag = ("grown", t[1], t[2] + (new_arr(arrs[1].shape, arrs[1].dt, fs[1] if k != "b" and arrs[1].dt != "b" else arrs[1].fn()),), r.cell.fn)
    return r

def ragged(n, piece, dt=None):
    """concatenation of piece(0), ..., piece(n-1) along the first axis: row q is row off(q) of piece seg(q)"""
    n = P(n)
    k = T.fresh("k")
    c = ctx()
    mark = c.facts.mark()
    try:
        c.facts.push(f_ge(k))
        c.facts.push(f_gt(n - k))
        g = piece(k)
        if not c.facts.entails(f_ge(g.shape[0])):
            raise Unsupported("pieces of unknown length")
        count = c.prover.simp(g.shape[0])
        if any(k in d.fv or T.the_sym(k) in d.fv for d in g.shape[1:]):
            raise Unsupported("pieces of different width")
    finally:
        c.facts.pop(mark)
    lam = T.mk_lam([k], count)
    dt = dt or g.dt
    if dt == "b":
        raise Unsupported("boolean pieces")
    raw = T.Sum0(k, n, T.app_lam(lam, (k,)))
    total = c.prover.simp(raw)
    c.facts.push(f_eq(raw, total))
    if (count - 2 * k - 1).is_zero():
        def at_lm(idx):
            l = SV_isqrt(idx[0])
            return tofn(piece(l))((idx[0] - l * l,) + tuple(idx[1:]))
        return new_arr((n * n,) + tuple(g.shape[1:]), dt, at_lm)
    def fn(idx):
        q = idx[0]
        s, o = T.app("seg", (q, n), "I", (lam,)), T.app("off", (q, n), "I", (lam,))
        return tofn(piece(s))((o,) + tuple(idx[1:]))
    return new_arr((total,) + tuple(g.shape[1:]), dt, fn)

def matmul(a, b):
    k = kmax(a.dt, b.dt)
    fa, fb = tofn(a), tofn(b)
    na, nb = len(a.shape), len(b.shape)
    if na not in (1, 2) or nb not in (1, 2):
        raise Unsupported("matmul of stacks")
    n = a.shape[-1]
    m = b.shape[0]
    if n != m and not dim_is(n, m):
        raise PyExc("ValueError", ("matmul: mismatch",))
    shape = tuple(a.shape[:-1]) + tuple(b.shape[1:])
    def fn(idx):
        s = T.fresh("s")
        ia = tuple(idx[:na - 1]) + (s,)
        ib = (s,) + tuple(idx[na - 1:])
        return T.Sum0(s, n, fa(ia) * fb(ib))
    if not shape:
        return num(fn(()), k, True)
    return new_arr(shape, k, fn)

def outer(a, b):
    a, b = as_arr(a), as_arr(b)
    fa, fb = tofn(a), tofn(b)
    return new_arr((prod(a.shape), prod(b.shape)), kmax(a.dt, b.dt), lambda i: fa((i[0],)) * fb((i[1],)))

def copy(a, dt=None):
    f = a.fn()
    if dt is not None and dt != a.dt:
        src = a.dt
        if src == "b":
            g = lambda idx: iv(f(idx))
        else:
            g = lambda idx: cast_store(f(idx), src, dt, False)
        return new_arr(a.shape, dt, g)
    return new_arr(a.shape, a.dt, f)

def where3(c, x, y):
    k = kmax(as_kind(x), as_kind(y))
    if isinstance(c, Sel) or isinstance(x, Sel) or isinstance(y, Sel):
        raise Unsupported("where on selections")
    ca = as_arr(c)
    arrs = [ca, as_arr(x), as_arr(y)]
    shape, maps = bcast([a.shape for a in arrs])
    cf, cb = ca.fn(), ca.dt
    if k == "b":
        xf, yf = arrs[1].fn(), arrs[2].fn()
    else:
        xf, yf = tofn(arrs[1]), tofn(arrs[2])
    def g(idx):
        t = cf(maps[0](idx))
        t = t if isinstance(t, Formula) else f_not(f_eq(t, 0))
        return site(t, xf(maps[1](idx)), yf(maps[2](idx)))
    if not shape:
        return elem(g(()), k)
    return new_arr(shape, k, g)
