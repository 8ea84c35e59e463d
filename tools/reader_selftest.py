"""What the reader makes of NumPy/stdlib/Python against what they do: /opt/venv/bin/python tools/reader_selftest.py [FILTER...]

Each expression or function body below is read for arrays a, b (n) and c (n, n) of symbolic size n >= 2. For several sizes and
contents, the one path whose conditions hold is evaluated numerically and compared with what CPython and NumPy return (or raise).
Constructs the reader does not support are counted, not failures; a different value is."""
import cmath, os, random, shutil, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, "tools"))
sys.setrecursionlimit(20000)
EX = [
    "len(a) & 1", "(len(a) * 5) & 7", "3 & len(a)", "len(a) << 2", "(-len(a)) >> 1", "np.arange(len(a)) & 1", "-np.arange(len(a)) & 3", "np.arange(len(a)) >> 1", "np.arange(len(a)) << 1", "(1 - 2 * (len(a) & 1)) * a[0]",
    "np.nan_to_num(a)", "np.nan_to_num(c, copy=True, posinf=1.0)",
"np.einsum('i,i->', a, b)","np.einsum('ij,i->j', c, a)","np.einsum('ij,ij->i', c, c.conj())","c @ c.T","a @ b","np.vdot(a, b)","np.inner(a, b)","np.outer(a, b)","np.dot(c, a)","np.matmul(c.T, a)","np.tensordot(a, c, axes=(0, 0))","np.kron(a, b)",
"np.flip(a)","np.flipud(c)","np.fliplr(c)","np.roll(a, 1)","np.rot90(c)","np.argsort(-a)","np.sort(a)[::-1]","np.lexsort((b, a))","np.flatnonzero(a > 0)","np.count_nonzero(a > 0)","np.nonzero(a > 0)[0]","np.argwhere(a > 0)[:, 0]",
"np.triu(c)","np.tril(c)","np.tril(c, -1) + np.tril(c, -1).T.conj()","np.diag(c)","np.diag(a)","np.eye(len(a)) * a","np.identity(3)","np.full((3, 2), 4.0)","np.full_like(c, 1)","np.zeros_like(a)","np.ones_like(a)","np.empty_like(a)[:0]",
"np.add.reduce(a)","np.multiply.reduce(a)","np.add(a, b)","np.subtract(a, b)","np.multiply.outer(a, b)","np.divide(a, 2)","np.true_divide(a, 2)","np.negative(a)","np.square(a)","np.sign(a)","np.copysign(1.0, a)","np.abs(a)","np.absolute(a)","np.fabs(a)","np.hypot(a, b)","np.maximum(a, b)","np.clip(a, 0, 1)","a.clip(0)","a.clip(min=0)","np.heaviside(a, 1)",
"np.logical_and(a > 0, b > 0)","np.logical_or(a > 0, b > 0)","np.logical_not(a > 0)","np.logical_and.reduce([a > 0, b > 0])","(a > 0) & ~(b > 0)","np.invert(a > 0)","np.any(a > 0)","np.all(a > 0)","np.select([a > 0, b > 0], [a, b], 0)","np.choose((a > 0).astype(int), [a, b])","np.where(a > 0, a, 0)","np.greater(a, b)","np.greater_equal(a, b)","np.less(a, b)","np.equal(a, b)","np.not_equal(a, b)","np.isclose(a, b)","np.allclose(a, a)","np.array_equal(a, a)","np.isnan(a)","np.isfinite(a)","np.isreal(a)","np.iscomplexobj(a)","np.isscalar(a[0])",
"np.mean(a)","np.average(a)","np.median(a)","np.linalg.norm(a)","np.linalg.norm(c, axis=1)","np.var(a)","np.cumsum(a)","np.diff(a)","np.ediff1d(a)","np.gradient(a)","np.trapezoid(a)","np.ptp(a)","np.max(a)","np.amax(a)","a.max(initial=0)","np.argmax(a)","np.nanmax(a)","np.prod(a)","np.sum(c, axis=(0, 1))","c.sum(axis=1, keepdims=True)","c.sum(axis=-1)","np.sum(a, where=a > 0)","sum(a)","max(a)","min(a)","sorted(a)","list(reversed(list(a)))",
"np.concatenate([a, b])","np.append(a, b)","np.hstack([a, b])","np.vstack([a, b])","np.column_stack([a, b])","np.stack([a, b], axis=-1)","np.r_[a, b]","np.c_[a, b]","np.block([a, b])","np.pad(a, (0, 2))","np.pad(a, 1)","np.insert(a, 0, 1.0)","np.delete(a, 0)","np.resize(a, 4)","np.tile(a, 2)","np.tile(a, (2, 1))","np.repeat(a, 2)","np.repeat(a[np.newaxis], 2, axis=0)","np.broadcast_to(a, (3, len(a)))","np.expand_dims(a, 0)","np.expand_dims(a, axis=(1, 2))","np.squeeze(a[np.newaxis])","np.atleast_1d(a)","np.atleast_2d(a)","np.ravel(c)","c.ravel()","c.flatten()","c.reshape(-1)","np.reshape(c, -1)","np.swapaxes(c, 0, 1)","np.moveaxis(c, 0, 1)","np.transpose(c)","c.T.copy()","np.ascontiguousarray(c)","np.asarray(a)","np.array(a, copy=True)","np.array([x for x in a])","np.asarray([x * 2 for x in a])","np.fromiter((x for x in a), dtype=float)","np.fromiter((x for x in a), float, count=len(a))","np.fromfunction(lambda i: i, (3,))","np.vectorize(lambda x: x + 1)(a)","np.apply_along_axis(np.sum, 1, c)","np.array(list(map(lambda x: 2 * x, a)))",
"np.arange(len(a))","np.linspace(0, 1, 5)","np.indices((3, 2))[0]","np.meshgrid(a, b, indexing='ij')[0]","np.ogrid[0:3]","np.mgrid[0:3]","np.ix_([0], [0])","np.ndindex(2, 2)","[i for i in np.ndindex(2, 2)]","np.unravel_index(3, (2, 2))","np.tril_indices(3)","np.triu_indices(len(c), 1)","np.triu_indices_from(c, 1)","np.tril_indices_from(c)","np.diag_indices(3)","np.in1d([1], [1])","np.isin([1], [1])","np.unique(np.array([1, 2]))","np.searchsorted(np.array([1., 2.]), 1.5)","np.interp(0.5, [0, 1], [0, 1])","np.digitize(0.5, np.array([0., 1.]))","np.take(a, 0)","np.take(c, [0], axis=0)","np.take_along_axis(a, np.argsort(a), 0)","np.compress(a > 0, a)","np.extract(a > 0, a)","a[a > 0].sum()","a[np.newaxis, :]","a[None]","a[..., None]","a.item(0)","float(a[0])","complex(a[0])","a.tolist()","a.astype(complex)","a.astype(np.float64, copy=False)","a.astype(int)","np.float64(a[0])","np.complex128(a[0])",
"np.exp(1j * a)","np.exp2(a)","np.expm1(a)","np.log1p(np.abs(a))","np.log2(np.abs(a) + 1)","np.power(a, 2)","np.float_power(a, 2)","np.sqrt(np.abs(a))","np.cbrt(a)","np.reciprocal(a + 10)","np.real(a)","np.imag(a)","np.conj(a)","np.conjugate(a)","np.angle(a + 1j)","np.deg2rad(a)","np.radians(a)","np.degrees(a)","np.rad2deg(a)","np.sinc(a)","np.sin(a)","np.tan(a)","np.arctan2(a, b)","np.floor(a)","np.ceil(a)","np.trunc(a)","np.rint(a)","np.round(a)","np.around(a, 2)","np.mod(a, 2)","np.remainder(a, 2)","np.fmod(a, 2)","np.floor_divide(a, 2)","np.divmod(a, 2)","divmod(7, 2)","np.gcd(4, 6)","math.prod([1, 2])","math.sqrt(4)","math.comb(4, 2)","math.factorial(4)","math.isclose(1, 1)","math.fsum(a)","math.pi","math.hypot(3, 4)","math.cos(a[0])","math.floor(a[0])","cmath.exp(1j * a[0])","abs(a[0])","round(a[0])","pow(2, 3)","int(np.floor(a[0]))",
"list(zip(a, b))[0]","[x + y for x, y in zip(a, b)]","list(enumerate(a))[0]","list(itertools.product(range(2), range(2)))","list(itertools.chain([1], [2]))","list(itertools.chain.from_iterable([[1], [2]]))","list(itertools.accumulate([1, 2]))","list(itertools.islice(range(10), 2))","list(itertools.combinations(range(3), 2))","list(itertools.combinations_with_replacement(range(3), 2))","list(itertools.starmap(lambda x, y: x + y, [(1, 2)]))","list(itertools.repeat(1, 2))","next(itertools.count(3))","list(itertools.pairwise([1, 2, 3]))","list(itertools.takewhile(lambda x: x < 2, [1, 2, 3]))","functools.reduce(operator.mul, [a, b])","functools.reduce(np.multiply, [a, b])","functools.reduce(lambda x, y: x * y, [a, b], 1)","operator.add(1, 2)","operator.itemgetter(0)((1, 2))","operator.attrgetter('size')(a)","operator.methodcaller('sum')(a)","functools.partial(np.sum, axis=0)(c)","any(x > 0 for x in a)","all(x > 0 for x in a)","sum(x * y for x, y in zip(a, b))","max((x for x in a), default=0)","min(a, key=abs)","sorted([3, 1], reverse=True)","sorted([(1, 2), (0, 3)], key=lambda t: t[0])","dict(zip('ab', [1, 2]))['a']","{k: v for k, v in [('x', 1)]}['x']","[*range(3), 4]","{**{'a': 1}, 'b': 2}['b']","set([1, 2]) & {2}","frozenset([1])","isinstance(a, np.ndarray)","hasattr(a, 'shape')","getattr(a, 'size')","callable(len)","type(a).__name__","str(3)","'{:d}'.format(3)","'%d' % 3","f'{3:02d}'","'a,b'.split(',')","'_'.join(['a', 'b'])","'abc'.startswith(('a', 'b'))","'ab'.removesuffix('b')","'Ab'.swapcase()","'ab'.partition('b')","bool(np.any(a))","(a > 0).nonzero()[0]","(a > 0).sum()","(a > 0).astype(float) * a","np.sum(a > 0)","a.dot(b)","c.dot(a)","a.conj()","c.trace()","np.trace(c)","c.diagonal()","a.cumsum()","a.argmin()","a.prod()","a.mean()","a.std()","a.repeat(2)","c.take([0], axis=0)","a.nonzero()[0]","a.fill(1.0)","a.copy()","c.swapaxes(0, 1)","c.squeeze()","a.ptp() if hasattr(a, 'ptp') else 0","a.round(2)","a.sum(dtype=float)","a.size","len(c)","c.shape[0]","c.ndim","slice(0, 2)","a[slice(0, 2)]","a[::-1]","a[::2]","a[1:-1]","a[-1]","c[-1, :]","c[:, [0]]","c[[0], :]","c[np.arange(len(c)), np.arange(len(c))]","c[0][0]","(lambda x: x)(a)","(y := a)","a if len(a) else b","not a.any()","a is None",
]
STM = {
"o_zip": "    z = zip(a, b)\n    x = [p for p, _ in z]\n    y = [q for _, q in z]\n    return len(x), len(y)\n",
"o_map": "    m = map(lambda t: 2 * t, a)\n    return sum(m) + 100 * sum(m)\n",
"o_gen": "    g = (x * x for x in a)\n    s = sum(g)\n    return s, list(g)\n",
"o_iter": "    i = iter(a)\n    x = next(i)\n    y = next(i)\n    return x, y, list(i)\n",
"o_iter_for": "    i = iter([1, 2, 3, 4])\n    for x in i:\n        if x == 2:\n            break\n    return list(i)\n",
"o_next_default": "    i = iter([])\n    return next(i, 7)\n",
"o_enum": "    e = enumerate(a)\n    next(e)\n    return [k for k, _ in e]\n",
"o_rev": "    r = reversed([1, 2, 3])\n    return list(r), list(r)\n",
"o_zip_count": "    return [k * x for k, x in zip(itertools.count(1), a)]\n",
"o_zip_repeat": "    return [k * x for k, x in zip(a, itertools.repeat(3))]\n",
"o_product": "    r = np.zeros((len(a), len(b)))\n    for i, j in itertools.product(range(len(a)), range(len(b))):\n        r[i, j] = a[i] - b[j]\n    return r\n",
"o_product_sum": "    return sum(x * y for x, y in itertools.product(a, b))\n",
"o_chain": "    return list(itertools.chain(a, b))\n",
"o_chain2": "    return [2 * x for x in itertools.chain([0.5], a, b)]\n",
"o_concat": "    return list(a) + [1.5] + list(b)\n",
"o_append_sym": "    r = [x for x in a]\n    r.append(3.0)\n    r.extend(b)\n    return r\n",
"o_head": "    r = [9.0]\n    for x in a:\n        r.append(x + 1)\n    return r\n",
"o_times": "    return [0.5] * len(a)\n",
"o_ctx": "    log = []\n    @contextlib.contextmanager\n    def m(k):\n        log.append(k)\n        try:\n            yield k + 1\n        finally:\n            log.append(-k)\n    with m(1) as x, m(5) as y:\n        log.append(x * y)\n    return log\n",
"o_ctx_break": "    @contextlib.contextmanager\n    def m():\n        for _ in range(1):\n            yield 1\n    r = 0\n    for i in range(3):\n        with m() as x:\n            r += x\n            if i == 1:\n                break\n    return r\n",
"o_ctx_return": "    log = []\n    @contextlib.contextmanager\n    def m():\n        try:\n            yield 1\n        finally:\n            log.append(2)\n    def f():\n        with m() as x:\n            return x\n    return f(), log\n",
"o_suppress": "    r = 0\n    with contextlib.suppress(ValueError):\n        r = 1\n        raise ValueError\n        r = 2\n    return r\n",
"o_suppress_no": "    with contextlib.suppress(KeyError):\n        raise ValueError\n    return 0\n",
"o_enter": "    class M:\n        def __init__(self):\n            self.log = []\n        def __enter__(self):\n            self.log.append(1)\n            return self\n        def __exit__(self, *e):\n            self.log.append(e[0] is None)\n            return True\n    m = M()\n    with m as x:\n        x.log.append(2)\n        raise ValueError\n    return m.log\n",
"o_class_closure": "    k = 3\n    class P:\n        w = k + 1\n        def get(self, x):\n            return x * k + self.w\n    return P().get(a)\n",
"o_class_default": "    class P:\n        def __init__(self, v=2):\n            self.v = v\n        @property\n        def twice(self):\n            return 2 * self.v\n        @staticmethod\n        def f(x):\n            return x + 1\n    return P.f(P().twice)\n",
"o_final_return": "    def f():\n        try:\n            return 1\n        finally:\n            a[0] = 5.0\n    return f() + a[0]\n",
"o_sorted_rev": "    return sorted(a, reverse=True)\n",
"o_sorted_key": "    return sorted(range(len(a)), key=lambda i: -a[i])\n",
"o_sorted_key_rev": "    return sorted(range(len(a)), key=lambda i: a[i], reverse=True)\n",
"o_max_key": "    return max(range(len(a)), key=lambda i: abs(a[i]))\n",
"o_min_key": "    return min([3, -1, 2], key=lambda t: t * t)\n",
"o_max_default": "    return max([], default=4)\n",
"o_where_sum": "    return np.sum(a, where=a > 0)\n",
"o_out_add": "    r = np.ones(len(a))\n    np.add(a, b, out=r, where=b > 0)\n    return r\n",
"o_out_self": "    np.multiply(a, 2, out=a)\n    return a\n",
"o_roll2": "    return np.roll(c, 1, axis=1)\n",
"o_roll2b": "    return np.roll(c, -1, axis=0)\n",
"o_rollflat": "    return np.roll(c, 2)\n",
"o_kron": "    return np.kron(a, b)\n",
"o_tile2": "    return np.tile(c, (2, 1))\n",
"o_tile3": "    return np.tile(a, (3, 2))\n",
"o_rep2": "    return np.repeat(c, 2, axis=1)\n",
"o_repflat": "    return np.repeat(c, 2)\n",
"o_moveaxis": "    t = np.stack([c, 2 * c], axis=0)\n    return np.moveaxis(t, 0, -1)\n",
"o_swap3": "    t = np.stack([c, 2 * c, 3 * c], axis=0)\n    return t.swapaxes(0, 2)\n",
"o_clip3": "    return np.clip(a, -0.5, 0.5), a.clip(max=0)\n",
"o_select": "    return np.select([a > 0.5, a > 0], [1, 2], default=3)\n",
"o_points": "    r = np.zeros((len(a), len(a)))\n    r[np.arange(len(a)), np.arange(len(a))[::-1]] = a\n    return r\n",
"o_fmt": "    return '{}_{:d}-{x}'.format('p', 3, x='q') + '%s.%d%%' % ('a', 4)\n",
"o_avg": "    return np.average(a, weights=np.abs(b))\n",
"o_maxinit": "    return a.max(initial=0), np.min(a, initial=-0.25)\n",
"o_prod_axis": "    return np.prod([a, b], axis=0), np.prod([2, 3]), np.multiply.reduce([a, b, a])\n",
"o_vec": "    return np.vectorize(lambda x, y: x - 2 * y)(a, b)\n",
"o_lin": "    return np.linspace(0, 1, len(a)), np.linspace(1, 3, 4, endpoint=False)\n",
"o_lists2": "    r = []\n    for x in a:\n        r += [x, -x]\n    return r\n",
"o_real_set": "    z = a + 1j * b\n    z.imag = 0\n    z.real += 1\n    return z\n",
"o_flat_set": "    r = c.copy()\n    r.flat[0] = 7\n    return r\n",
"o_reshape_view": "    r = np.zeros(2 * len(a))\n    r.reshape(2, -1)[1] = a\n    return r\n",
"o_flatten_copy": "    f = c.flatten()\n    f[0] = 9\n    return c\n",
"o_ravel_view": "    f = c.ravel()\n    f[0] = 9\n    return c\n",
"o_T_view": "    t = c.T\n    t[0, 1] = 9\n    return c\n",
"o_diag_view": "    d = np.diagonal(c)\n    return d.copy() * 2\n",
"o_slice_alias": "    x = a[1:]\n    x += 1\n    return a\n",
"o_fancy_copy": "    x = a[[0, 1]]\n    x += 1\n    return a\n",
"o_mask_copy": "    x = a[a > 0]\n    x += 1\n    return a\n",
"o_mask_add": "    a[a > 0] += 1\n    return a\n",
"o_dup_idx": "    r = np.zeros(3)\n    r[[0, 0, 1]] += 1\n    return r\n",
"o_rowmask": "    c[a > 0] *= -1\n    return c\n",
"o_colassign": "    c[:, 0] = c[:, 1]\n    return c\n",
"o_overlap": "    a[1:] = a[:-1]\n    return a\n",
"o_swap_rows": "    c[[0, 1]] = c[[1, 0]]\n    return c\n",
"o_intdiv": "    return [(-7) // 2, -7 % 3, 7 // -2, divmod(-7, 2), int(-3.7), round(2.5), round(3.5)]\n",
"o_trunc": "    r = np.zeros(len(a), dtype=int)\n    r[:] = a * 10\n    return r\n",
"o_int_inplace": "    r = np.arange(len(a))\n    r += 1\n    return r / 2\n",
"o_defaults": "    def f(x, acc=[]):\n        acc.append(x)\n        return len(acc)\n    return f(1) + f(2)\n",
"o_late": "    fs = [lambda: i for i in range(3)]\n    return [f() for f in fs]\n",
"o_late_default": "    fs = [lambda i=i: i for i in range(3)]\n    return [f() for f in fs]\n",
"o_chained": "    return 1 < len(a) < 4, len(a) > 2 == True\n",
"o_walrus": "    return [(t := x * 2), t + 1][1] if (x := a[0]) > 0 else x\n",
"o_shadow": "    x = 5\n    r = [x for x in range(3)]\n    return x, r\n",
"o_neg_idx": "    return a[-1], a[-2:], a[:-1], a[::-1][0]\n",
"o_idx_err": "    return [1, 2][5]\n",
"o_key_err": "    return {}['x']\n",
"o_int_err": "    return int('x')\n",
"o_cumsum2": "    return np.cumsum(c, axis=0)\n",
"o_trace_off": "    return np.trace(c, offset=1), np.diag(c, 1)\n",
"o_sumint": "    return np.sum(np.array([True, False, True])), np.mean(np.array([1, 2]))\n",
"o_floordiv_arr": "    return np.array([-7, 7]) // 2, np.array([-7, 7]) % 3, np.mod(a, 1)\n",
"o_cplx": "    z = a + 1j * b\n    return abs(z), z.conj() * z, np.angle(z), (z ** 2).real, np.real(z * 1j)\n",
"o_list_mut": "    r = [1, 2, 3, 4]\n    for x in r:\n        if x % 2 == 0:\n            r.remove(x)\n    return r\n",
"o_dict_order": "    d = {'b': 1, 'a': 2}\n    d['c'] = 3\n    d['b'] = 4\n    return list(d), list(d.values())\n",
"o_str": "    s = 'L12_min3'\n    return s.split('_'), s.upper(), s.find('m'), s[1:3], s.replace('_', '-'), '_'.join(reversed(s.split('_'))), s.rsplit('_', 1)[0], s.isdigit(), s.zfill(10)\n",
"o_bool_arith": "    return True + True, sum(x > 0 for x in a), (a > 0) * 2\n",
"o_none_default": "    x = None\n    return (x or 3), (0 or 4), (len(a) and 5)\n",
"o_nan": "    return np.isnan(a).any()\n",
"o_einsum": "    return np.einsum('ij,j->i', c, a), np.einsum('ij->ji', c), np.einsum('ii', c), np.einsum('i,j', a, b)\n",
"o_matvec": "    return c @ a, a @ c, c @ c, np.dot(a, c)\n",
"o_outer_reduce": "    return np.add.outer(a, b), np.subtract.outer(a, b).sum(axis=0)\n",
"o_triu": "    i, j = np.triu_indices(len(a), k=1)\n    r = np.zeros((len(a), len(a)))\n    r[i, j] = 1\n    return r + r.T\n",
"o_tri_vals": "    i = np.tril_indices(len(a), -1)\n    return c[i]\n",
"o_argw": "    return np.argwhere(a > 0)[:, 0], np.flatnonzero(a > 0)\n",
"o_cond_break": "    r = 0\n    for i, x in enumerate(a):\n        if x > 0:\n            r = i\n            break\n    return r\n",
"o_while_else": "    k = 0\n    while k < len(a):\n        if a[k] > 10:\n            break\n        k += 1\n    else:\n        k = -1\n    return k\n",
"o_nested_fn": "    t = 0\n    def add(x):\n        nonlocal t\n        t += x\n        return t\n    return [add(x) for x in a]\n",
"o_star_args": "    def f(*xs, k=1, **kw):\n        return sum(xs) * k + len(kw)\n    return f(*[1, 2], k=3, z=1)\n",
"o_ternary_chain": "    n = len(a)\n    return 'a' if n < 3 else 'b' if n < 4 else 'c'\n",
"o_set": "    return sorted({3, 1} | {2}), {1, 2} - {2}, 3 in {1, 3}\n",
"o_minmax": "    return min(3, len(a)), max(a[0], b[0]), min(a), max(list(b))\n",
"o_pow": "    return 2 ** len(a), (-1) ** len(a), 2.0 ** -1, np.power(2, 3)\n",
"o_hstack": "    return np.hstack([a, b, [1.0]]), np.vstack([a, b]), np.concatenate([c, c], axis=1)\n",
"o_pad": "    return np.pad(a, (1, 2)), np.pad(c, ((1, 0), (0, 1)))\n",
"o_min_a": "    return min(a)\n",
"o_list_then": "    l = list(a)\n    t = [x for x in a]\n    a[0] = 9.0\n    return l, t, list(c)[1][0]\n",
"o_max_l": "    return max(list(b))\n",
"o_min_sc": "    return min(3, len(a)), max(a[0], b[0])\n",
"o_delete": "    return np.insert(a, 1, 5.0), np.append(a, 3)\n",

"s_errstate": "    with np.errstate(divide='ignore'):\n        r = a + 1\n    return r\n",
"s_out": "    r = np.empty(len(a))\n    np.multiply(a, b, out=r)\n    return r\n",
"s_copyto": "    r = np.zeros(len(a))\n    np.copyto(r, a)\n    return r\n",
"s_copyto_where": "    r = np.zeros(len(a))\n    np.copyto(r, a, where=a > 0)\n    return r\n",
"s_putmask": "    r = a.copy()\n    np.putmask(r, r < 0, 0)\n    return r\n",
"s_put": "    r = a.copy()\n    np.put(r, [0], 0)\n    return r\n",
"s_place": "    r = a.copy()\n    np.place(r, r < 0, 0)\n    return r\n",
"s_filldiag": "    r = c.copy()\n    np.fill_diagonal(r, 0)\n    return r\n",
"s_addat": "    r = np.zeros(3)\n    np.add.at(r, [0, 0], 1)\n    return r\n",
"s_nditer": "    r = 0\n    for x in np.nditer(a):\n        r += x\n    return r\n",
"s_ndenum": "    r = np.zeros(c.shape)\n    for (i, j), x in np.ndenumerate(c):\n        r[i, j] = x\n    return r\n",
"s_flat": "    r = 0\n    for x in c.flat:\n        r += x\n    return r\n",
"s_divwhere": "    r = np.zeros(len(a))\n    np.divide(b, a, out=r, where=a != 0)\n    return r\n",
"s_match": "    match len(a):\n        case 0:\n            return 1\n        case n if n > 2:\n            return 2\n        case _:\n            return 3\n",
"s_try": "    try:\n        r = a[0]\n    except IndexError:\n        r = 0\n    else:\n        r = r + 1\n    finally:\n        pass\n    return r\n",
"s_gen": "    def g():\n        for x in a:\n            yield 2 * x\n    return np.array(list(g()))\n",
"s_yieldfrom": "    def g():\n        yield from a\n    return np.array(list(g()))\n",
"s_while": "    i = 0\n    r = 0\n    while i < len(a):\n        r += a[i]\n        i += 1\n    return r\n",
"s_iter": "    it = iter(a)\n    r = 0\n    for x in it:\n        r += x\n    return r\n",
"s_zip3": "    r = np.zeros(len(a))\n    for k, (x, y) in enumerate(zip(a, b, strict=True)):\n        r[k] = x * y\n    return r\n",
"s_del": "    x = a\n    del x\n    return a\n",
"s_star": "    x, *y = (1, 2, 3)\n    return y\n",
"s_class": "    class P:\n        def __init__(self, v):\n            self.v = v\n        def get(self):\n            return self.v\n    return P(a).get()\n",
"s_nt": "    P = collections.namedtuple('P', 'x y')\n    p = P(a, b)\n    return p.x + p.y\n",
"s_dc": "    @dataclasses.dataclass\n    class P:\n        v: object\n    return P(a).v\n",
"s_dd": "    d = collections.defaultdict(list)\n    d['x'].append(a)\n    return d['x'][0]\n",
"s_deque": "    d = collections.deque([1, 2])\n    return d.popleft()\n",
"s_ctx": "    @contextlib.contextmanager\n    def m():\n        yield a\n    with m() as r:\n        pass\n    return r\n",
"s_stack": "    with contextlib.ExitStack() as s:\n        s.callback(lambda: None)\n    return a\n",
"s_setdefault": "    d = {}\n    return d.setdefault('x', a)\n",
"s_nonlocal": "    n = 0\n    def f(x):\n        nonlocal n\n        n += x\n    for x in a:\n        f(x)\n    return n\n",
"s_cache": "    @functools.cache\n    def f(k):\n        return k + 1\n    return f(2)\n",
"s_assert": "    assert a.ndim == 1, 'one'\n    return a\n",
"s_global_idx": "    idx = np.arange(len(a))[::-1]\n    return a[idx]\n",
"s_sortinplace": "    r = a.copy()\n    r.sort()\n    return r\n",
"s_ell": "    return c[..., 0]\n",
"s_setslice": "    r = np.zeros(len(a))\n    r[:] = a\n    r[1:] -= a[:-1]\n    return r\n",
"s_swap": "    x, y = a, b\n    x, y = y, x\n    return x\n",
"s_lists": "    r = []\n    for x in a:\n        r += [x, x]\n    return np.array(r)\n",
"s_dictcomp": "    d = {i: 2 * i for i in range(len(a))}\n    return len(d)\n",
"s_enumstart": "    r = 0\n    for i, x in enumerate(a, 1):\n        r += i * x\n    return r\n",
"s_reversed": "    r = 0\n    for i in reversed(range(len(a))):\n        r += a[i]\n    return r\n",
"s_forelse": "    for x in a:\n        if x > 0:\n            break\n    else:\n        return 0\n    return 1\n",
"s_recursion": "    def f(n):\n        return 0 if n <= 0 else 1 + f(n - 1)\n    return f(3)\n",
"s_futures": "    with concurrent.futures.ThreadPoolExecutor() as e:\n        fs = [e.submit(lambda i: i, i) for i in range(3)]\n        return [f.result() for f in concurrent.futures.as_completed(fs)]\n",
"s_futlist": "    with concurrent.futures.ThreadPoolExecutor() as e:\n        return list(e.map(lambda i: i, range(3)))\n",
}

HEAD = "import numpy as np, math, cmath, itertools, functools, operator, collections, dataclasses, contextlib, concurrent.futures\n"


def main():
    import numpy as np
    d = tempfile.mkdtemp(prefix="pyvc-reader-")
    try:
        src, names = HEAD, []
        for k, e in enumerate(EX):
            src += f"def f{k}(a, b, c):\n    return {e}\n"
            names.append((f"f{k}", e))
        for k, e in STM.items():
            src += f"def {k}(a, b, c):\n{e}"
            names.append((k, k))
        shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__", "*.egg-info"))
        open(d + "/src/sleplet/_probe.py", "w").write(src)
        os.environ["PYVC_SRC"] = d + "/src"
        sys.path.insert(0, d + "/src")
        from pyvc import driver, sandbox, terms as T, values as V, interp as I, arrays as A
        import selftest as ST
        sandbox.enter()
        import warnings
        warnings.simplefilter("ignore")
        real = {}
        exec(compile(src, "probe", "exec"), real)
        envs = []

        class Skip(Exception):
            pass

        arrs = {}
        plain = ST.eva

        def lam_val(l, idx):
            return ST.ev(T.app_lam(l, tuple(T.P(i) for i in idx)), {})

        def eva(a, env):
            if a.kind == "app":
                nm = a.data[0]
                args = [ST.ev(x, env) for x in a.data[1]]
                ii = [round(x.real) for x in args]
                if nm.startswith("in_"):
                    if nm[3:] == "n":
                        return arrs["n"]
                    x = arrs[nm[3:]]
                    if any(not 0 <= i < s for i, s in zip(ii, x.shape)):
                        return 0.37     # never looked at where it matters
                    return complex(x[tuple(ii)])
                if nm == "floor":
                    return float(np.floor(args[0].real + 1e-12))
                if nm == "round":
                    return float(np.round(args[0].real))
                if nm == "idiv":
                    return float(ii[0] // ii[1]) if ii[1] else 0.0
                if nm == "log":
                    return cmath.log(args[0])
                if nm == "angle":
                    return cmath.phase(args[0])
                if nm in ("arrmax", "arrmin", "argsort", "sorted", "argmax", "argmin") and not env:
                    dims = ii if nm.startswith("arr") else [ii[-1]]
                    vals = np.array([lam_val(a.data[2][0], ix).real for ix in np.ndindex(*dims)])
                    if nm == "arrmax":
                        return vals.max()
                    if nm == "arrmin":
                        return vals.min()
                    if nm in ("argmax", "argmin"):
                        return int(getattr(np, nm)(vals))
                    r = np.argsort(vals, kind="stable")
                    if not 0 <= ii[0] < len(r):
                        return 0.0
                    return r[ii[0]] if nm == "argsort" else vals[r[ii[0]]]
                if nm == "exists" and not env:
                    return float(any(lam_val(a.data[2][0], ix).real > 0.5 for ix in np.ndindex(*ii)))
                raise Skip(nm)
            if a.kind == "sym" and a not in env:
                if a is T.PI_ATOM:
                    return plain(a, env)
                if str(a).startswith("n"):
                    return arrs["n"]
                raise Skip("symbol " + str(a))
            return plain(a, env)

        ST.eva = eva
        plain_ev = ST.ev

        def ev(t, env):
            if isinstance(t, T.Formula) and t.op == "b":
                return abs(plain_ev(t.args[0], env)) > 0.5
            return plain_ev(t, env)
        ST.ev = ev

        def num(p):
            z = ST.ev(p, {})
            return z

        def val(v):
            if isinstance(v, V.Num):
                return num(v.p)
            if isinstance(v, V.Bool):
                return bool(ST.ev(v.f, {}))
            if isinstance(v, V.Arr):
                sh = tuple(round(num(s).real) for s in v.shape)
                f = v.fn()
                out = np.zeros(sh, dtype=complex)
                for ix in np.ndindex(*sh):
                    x = f(tuple(T.P(i) for i in ix))
                    out[ix] = ST.ev(x, {})
                return ("arr", out, v.dt)
            if isinstance(v, V.Sel):
                sh = tuple(round(num(s).real) for s in v.dom)
                xs = []
                for ix in np.ndindex(*sh):
                    i = tuple(T.P(j) for j in ix)
                    if ST.ev(v.pred(i), {}):
                        xs.append(ST.ev(v.fn(i), {}))
                return ("arr", np.array(xs, dtype=complex), v.dt)
            if isinstance(v, V.PList):
                n = round(num(v.length()).real)
                if v.items is not None:
                    return [val(x) for x in v.items]
                return [val(v.fn(T.P(k))) for k in range(n)]
            if isinstance(v, V.Once):
                r = v.env.vars["rest"]
                return val(V.PList(None, r.n, r.fn) if isinstance(r, V.IterV) else V.PList(list(r)))
            if isinstance(v, tuple):
                return tuple(val(x) for x in v)
            if isinstance(v, V.PDict):
                return {k: val(x) for k, x in v.d.items()}
            if v is None or isinstance(v, (str, int, float, bool, complex)):
                return v
            if isinstance(v, (set, frozenset)):
                return {x if not isinstance(x, V.Num) else num(x.p).real for x in v}
            raise Skip(type(v).__name__)

        def same(x, y):
            """reader value x, real value y"""
            if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] == "arr":
                y = np.asarray(y)
                if y.dtype == object or y.shape != x[1].shape:
                    return False
                k = y.dtype.kind.replace("u", "i")
                return np.allclose(x[1], y.astype(complex), atol=1e-7) and (k == x[2] or y.size == 0)
            if isinstance(y, (np.generic, int, float, complex, bool)) and not isinstance(y, np.ndarray):
                return not isinstance(x, (list, tuple, dict, str, type(None))) and abs(complex(x) - complex(y)) < 1e-7
            if isinstance(y, (list, tuple)) and type(y).__name__ != "P":
                return isinstance(x, (list, tuple)) and len(x) == len(y) and all(same(p, q) for p, q in zip(x, y))
            if isinstance(y, dict):
                return isinstance(x, dict) and set(x) == set(y) and all(same(x[k], y[k]) for k in y)
            if isinstance(y, np.ndarray):
                return isinstance(x, list) and same(("arr", np.array(x, dtype=complex), y.dtype.kind), y)
            if hasattr(y, "__next__"):
                return same(x, list(y))
            return x == y

        stats = {"agree": 0, "unsupported": 0, "not evaluated": 0, "WRONG": 0}
        rng = np.random.default_rng(7)
        for fn, e in names:
            if sys.argv[1:] and not any(x in e for x in sys.argv[1:]):
                continue
            paths = []

            def c(S, fn=fn):
                n = S.int("n", 2, 6)
                a, b = S.arr("a", (n,)), S.arr("b", (n,))
                m = S.arr("c", (n, n))
                it = V.ctx()
                try:
                    r = S.call("sleplet._probe." + fn, a, b, m)
                except V.PyExc as x:
                    paths.append((list(it.deciders[-1].conds), "raise", x.name))
                else:
                    conds, vals = list(it.deciders[-1].conds), []
                    for k, (nn, av, bv, cv) in enumerate(data):
                        arrs.update(n=nn, a=av, b=bv, c=cv)
                        try:
                            if all(ST.ev(f, {}) for f in conds):
                                vals.append((k, val(r), val(a), val(m)))
                        except (Skip, V.Unsupported, NotImplementedError, KeyError, OverflowError, ZeroDivisionError) as x:
                            vals.append((k, "skip", type(x).__name__ + " " + str(x)[:60], None))
                    paths.append((conds, "value", vals))
                S.ensure("done", True)
            c.__name__ = "self." + fn
            data = []
            for nn in (2, 3, 5):
                for _ in range(2):
                    data.append((nn, rng.normal(size=nn).round(3), rng.normal(size=nn).round(3), rng.normal(size=(nn, nn)).round(3)))
            driver.contract("SELF", samples=5, budget=30)(c)
            ct = next(x for k, x in driver.CONTRACTS.items() if x.fn is c)
            r = driver.run_symbolic(ct, 30)
            if r["error"]:
                stats["unsupported"] += 1
                print(f"unsupported    {e}: {r['error'][:90]}")
                continue
            verdict, why = "agree", ""
            for k, (nn, av, bv, cv) in enumerate(data):
                a1, b1, c1 = av.copy(), bv.copy(), cv.copy()
                try:
                    y = real[fn](a1, b1, c1)
                    if hasattr(y, "__next__"):
                        y = list(y)
                    exc = None
                except Exception as x:
                    exc = type(x).__name__
                got = [v for p in paths if p[1] == "value" for v in p[2] if v[0] == k]
                if exc is not None:
                    if got and got[0][1] != "skip":
                        verdict, why = "WRONG", f"real raises {exc}"
                    elif not any(p[1] == "raise" and p[2] == exc for p in paths):
                        verdict, why = "not evaluated", f"real raises {exc}"
                    continue
                if not got:
                    verdict, why = ("WRONG", f"no path for n={nn}") if verdict != "WRONG" else (verdict, why)
                    continue
                if got[0][1] == "skip":
                    if verdict == "agree":
                        verdict, why = "not evaluated", got[0][2]
                    continue
                if not same(got[0][1], y):
                    verdict, why = "WRONG", f"n={nn} reader {got[0][1]} real {y!r}"[:300]
                    break
                if not same(got[0][2], a1) or not same(got[0][3], c1):
                    verdict, why = "WRONG", f"n={nn}: argument left as {got[0][2]} / {got[0][3]}, really {a1} / {c1}"[:300]
                    break
            stats[verdict] += 1
            if verdict != "agree":
                print(f"{verdict:14} {e}: {why}", flush=True)
        print(stats)
        return 1 if stats["WRONG"] else 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
