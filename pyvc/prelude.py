"""External functions written out in Python over functions that have models.

The reader executes these definitions in place of the functions they stand for (the name numpy__roll stands for
numpy.roll); tools/reader_selftest.py compares what is read with the real functions."""
import functools
import itertools
import math
import operator

import numpy as np


def numpy__hypot(a, b):
    return np.sqrt(a * a + b * b)


def numpy__fliplr(m):
    return m[:, ::-1]


def numpy__roll(a, shift, axis=None):
    if axis is None:
        if np.ndim(a) == 1:
            return a[(np.arange(len(a)) - shift) % len(a)]
        f = np.reshape(a, -1)
        return np.reshape(f[(np.arange(len(f)) - shift) % len(f)], np.shape(a))
    n = np.shape(a)[axis]
    return np.take(a, (np.arange(n) - shift) % n, axis=axis)


def numpy__full_like(a, fill_value, dtype=None):
    return np.full(np.shape(a), fill_value, dtype=a.dtype if dtype is None else dtype)


def numpy__add__reduce(a, axis=0):
    return np.sum(np.asarray(a), axis=axis)


def numpy__multiply__reduce(a, axis=0):
    return np.prod(np.asarray(a), axis=axis)


def numpy__logical_and__reduce(a, axis=0):
    return np.all(np.asarray(a), axis=axis)


def numpy__logical_or__reduce(a, axis=0):
    return np.any(np.asarray(a), axis=axis)


def numpy__maximum__reduce(a, axis=0):
    return np.max(np.asarray(a), axis=axis)


def numpy__minimum__reduce(a, axis=0):
    return np.min(np.asarray(a), axis=axis)


def numpy__multiply__outer(a, b):
    return np.reshape(a, np.shape(a) + (1,) * np.ndim(b)) * b


def numpy__add__outer(a, b):
    return np.reshape(a, np.shape(a) + (1,) * np.ndim(b)) + b


def numpy__subtract__outer(a, b):
    return np.reshape(a, np.shape(a) + (1,) * np.ndim(b)) - b


def numpy__divide__outer(a, b):
    return np.reshape(a, np.shape(a) + (1,) * np.ndim(b)) / b


def numpy__equal__outer(a, b):
    return np.equal(np.reshape(a, np.shape(a) + (1,) * np.ndim(b)), b)


def numpy__greater__outer(a, b):
    return np.greater(np.reshape(a, np.shape(a) + (1,) * np.ndim(b)), b)


def numpy__less__outer(a, b):
    return np.less(np.reshape(a, np.shape(a) + (1,) * np.ndim(b)), b)


def numpy__kron(a, b):
    return np.reshape(a[:, np.newaxis] * b[np.newaxis, :], -1)


def numpy__copysign(a, b):
    return np.where(b < 0, -np.abs(a), np.abs(a)) + 0.0


def numpy__clip(a, a_min=None, a_max=None, min=None, max=None):
    lo = min if a_min is None else a_min
    hi = max if a_max is None else a_max
    if lo is not None:
        a = np.maximum(a, lo)
    if hi is not None:
        a = np.minimum(a, hi)
    return a


def numpy__heaviside(a, h):
    return np.where(a < 0, 0.0, np.where(np.equal(a, 0), h, 1.0))


def numpy__select(condlist, choicelist, default=0):
    r = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = np.where(c, v, r)
    return r


def numpy__choose(a, choices):
    r = choices[-1]
    for k in range(len(choices) - 2, -1, -1):
        r = np.where(a == k, choices[k], r)
    return r


def numpy__isreal(a):
    return np.equal(np.imag(a), 0)


def numpy__var(a, axis=None):
    return np.mean(np.abs(a - np.mean(a, axis=axis, keepdims=True)) ** 2, axis=axis) if axis is not None else np.mean(np.abs(a - np.mean(a)) ** 2)


def numpy__std(a, axis=None):
    return np.sqrt(numpy__var(a, axis))


def numpy__nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    return np.array(x) if copy else np.asarray(x)


def numpy__nansum(a, axis=None):
    return np.sum(a, axis=axis)


def numpy__atleast_1d(a):
    return np.reshape(a, (1,)) if np.ndim(a) == 0 else a


def numpy__atleast_2d(a):
    return np.reshape(a, (1, 1)) if np.ndim(a) == 0 else a[np.newaxis] if np.ndim(a) == 1 else a


def numpy__swapaxes(a, axis1, axis2):
    p = list(range(np.ndim(a)))
    p[axis1], p[axis2] = p[axis2], p[axis1]
    return np.transpose(a, tuple(p))


def numpy__moveaxis(a, source, destination):
    n = np.ndim(a)
    p = [k for k in range(n) if k != source % n]
    p.insert(destination % n, source % n)
    return np.transpose(a, tuple(p))


def numpy__rollaxis(a, axis, start=0):
    return numpy__moveaxis(a, axis, start)


def numpy__indices(shape):
    return np.stack(np.meshgrid(*[np.arange(n) for n in shape], indexing="ij"))


def numpy__fromfunction(function, shape, dtype=float):
    return function(*[np.asarray(x).astype(dtype) for x in np.meshgrid(*[np.arange(n) for n in shape], indexing="ij")])


def numpy__vectorize(f):
    def g(*xs):
        if all(np.ndim(x) == 0 for x in xs):
            return f(*xs)
        return np.array([f(*t) for t in zip(*xs)])
    return g


def numpy__linspace(start, stop, num=50, endpoint=True):
    if num == 1:
        return np.array([start * 1.0])
    return start + np.arange(num) * (stop - start) / ((num - 1) if endpoint else num)


def numpy__ix_(a, b):
    return np.asarray(a)[:, np.newaxis], np.asarray(b)[np.newaxis, :]


def numpy__ndindex(*shape):
    if len(shape) == 1 and isinstance(shape[0], tuple):
        shape = shape[0]
    return itertools.product(*[range(n) for n in shape])


def numpy__ndenumerate(a):
    return [(i, a[i]) for i in itertools.product(*[range(n) for n in np.shape(a)])]


def numpy__unravel_index(i, shape):
    return i // shape[1], i % shape[1]


def numpy__triu_indices_from(a, k=0):
    return np.triu_indices(np.shape(a)[0], k, np.shape(a)[1])


def numpy__tril_indices_from(a, k=0):
    return np.tril_indices(np.shape(a)[0], k, np.shape(a)[1])


def numpy__diag_indices(n):
    return np.arange(n), np.arange(n)


def numpy__diag_indices_from(a):
    return np.arange(np.shape(a)[0]), np.arange(np.shape(a)[0])


def numpy__compress(condition, a):
    return a[np.asarray(condition)]


def numpy__extract(condition, a):
    return a[condition]


def numpy__exp2(a):
    return np.power(2.0, a)


def numpy__expm1(a):
    return np.exp(a) - 1


def numpy__log1p(a):
    return np.log(1 + a)


def numpy__reciprocal(a):
    return 1.0 / a


def numpy__sinc(a):
    return np.where(np.equal(a, 0), 1.0, np.sin(np.pi * a) / np.where(np.equal(a, 0), 1.0, np.pi * a))


def numpy__tan(a):
    return np.sin(a) / np.cos(a)


def numpy__arctan2(y, x):
    return np.angle(x + 1j * y)


def numpy__divmod(a, b):
    return a // b, a % b


def numpy__putmask(a, mask, values):
    a[mask] = values


def numpy__place(a, mask, vals):
    a[mask] = vals


def numpy__fill_diagonal(a, val):
    n = np.minimum(np.shape(a)[0], np.shape(a)[1])
    a[np.arange(n), np.arange(n)] = val


def numpy__einsum_path(*a, **k):
    raise NotImplementedError


def math__prod(xs, start=1):
    return functools.reduce(operator.mul, xs, start)


def math__fsum(xs):
    return sum(xs) + 0.0


def math__hypot(*xs):
    return math.sqrt(sum(x * x for x in xs))


def cmath__exp(z):
    return np.exp(z + 0j)


def cmath__sqrt(z):
    return np.sqrt(z + 0j)


def cmath__phase(z):
    return np.angle(z + 0j)


def cmath__rect(r, phi):
    return r * np.exp(1j * phi)


def itertools__chain__from_iterable(xs):
    return [y for x in xs for y in x]


def itertools__islice(xs, *a):
    s = list(xs)
    return s[slice(*a)]


def itertools__starmap(f, xs):
    return [f(*t) for t in xs]


def itertools__pairwise(xs):
    s = list(xs)
    return list(zip(s[:-1], s[1:]))


def itertools__accumulate(xs, func=operator.add, initial=None):
    out = []
    r = initial
    first = initial is None
    if not first:
        out.append(r)
    for x in xs:
        r = x if first else func(r, x)
        first = False
        out.append(r)
    return out


def itertools__takewhile(p, xs):
    out = []
    for x in xs:
        if not p(x):
            break
        out.append(x)
    return out


def itertools__filterfalse(p, xs):
    return [x for x in xs if not p(x)]


def itertools__compress(xs, sel):
    return [x for x, s in zip(xs, sel) if s]


def operator__itemgetter(*ks):
    if len(ks) == 1:
        return lambda o: o[ks[0]]
    return lambda o: tuple(o[k] for k in ks)


def operator__attrgetter(name):
    return lambda o: getattr(o, name)


def operator__methodcaller(name, *a, **k):
    return lambda o: getattr(o, name)(*a, **k)
