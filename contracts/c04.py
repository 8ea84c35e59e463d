from pyvc.driver import contract
from contracts.common import *

W = "sleplet.wavelet_methods."


@contract("C04")
def trailing_scales(S):
    """only all-zero scales after the last non-zero one are left out; entry j stays scale j"""
    J, n = S.int("scales", 0, sample=(1, 2, 3, 4)), S.int("n", 0, sample=(1, 2, 5))
    sparse = lambda r, sh: (r.normal(size=sh) + 1j * r.normal(size=sh)) * (r.random(sh) < 0.3) * (r.random((sh[0],) + (1,) * (len(sh) - 1)) < 0.6)
    three = S.choice("dimensions", [2, 3]) == 3
    k = S.int("k", 0, sample=(1, 2)) if three else None
    c = S.carr("wav_coeffs", (J, n, k) if three else (J, n), make=sparse)
    r = S.call(W + "find_non_zero_wavelet_coefficients", c, axis=(1, 2) if three else 1)
    m = S.len(r)
    S.ensure("no more scales than given", S.and_(m >= 0, m <= J))
    S.elems("kept scales", r, (m, n, k) if three else (m, n), lambda *i: c[i])

    def dropped(j, *i):
        S.assume_local(j >= m)
        S.beyond_last(m, J, j)
        S.instantiate(*i)
        S.ensure("left-out scales are zero", S.eq(c[(j,) + i], 0))
    S.index((J, n, k) if three else (J, n), dropped)
    S.unchanged("wav_coeffs")


def setup(S):
    J = S.int("scales", 1, sample=(1, 2, 3, 4))
    n = S.int("n", 1, sample=(1, 3, 4, 9))
    N = S.int("N", 1, n, sample=(1, 2, 3, 4, 6))
    return J, n, N


@contract("C04", uses=["c01.sifting_stack_single", "c04.trailing_scales"])
def analysis(S):
    J, n, N = setup(S)
    w = S.arr("wavelets", (J, n))
    f = S.carr("f_p", n if S.choice("length", ["n", "N"]) == "n" else N)
    S.assume(S.or_(S.eq(S.len(f), n), S.eq(N, n)))
    r = S.call(W + "slepian_wavelet_forward", f, w, N)
    m = S.len(r)
    S.ensure("no more scales than given", S.and_(m >= 0, m <= J))
    S.elems("coefficients", r, (m, N), lambda j, p: w[j, p] * S.conj(f[p]))

    def dropped(j, p):
        S.assume_local(j >= m)
        S.beyond_last(m, J, j)
        S.instantiate(p)
        S.ensure("left-out scales are zero", S.eq(w[j, p] * S.conj(f[p]), 0))
    S.index((J, N), dropped)
    S.unchanged("wavelets", "f_p")


@contract("C04", uses=["c01.sifting_stack_stack"])
def synthesis(S):
    J, n, N = setup(S)
    m = S.int("scales kept", 0, J, sample=(0, 1, 2, 3))
    w, c = S.arr("wavelets", (J, n)), S.carr("wav_coeffs", (m, N))
    r = S.call(W + "slepian_wavelet_inverse", c, w, N)
    S.elems("signal", r, (N,), lambda p: S.sum(0, m, lambda j: w[j, p] * S.conj(c[j, p])))
    S.unchanged("wavelets", "wav_coeffs")


@contract("C04", uses=["c04"])
def round_trip(S):
    J, n, N = setup(S)
    w, f = S.tiling("wavelets", J, n), S.carr("f_p", n)
    c = S.call(W + "slepian_wavelet_forward", f, w, N)
    m = S.len(c)
    r = S.call(W + "slepian_wavelet_inverse", c, w, N)
    # sum over the kept scales = sum over all scales (the others vanish) = f_p
    S.elems("signal", r, (N,), lambda p: S.sum(0, m, lambda j: w[j, p] * w[j, p] * f[p]))

    def dropped(j, p):
        S.assume_local(j >= m)
        S.beyond_last(m, J, j)
        S.instantiate(p)
        S.ensure("terms of left-out scales vanish", S.eq(w[j, p] * w[j, p] * f[p], 0))
    S.index((J, N), dropped)
    S.forall("sum over all scales", (N,), lambda p: S.close(S.sum(0, J, lambda j: w[j, p] * w[j, p] * f[p]), f[p]))
