from pyvc.driver import contract
from contracts.common import *

W = "sleplet.wavelet_methods."


def params(S, squared=False, Ls=(2, 3, 4, 6)):
    L = sample_L(S, sample=Ls)
    B = S.int("B", 2, sample=(2, 3, 4))
    jmin = S.int("j_min", 0, sample=(0, 1, 2))
    return L, B, jmin


def tilings(S, n, B, jmin):
    """scaling function then wavelets in increasing scale, as pys2let defines them"""
    k0, k = S.ext("pys2let.axisym_wav_l", B, n, jmin)
    J = S.shape(k)[1] + 1
    return J, lambda j, p: S.where(j < 1, lambda: k0[p], lambda: k[p, j - 1])


def scale_precondition(S, n, B, jmin):
    jmax = S.ext("pys2let.pys2let_j_max", B, n, jmin)
    S.assume(jmin <= jmax)
    return jmax


@contract("C03", "C04", "C20")
def tiling_functions(S):
    n = S.int("x limit", 1, sample=(2, 3, 4, 9, 16))
    B, jmin = S.int("B", 2, sample=(2, 3, 4)), S.int("j_min", 0, sample=(0, 1, 2))
    scale_precondition(S, n, B, jmin)
    r = S.call(W + "create_kappas", n, B, jmin)
    J, kap = tilings(S, n, B, jmin)
    S.elems("tiling", r, (J, n), kap)


@contract("C03", uses=["c03.tiling_functions"])
def wavelets(S):
    L, B, jmin = params(S)
    scale_precondition(S, L, B, jmin)
    r = S.call(W + "_create_axisymmetric_wavelets", L, B, jmin)
    J, kap = tilings(S, L, B, jmin)
    S.lm_elems("wavelet", r, L, lambda j, l, m: S.where(S.eq(m, 0), lambda: S.sqrt((2 * l + 1) / (4 * S.pi)) * kap(j, l), lambda: 0), lead=(J,))


@contract("C03")
def analysis(S):
    L = sample_L(S)
    J = S.int("scales", 0, sample=(1, 2, 3))
    w = S.carr("wavelets", (J, L * L)) if S.choice("wavelets are", ["complex", "real"]) == "complex" else S.arr("wavelets", (J, L * L))
    f = S.carr("flm", L * L) if S.choice("flm is", ["complex", "real"]) == "complex" else S.arr("flm", L * L)
    r = S.call(W + "axisymmetric_wavelet_forward", L, f, w)
    S.lm_elems("coefficients", r, L,
               lambda j, l, m: S.sqrt(4 * S.pi / (2 * l + 1)) * S.conj(w[j, l * l + l]) * f[l * l + l + m], lead=(J,))
    S.unchanged("wavelets", "flm")


@contract("C03")
def synthesis(S):
    L = sample_L(S)
    J = S.int("scales", 0, sample=(1, 2, 3))
    w = S.carr("wavelets", (J, L * L)) if S.choice("wavelets are", ["complex", "real"]) == "complex" else S.arr("wavelets", (J, L * L))
    c = S.carr("wav_coeffs", (J, L * L))
    r = S.call(W + "axisymmetric_wavelet_inverse", L, c, w)
    S.lm_elems("signal", r, L, lambda l, m: S.sum(0, J, lambda j: c[j, l * l + l + m] * S.sqrt(4 * S.pi / (2 * l + 1)) * w[j, l * l + l]))
    S.unchanged("wavelets", "wav_coeffs")


@contract("C03", uses=["c03"])
def round_trip(S):
    """exact reconstruction for every tiling with sum_j kappa_j(l)^2 = 1"""
    L = sample_L(S)
    J = S.int("scales", 1, sample=(1, 2, 3))
    kap, f = S.tiling("kappas", J, L), S.carr("flm", L * L)
    w = S.build((J, L * L), "c", lambda j, q: kap_at(S, kap, L, j, q))
    c = S.call(W + "axisymmetric_wavelet_forward", L, f, w)
    r = S.call(W + "axisymmetric_wavelet_inverse", L, c, w)
    S.lm_elems("signal", r, L, lambda l, m: f[l * l + l + m])


def kap_at(S, kap, L, j, q):
    l = S.isqrt(q)
    return S.where(S.eq(q, l * l + l), lambda: S.sqrt((2 * l + 1) / (4 * S.pi)) * S.at(kap, j, l), lambda: 0)
