from pyvc.driver import contract
from contracts.common import *

M = "sleplet.slepian_methods."


def s_p(S, L, vec, p, t, q):
    return S.sum(0, L * L, lambda k: vec[p, k] * S.ylm_ind(k, S.theta(t, L), S.phi(q, L)))


@contract("C06")
def basis_on_sphere(S):
    L = sample_L(S)
    sl, N, vec, val = slepian_object(S, L)
    r = S.call(M + "compute_s_p_omega", L, sl)
    S.elems("basis", r, (N, L + 1, 2 * L), lambda p, t, q: s_p(S, L, vec, p, t, q))
    S.unchanged("eigenvectors")


@contract("C06", uses=["c06.basis_on_sphere"])
def basis_at_direction(S):
    L = sample_L(S, sample=(1, 2, 3, 4, 6, 7))
    sl, N, vec, val = slepian_object(S, L)
    t, q = S.int("t", 0, L, sample=range(8)), S.int("q", 0, 2 * L - 1, sample=range(14))
    # the direction need not be a sample: anything closer than half a step belongs to the sample
    a, b = (S.real(n, sample=(0.0, 0.3, -0.45, 0.49)) for n in ("offset of alpha", "offset of beta"))
    for x in (a, b):
        S.assume(S.and_(2 * x < 1, 2 * x > -1))
    r = S.call(M + "_compute_s_p_omega_prime", L, S.phi(q, L) + a * S.pi / L, S.theta(t, L) + b * S.pi / L, sl)
    S.elems("values", r, (L * L,), lambda p: S.where(p < N, lambda: s_p(S, L, vec, p, t, q), lambda: 0))


@contract("C06", uses=["c06.basis_on_sphere"])
def inverse(S):
    L = sample_L(S)
    sl, N, vec, val = slepian_object(S, L)
    n = S.choice("length of f_p", ["N", "L^2"])
    f = S.carr("f_p", N if n == "N" else L * L)
    r = S.call(M + "slepian_inverse", f, L, sl)
    S.elems("field", r, (L + 1, 2 * L), lambda t, q: S.sum(0, N, lambda p: f[p] * s_p(S, L, vec, p, t, q)))
    S.unchanged("f_p", "eigenvectors")


@contract("C06")
def boost(S):
    n, k = S.int("n", 0, sample=(0, 1, 4, 9)), S.int("k", 0, sample=(0, 1, 5))
    f = S.carr("f", n)
    r = S.call("sleplet.harmonic_methods._boost_coefficient_resolution", f, k)
    S.elems("padded", r, (n + k,), lambda i: S.where(i < n, lambda: f[i], lambda: 0))
    S.unchanged("f")


@contract("C06", "C22", uses=["c06.boost"])
def invert_boosted(S):
    L = sample_L(S)
    R = S.int("resolution", L, sample=(1, 2, 3, 4, 5, 6))
    f = S.carr("flm", L * L)
    r = S.call("sleplet.harmonic_methods.invert_flm_boosted", f, L, R)
    S.elems("field", r, (R + 1, 2 * R), lambda t, q: S.sum(0, L * L, lambda k: f[k] * S.ylm_ind(k, S.theta(t, R), S.phi(q, R))))
    S.unchanged("flm")


@contract("C06", uses=["c05"])
def round_trip(S):
    """synthesis, harmonic transform, analysis: the first N coefficients come back"""
    L = sample_L(S)
    sl, N, vec, val = slepian_object(S, L, orthonormal=True)
    f = S.carr("f_p", L * L)
    field = S.call(M + "slepian_inverse", f, L, sl)
    flm = S.ext("pyssht.forward", field, L, Method="MWSS")
    r = S.call(M + "slepian_forward", L, sl, flm=flm)
    S.elems("coefficients", r, (N,), lambda p: f[p])
