from pyvc.driver import contract
from contracts.common import *

NZ = "sleplet.noise."


@contract("C18")
def threshold(S):
    """samples at or above n_sigma*sigma_j stay, the others become zero"""
    a, b = S.int("rows", 1, sample=(1, 2, 3)), S.int("columns", 1, sample=(1, 2, 4))
    cplx = S.choice("field", ["real", "complex"]) == "complex"
    f = S.carr("f", (a, b)) if cplx else S.arr("f", (a, b))
    pointwise = S.choice("noise level", ["single", "pointwise"]) == "pointwise"
    sig = S.arr("sigma", (a, b), lo=0) if pointwise else S.real("sigma", 0, sample=(0, 0.5, 1))
    n = S.int("n_sigma", 0, sample=(0, 1, 2, 3))
    r = S.call(NZ + "_perform_hard_thresholding", f, sig, n)
    S.elems("thresholded", r, (a, b), lambda i, j: S.where(abs(f[i, j]) >= n * (sig[i, j] if pointwise else sig), lambda: f[i, j], lambda: 0))
    S.unchanged("f")


def keep(S, x, level):
    return S.where(abs(x) >= level, lambda: x, lambda: 0)


@contract("C18", uses=["c18.threshold"])
def harmonic(S):
    L = sample_L(S, sample=(1, 2, 3, 4))
    J = S.int("scales", 1, sample=(1, 2, 3))
    w = S.carr("wavelet coefficients", (J, L * L))
    sig = S.arr("sigma_j", (J - 1,), lo=0)
    n = S.int("n_sigma", 0, sample=(0, 1, 2, 3))
    w0 = S.old("wavelet coefficients")
    r = S.call(NZ + "harmonic_hard_thresholding", L, w, sig, n)

    def field(j, t, p):
        return S.sum(0, L * L, lambda q: S.at(w0, j, q) * S.ylm_ind(q, S.theta(t, L), S.phi(p, L)))

    def one(j):
        f = S.build((L + 1, 2 * L), "c", lambda t, p: keep(S, field(j + 1, t, p), n * sig[j]))
        flm = S.ext("pyssht.forward", f, L, Method="MWSS")
        S.index((L * L,), lambda q: S.equal("level j applied to wavelet j", r[j + 1, q], flm[q]))
    S.same_shape("result", r, (J, L * L))
    S.index((J - 1,), one)
    S.index((L * L,), lambda q: S.equal("scaling coefficients left alone", r[0, q], S.at(w0, 0, q)))
    S.unchanged("sigma_j")


def sphere_field(S, L, coef, vec, N):
    """Slepian synthesis at a sample: sum over p < N of coef(p) S_p"""
    return lambda t, u: S.sum(0, N, lambda p: coef(p) * S.sum(0, L * L, lambda q: vec[p, q] * S.ylm_ind(q, S.theta(t, L), S.phi(u, L))))


def quadrature(S, L, f, vec, p):
    def term(t, u):
        s = S.conj(S.sum(0, L * L, lambda k: vec[p, k] * S.ylm_ind(k, S.theta(t, L), S.phi(u, L))))
        return f(t, u) * s * S.sin(S.theta(t, L)) * (S.pi / L) * (S.pi / L)
    return S.sum(0, L + 1, lambda t: S.sum(0, 2 * L, lambda u: term(t, u)))


@contract("C18", uses=["c18.threshold", "c05", "c06"])
def slepian_functions(S):
    L = sample_L(S, sample=(1, 2, 3))
    sl, N, vec, val = slepian_object(S, L)
    f = S.carr("coefficients", L * L)
    sig = S.real("sigma", 0, sample=(0, 0.01, 0.1, 0.5))
    n = S.int("n_sigma", 0, sample=(0, 1, 2, 3))
    r = S.call(NZ + "slepian_function_hard_thresholding", L, f, sig, n, sl)
    field = sphere_field(S, L, lambda p: f[p], vec, N)
    S.elems("thresholded", r, (N,), lambda p: quadrature(S, L, lambda t, u: keep(S, field(t, u), n * sig), vec, p))
    S.unchanged("coefficients", "eigenvectors")


@contract("C18", uses=["c18.threshold", "c05", "c06"], budget=240)
def slepian_wavelets(S):
    L = sample_L(S, sample=(1, 2, 3))
    sl, N, vec, val = slepian_object(S, L)
    J = S.int("scales", 1, sample=(1, 2, 3))
    w = S.carr("wavelet coefficients", (J, N))
    w0 = S.old("wavelet coefficients")
    pointwise = S.choice("noise level", ["per scale", "pointwise"]) == "pointwise"
    sig = S.arr("sigma_j", (J, L + 1, 2 * L) if pointwise else (J,), lo=0)
    n = S.int("n_sigma", 0, sample=(0, 1, 2, 3))
    r = S.call(NZ + "slepian_wavelet_hard_thresholding", L, w, sig, n, sl)

    def want(j, p):
        field = sphere_field(S, L, lambda i: S.at(w0, j, i), vec, N)
        lev = (lambda t, u: n * sig[j, t, u]) if pointwise else (lambda t, u: n * sig[j])
        return quadrature(S, L, lambda t, u: keep(S, field(t, u), lev(t, u)), vec, p)
    S.elems("level j applied to coefficient set j", r, (J, N), want)
    S.unchanged("sigma_j", "eigenvectors")


@contract("C18", uses=["c18.threshold", "c07", "c08"])
def slepian_mesh(S):
    ms, m, nv, k, N, s = mesh_slepian_object(S)
    J = S.int("scales", 1, sample=(1, 2, 3))
    w = S.arr("wavelet coefficients", (J, N))
    w0 = S.old("wavelet coefficients")
    pointwise = S.choice("noise level", ["per scale", "pointwise"]) == "pointwise"
    sig = S.arr("sigma_j", (J, nv) if pointwise else (J,), lo=0)
    n = S.int("n_sigma", 0, sample=(0, 1, 2, 3))
    r = S.call(NZ + "slepian_mesh_hard_thresholding", ms, w, sig, n)
    b = S.get(m, "basis_functions")

    def fn(p, v):
        return S.sum(0, k, lambda i: s[p, i] * S.at(b, i, v))

    def want(j, p):
        def u(v):
            f = S.sum(0, N, lambda i: S.at(w0, j, i) * fn(i, v))
            return keep(S, f, n * (sig[j, v] if pointwise else sig[j]))
        return S.sum(0, nv, lambda v: u(v) * fn(p, v))
    S.elems("level j applied to coefficient set j", r, (J, N), want)
    S.unchanged("sigma_j", "slepian_functions")


def power(S, f, n):
    return S.sum(0, n, lambda k: abs(f[k]) * abs(f[k]))


def sigma(S, f, n, snr, d):
    return S.sqrt(S.exp(-snr / 10 * S.log(10)) * power(S, f, n) / d)


@contract("C18", uses=["c17.sigma_noise"])
def level_axisymmetric(S):
    n, J = S.int("coefficients", 1, sample=(1, 4, 9)), S.int("scales", 1, sample=(1, 2, 3))
    f, psi = S.carr("signal", n), S.carr("wavelets", (J, n))
    snr = S.real("snr", sample=(-10, -5, 0, 3.5, 10))
    r = S.call(NZ + "_compute_sigma_j", f, psi, snr)
    S.elems("sigma_j", r, (J,), lambda j: sigma(S, f, n, snr, n) * S.sqrt(S.sum(0, n, lambda k: abs(psi[j, k]) * abs(psi[j, k]))))
    S.unchanged("signal", "wavelets")


@contract("C18", uses=["c17.sigma_noise", "c06"])
def level_slepian(S):
    L = sample_L(S, sample=(1, 2, 3))
    sl, N, vec, val = slepian_object(S, L)
    J = S.int("scales", 1, sample=(1, 2, 3))
    n = S.int("coefficients", 1, sample=(1, 4, 9))
    f, psi = S.carr("signal", n), S.arr("wavelets", (J, L * L))
    snr = S.real("snr", sample=(-10, -5, 0, 3.5, 10))
    r = S.call(NZ + "_compute_slepian_sigma_j", L, f, psi, snr, sl)

    def want(j, t, u):
        def s(p):
            return S.sum(0, L * L, lambda q: vec[p, q] * S.ylm_ind(q, S.theta(t, L), S.phi(u, L)))
        return sigma(S, f, n, snr, L * L) * S.sqrt(S.sum(0, N, lambda p: abs(psi[j, p]) * abs(psi[j, p]) * abs(s(p)) * abs(s(p))))
    S.elems("sigma_j", r, (J, L + 1, 2 * L), want)
    S.unchanged("signal", "wavelets", "eigenvectors")


@contract("C18", uses=["c17.sigma_noise", "c07"])
def level_mesh(S):
    ms, m, nv, k, N, s = mesh_slepian_object(S)
    J = S.int("scales", 1, sample=(1, 2, 3))
    n = S.int("coefficients", 1, sample=(1, 4, 9))
    f, psi = S.arr("signal", n), S.arr("wavelets", (J, k))
    snr = S.real("snr", sample=(-10, -5, 0, 3.5, 10))
    r = S.call(NZ + "compute_slepian_mesh_sigma_j", ms, f, psi, snr)
    b = S.get(m, "basis_functions")

    def want(j, v):
        def fn(p):
            return S.sum(0, k, lambda i: s[p, i] * S.at(b, i, v))
        return sigma(S, f, n, snr, k) * S.sqrt(S.sum(0, N, lambda p: psi[j, p] * psi[j, p] * fn(p) * fn(p)))
    S.elems("sigma_j", r, (J, nv), want)
    S.unchanged("signal", "wavelets", "slepian_functions")
