from pyvc.driver import contract
from contracts.common import *


# names as the library makes them: with and without a region, noise or smoothing
NAMES = ["signal_L5", "gaussian_1000sig_polar40_L5", "earth_10noise_2smoothed_L5"]
DIRAC_NAMES = ["dirac_delta_L5", "dirac_delta_polar40_L5", "dirac_delta_10noise_L5", "dirac_delta_polar40_10noise_2smoothed_L5"]
SLEPIAN_DIRAC_NAMES = ["slepian_dirac_delta_polar40_L5", "slepian_dirac_delta_africa_5noise_L5"]


@contract("C02", uses=["c01"])
def translate_harmonic(S):
    L = sample_L(S)
    flm = S.carr("flm", L * L)
    cls = function_class(S, [c for c in FLM_CLASSES if "DiracDelta" not in c], "translate", "_translation_helper", "convolve")
    o = S.obj(cls, L=L, coefficients=flm, reality=True, name=S.choice("name", NAMES))
    al = S.real("alpha", 0, 6.28)
    be = S.real("beta", 0, 3.14)
    r = S.method(o, "translate", al, be)
    S.lm_elems("translated", r, L, lambda l, m: flm[l * l + l + m] * S.ylm(l, m, be, al))
    S.unchanged("flm")


@contract("C02")
def translate_dirac(S):
    L = sample_L(S)
    flm = S.carr("flm", L * L)
    o = S.obj("sleplet.functions.dirac_delta.DiracDelta", L=L, coefficients=flm, reality=True, name=S.choice("name", DIRAC_NAMES))
    al = S.real("alpha", 0, 6.28)
    be = S.real("beta", 0, 3.14)
    r = S.method(o, "translate", al, be)
    S.lm_elems("translated", r, L, lambda l, m: S.conj(S.ylm(l, m, be, al)))
    S.unchanged("flm")


@contract("C02")
def rotate_harmonic(S):
    L = sample_L(S)
    flm = S.carr("flm", L * L)
    o = S.obj(function_class(S, FLM_CLASSES, "rotate"), L=L, coefficients=flm, reality=True, name="f_L")
    al, be, ga = S.real("alpha", 0, 6.28), S.real("beta", 0, 3.14), S.real("gamma", 0, 6.28)
    given = S.choice("gamma given", [True, False])
    r = S.method(o, "rotate", al, be, gamma=ga) if given else S.method(o, "rotate", al, be)
    g = ga if given else 0
    S.lm_elems("rotated", r, L, lambda l, m: S.sum(-l, l + 1, lambda n: S.exp(-S.I * m * al) * S.dl(l, m, n, be)
                                                  * S.exp(-S.I * n * g) * flm[l * l + l + n]))
    S.unchanged("flm")


@contract("C02")
def rotate_slepian(S):
    L = sample_L(S)
    o = S.obj(function_class(S, FP_CLASSES, "rotate"), L=L, coefficients=S.carr("fp", L * L), reality=True, name="f_L")
    S.raises("rotation of a Slepian signal", ["NotImplementedError"],
             lambda: S.method(o, "rotate", S.real("alpha"), S.real("beta"), gamma=S.real("gamma")))
    S.unchanged("fp")


@contract("C02", uses=["c01", "c06"])
def translate_slepian(S):
    L = sample_L(S, sample=(1, 2, 3, 4, 5))
    sl, N, vec, val = slepian_object(S, L)
    f = S.carr("f_p", L * L)
    o = S.obj(function_class(S, [c for c in FP_CLASSES if "DiracDelta" not in c], "translate", "_translation_helper", "convolve"), L=L, coefficients=f, slepian=sl, reality=True, name=S.choice("name", NAMES))
    t, p = S.int("t", 0, L, sample=range(6)), S.int("p", 0, 2 * L - 1, sample=range(10))
    sh = S.choice("shannon", [None, "N", "n"])
    n = S.int("n", 0, sample=(0, 1, 2, 4, 30)) if sh == "n" else N
    al, be = S.phi(p, L), S.theta(t, L)
    r = S.method(o, "translate", al, be, shannon=n) if sh else S.method(o, "translate", al, be)
    S.elems("translated", r, (S.min(n, L * L) if sh else L * L,), lambda k: S.where(k < N, lambda: f[k] * S.sum(0, L * L, lambda q: vec[k, q] * S.ylm_ind(q, be, al)), lambda: 0))
    S.unchanged("f_p", "eigenvectors")


@contract("C02", uses=["c06"])
def translate_slepian_dirac(S):
    L = sample_L(S, sample=(1, 2, 3, 4, 5))
    sl, N, vec, val = slepian_object(S, L)
    o = S.obj("sleplet.functions.slepian_dirac_delta.SlepianDiracDelta", L=L, coefficients=S.carr("f_p", L * L), slepian=sl, reality=True, name=S.choice("name", SLEPIAN_DIRAC_NAMES))
    t, p = S.int("t", 0, L, sample=range(6)), S.int("p", 0, 2 * L - 1, sample=range(10))
    al, be = S.phi(p, L), S.theta(t, L)
    r = S.method(o, "translate", al, be)
    S.elems("translated", r, (L * L,), lambda k: S.where(k < N, lambda: S.conj(S.sum(0, L * L, lambda q: vec[k, q] * S.ylm_ind(q, be, al))), lambda: 0))
