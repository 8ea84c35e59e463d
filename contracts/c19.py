from pyvc.driver import contract
from contracts.common import *

F = "sleplet.functions."


def honest(S, o, L):
    """a signal flagged real has conjugate symmetric coefficients"""
    if S.get(o, "reality"):
        c = S.get(o, "coefficients")

        def one(l, m, q):
            S.mirrored_quadrature(q, l * l + l - m, m)
            S.equal("real signal: f_l-m = (-1)^m conj(f_lm)", S.at(c, l * l + l - m), S.sgn(m) * S.conj(S.at(c, q)))
        S.lm(L, one)


def zonal(S, L, fn):
    return lambda l, m: S.where(S.eq(m, 0), lambda: fn(l), lambda: 0)


def check(S, o, L, fn):
    S.lm_elems("coefficients", S.get(o, "coefficients"), L, fn)
    S.equal("bandlimit", S.get(o, "L"), L)
    honest(S, o, L)


WIDTHS = (0.1, 0.5, 1, 2, 10)


@contract("C19")
def dirac_delta(S):
    L = sample_L(S)
    o = S.new(F + "dirac_delta.DiracDelta", L)
    check(S, o, L, zonal(S, L, lambda l: S.sqrt((2 * l + 1) / (4 * S.pi))))


@contract("C19")
def gaussian(S):
    L = sample_L(S)
    s = S.real("sigma", 0, lo_open=True, sample=WIDTHS) if S.choice("width", ["default", "given"]) == "given" else None
    o = S.new(F + "gaussian.Gaussian", L, sigma=s) if s is not None else S.new(F + "gaussian.Gaussian", L)
    s = 10 if s is None else s
    check(S, o, L, zonal(S, L, lambda l: S.exp(-l * (l + 1) / (2 * s * s))))


@contract("C19")
def harmonic_gaussian(S):
    L = sample_L(S)
    a = S.real("l_sigma", 0, lo_open=True, sample=WIDTHS)
    b = S.real("m_sigma", 0, lo_open=True, sample=WIDTHS)
    o = S.new(F + "harmonic_gaussian.HarmonicGaussian", L, l_sigma=a, m_sigma=b)
    check(S, o, L, lambda l, m: S.exp(-(l / a) * (l / a) / 2 - (m / b) * (m / b) / 2))


@contract("C19")
def identity(S):
    L = sample_L(S)
    o = S.new(F + "identity.Identity", L)
    check(S, o, L, lambda l, m: 1)


@contract("C19")
def spherical_harmonic(S):
    L = sample_L(S)
    l0 = S.int("ell", 0, L - 1, sample=(0, 1, 2, 3, 4))
    m0 = S.int("m", -l0, l0, sample=range(-4, 5))
    o = S.new(F + "spherical_harmonic.SphericalHarmonic", L, ell=l0, m=m0)
    S.elems("coefficients", S.get(o, "coefficients"), (L * L,), lambda q: S.where(S.eq(q, l0 * l0 + l0 + m0), lambda: 1, lambda: 0))
    honest(S, o, L)


def on_grid(S, o, L, fn):
    """harmonic transform of the documented function on the sampling grid"""
    f = S.build((L + 1, 2 * L), "f", lambda t, p: fn(S.theta(t, L), S.phi(p, L)))
    flm = S.ext("pyssht.forward", f, L, Method="MWSS", Reality=True, Spin=0)
    S.elems("coefficients", S.get(o, "coefficients"), (L * L,), lambda q: flm[q])
    S.ensure("real", S.get(o, "reality"))
    S.equal("spin", S.get(o, "spin"), 0)
    honest(S, o, L)


@contract("C19")
def elongated_gaussian(S):
    L = sample_L(S, sample=(1, 2, 3, 5))
    a = S.real("t_sigma", 0, lo_open=True, sample=WIDTHS)
    b = S.real("p_sigma", 0, lo_open=True, sample=WIDTHS)
    o = S.new(F + "elongated_gaussian.ElongatedGaussian", L, t_sigma=a, p_sigma=b)
    on_grid(S, o, L, lambda t, p: S.exp(-(t / a) * (t / a) / 2 - ((p - S.pi) / b) * ((p - S.pi) / b) / 2))


@contract("C19")
def squashed_gaussian(S):
    L = sample_L(S, sample=(1, 2, 3, 5))
    a = S.real("t_sigma", 0, lo_open=True, sample=WIDTHS)
    b = S.real("freq", sample=WIDTHS)
    o = S.new(F + "squashed_gaussian.SquashedGaussian", L, t_sigma=a, freq=b)
    on_grid(S, o, L, lambda t, p: S.exp(-(t / a) * (t / a) / 2) * S.sin(b * p))



def wavelet_args(S, n):
    """valid B, j_min and scale for a tiling up to n (no scale: the scaling function) and the index of the tiling function"""
    B = S.int("B", 2, sample=(2, 3))
    jmin = S.int("j_min", 0, sample=(0, 1))
    jmax = S.ext("pys2let.pys2let_j_max", B, n, jmin)
    S.assume(jmin <= jmax)
    kw = dict(B=B, j_min=jmin)
    j = None
    which = S.choice("scale", ["none", "default", "given"])
    if which == "given":
        j = S.int("j", 0, jmax - jmin, sample=(0, 1, 2))
    elif which == "none":
        kw["j"] = None
    if j is not None:
        kw["j"] = j
    return kw, 0 if j is None else j + 1


def tiling_at(S, n, kw):
    k0, k = S.ext("pys2let.axisym_wav_l", kw["B"], n, kw["j_min"])
    return lambda j, p: S.where(j < 1, lambda: k0[p], lambda: k[p, j - 1]), S.shape(k)[1] + 1


@contract("C19", "C20", uses=["c03.tiling_functions", "c03.wavelets"])
def axisymmetric_wavelets(S):
    L = sample_L(S, sample=(2, 3, 4, 6))
    kw, jth = wavelet_args(S, L)
    S.opaque_names()
    o = S.new(F + "axisymmetric_wavelets.AxisymmetricWavelets", L, **kw)
    kap, J = tiling_at(S, L, kw)
    check(S, o, L, zonal(S, L, lambda l: S.sqrt((2 * l + 1) / (4 * S.pi)) * kap(jth, l)))


RIDGE = F + "ridgelets.Ridgelets"


@contract("C19", "C20", uses=["c03.tiling_functions"])
def ridgelets(S):
    """ring coefficients 2 pi sqrt((2l+1)/4pi) p (-1)^s sqrt((l-s)!/(l+s)!), p = (-1)^((l+s)/2) (l+s)!/(2^l ((l+s)/2)! ((l-s)/2)!)
    for even l+s = 2h; zero for odd l+s"""
    L = sample_L(S, sample=(2, 3, 4, 6))
    l = S.int("degree", 0, L - 1, sample=range(6))
    odd = S.choice("parity", ["even", "odd"]) == "odd"
    h = S.int("h", 0, l - 1 if odd else l, sample=range(6))
    s = 2 * h - l + (1 if odd else 0)
    kw, jth = wavelet_args(S, L)
    S.opaque_names()
    o = S.new(RIDGE, L, spin=s, **kw)
    kap, J = tiling_at(S, L, kw)
    got = S.getitem(S.get(o, "coefficients"), l * l + l)
    if odd:
        S.equal("odd degrees vanish", got, 0)
        return
    p = S.sgn(h) * S.fact(2 * h) / (S.exp(l * S.log(2)) * S.fact(h) * S.fact(l - h))
    ring = 2 * S.pi * S.sqrt((2 * l + 1) / (4 * S.pi)) * p * S.sgn(s) * S.sqrt(S.fact(2 * l - 2 * h) / S.fact(2 * h))
    scale = S.where(S.eq(jth, 0), lambda: 1, lambda: 1 / S.sqrt(2 * S.pi))
    S.equal("ring times tiling", got, kap(jth, l) * ring * scale)


@contract("C19", uses=["c03.tiling_functions"])
def ridgelets_elsewhere(S):
    L = sample_L(S, sample=(2, 3, 4, 6))
    s = S.int("spin", sample=(0, 1, 2, 3, -1, -2))
    kw, jth = wavelet_args(S, L)
    S.opaque_names()
    o = S.new(RIDGE, L, spin=s, **kw)
    c = S.get(o, "coefficients")
    S.same_shape("coefficients", c, (L * L,))

    def zero(l, m, q):
        S.equal("zero away from m = 0 and below the spin", S.where(S.or_(S.not_(S.eq(m, 0)), l < abs(s)), lambda: S.at(c, q), lambda: 0), 0)
    S.lm(L, zero)
    S.equal("spin", S.get(o, "spin"), s)
    honest(S, o, L)
