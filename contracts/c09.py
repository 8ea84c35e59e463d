from pyvc.driver import contract
from contracts.common import *

H = "sleplet.slepian.slepian_polar_cap.SlepianPolarCap"


def factorial(S, k):
    return S.fact(k)


def racah(S, l1, l2, l3, m1, m2, m3):
    """Racah's formula, zero outside the selection rules"""
    ok = S.and_(S.eq(m1 + m2 + m3, 0), l3 >= abs(l1 - l2), l3 <= l1 + l2, abs(m1) <= l1, abs(m2) <= l2, abs(m3) <= l3)
    F = S.fact

    def value():
        lo = S.max(S.max(0, l2 - l3 - m1), l1 - l3 + m2)
        hi = S.min(S.min(l1 + l2 - l3, l1 - m1), l2 + m2)
        s = S.sum(lo, hi + 1, lambda t: S.sgn(t) / (F(t) * F(l3 - l2 + m1 + t) * F(l3 - l1 - m2 + t) * F(l1 + l2 - l3 - t) * F(l1 - m1 - t) * F(l2 + m2 - t)))
        tri = F(l1 + l2 - l3) * F(l1 - l2 + l3) * F(-l1 + l2 + l3) / F(l1 + l2 + l3 + 1)
        return S.sgn(l1 - l2 - m3) * S.sqrt(tri) * S.sqrt(F(l1 + m1) * F(l1 - m1) * F(l2 + m2) * F(l2 - m2) * F(l3 + m3) * F(l3 - m3)) * s
    return S.where(ok, value, lambda: 0)


@contract("C09", samples=60)
def wigner3j(S):
    l1, l2, l3 = [S.int(n, 0, sample=(0, 1, 2, 3, 4, 7, 12)) for n in ("l1", "l2", "l3")]
    m1, m2, m3 = [S.int(n, sample=(0, 1, -1, 2, -2, 3, -4)) for n in ("m1", "m2", "m3")]
    if S.choice("m3", ["free", "balanced"]) == "balanced":
        m3 = -m1 - m2
    r = S.call(H + "._wigner3j", l1, l2, l3, m1, m2, m3)
    S.equal("Racah formula", r, racah(S, l1, l2, l3, m1, m2, m3))


@contract("C09", samples=40)
def wigner3j_selection(S):
    """zero outside the selection rules, for integers and half-integers"""
    l1, l2, l3 = [S.int("twice " + n, 0, sample=(0, 1, 1, 2, 3, 4, 7)) for n in ("l1", "l2", "l3")]
    m1, m2 = [S.int("twice " + n, sample=(0, 1, -1, 2, -3)) for n in ("m1", "m2")]
    m3 = -m1 - m2
    match S.choice("rule", ["orders", "below", "above", "m1", "m2", "m3", "sum"]):
        case "orders":
            m3 = S.int("twice m3", sample=(0, 1, -1, 2, 5))
            S.assume(S.not_(S.eq(m1 + m2 + m3, 0)))
        case "below":
            S.assume(l3 < abs(l1 - l2))
        case "above":
            S.assume(l3 > l1 + l2)
        case "m1":
            S.assume(abs(m1) > l1)
        case "m2":
            S.assume(abs(m2) > l2)
        case "m3":
            S.assume(abs(m3) > l3)
        case "sum":
            k = S.int("k", 0, sample=range(12))
            S.assume(S.eq(l1 + l2 + l3, 2 * k + 1))
    S.equal("zero", S.call(H + "._wigner3j", *[x / 2 for x in (l1, l2, l3, m1, m2, m3)]), 0)


@contract("C09", samples=30)
def wigner3j_refusals(S):
    a = [S.real(n, -4, 4, sample=(0.25, 1.7, 2, 3, -1, 0.1)) for n in ("l1", "l2", "l3", "m1", "m2", "m3")]
    S.assume(S.or_(*[S.not_(S.eq(2 * x, S.floor(2 * x))) for x in a]))
    S.raises("neither integer nor half-integer", ("ValueError",), lambda: S.call(H + "._wigner3j", *a))


def legendre(S, k, theta):
    """P_k(cos theta), with P_{-1} = 1"""
    return S.where(k < 0, lambda: 1, lambda: S.sqrt(4 * S.pi / (2 * k + 1)) * S.re(S.ylm(k, 0, theta, 0)))


def d_entry(S, l, p, m, theta, gap):
    def term(t):
        n = t + abs(l - p)
        return S.w3j(l, n, p, 0, 0, 0) * S.w3j(l, n, p, m, 0, -m) * (legendre(S, n - 1, theta) - legendre(S, n + 1, theta))
    s = S.sum(0, l + p + 1 - abs(l - p), term)
    return S.sgn(m) / 2 * S.sqrt((2 * l + 1) * (2 * p + 1)) * s * (1 + S.sgn(l + p) if gap else 1)


def cap(S, Ls=(1, 2, 3, 4)):
    L = sample_L(S, sample=Ls)
    theta = S.real("theta_max", 0, S.pi, lo_open=True)
    gap = S.choice("gap", [False, True])
    return S.obj(H, L=L, theta_max=theta, gap=gap), L, theta, gap


def orders(S, L):
    """orders m of the harmonic indices of bandlimit 2L (contract c09.order_vector)"""
    return S.build((4 * L * L,), "f", lambda q: q - S.isqrt(q) * S.isqrt(q) - S.isqrt(q))


@contract("C09", "C13")
def order_vector(S):
    L = sample_L(S)
    emm = S.call("sleplet.harmonic_methods._create_emm_vector", L)
    S.lm_elems("orders", emm, 2 * L, lambda l, m: m)


@contract("C09", uses=["c09.order_vector"])
def legendre_table(S):
    o, L, theta, gap = cap(S)
    Pl, ell = S.method(o, "_create_legendre_polynomials_table", orders(S, L))
    S.elems("P_l(cos theta)", Pl, (1, 2 * L), lambda i, k: legendre(S, k, theta))
    S.elems("degrees", ell, (1, 2 * L), lambda i, k: k)


@contract("C09", uses=["c09.wigner3j", "c09.legendre_table", "c14"], samples=16)
def localisation_matrix(S):
    o, L, theta, gap = cap(S)
    S.use_w3j()
    S.workers()
    m = S.int("m", 0, L - 1, sample=(0, 1, 2, 3))
    emm = orders(S, L)
    D = S.method(o, "_create_Dm_matrix", m, emm)
    S.elems("matrix", D, (L - m, L - m), lambda i, j: d_entry(S, S.min(i, j) + m, S.max(i, j) + m, m, theta, gap))
