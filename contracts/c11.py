from pyvc.driver import contract
from contracts.common import *
from contracts.c06 import *


def problem(S, L):
    """an unsolved mask region: the mask sampled at twice the bandlimit, any quadrature weights"""
    m = S.mask("mask array", (2 * L + 1, 4 * L))
    w = S.arr("weight", (2 * L + 1, 4 * L))
    return S.obj(ARBITRARY, L=L, mask_name="m", _fields=S.dict(), N=S.int("N", 1, L * L, sample=(1, 2, 4, 9)), **unsolved_fields(S, _resolution=2 * L, mask=m, _weight=w)), m, w


def inner(S, L, m, w):
    """quadrature over the region of Y_i conj(Y_j)"""
    R = 2 * L
    th, ph = lambda t: S.theta(t, R), lambda p: S.phi(p, R)
    return lambda i, j: S.sum(0, R + 1, lambda t: S.sum(0, 2 * R, lambda p: S.at(m, t, p) * S.at(w, t, p)
                                                        * S.ylm_ind(i, th(t), ph(p)) * S.conj(S.ylm_ind(j, th(t), ph(p)))))


@contract("C11", uses=["c06.invert_boosted", "c19.spherical_harmonic", "c05.integrate"], samples=30)
def integral(S):
    """one entry, first with nothing remembered and then with the fields of the earlier call"""
    L = sample_L(S, sample=(1, 2, 3, 4))
    o, m, w = problem(S, L)
    want = inner(S, L, m, w)
    i, j, k = [S.int(x, 0, L * L - 1, sample=(0, 1, 2, 3, 5, 8)) for x in "ijk"]
    S.equal("first", S.method(o, "_integral", i, j), want(i, j))
    S.equal("with the fields remembered", S.method(o, "_integral", k, i), want(k, i))
    S.equal("again", S.method(o, "_integral", j, j), want(j, j))
    S.unchanged("mask array", "weight")


@contract("C11", uses=["c11.integral", "c11.symmetries", "c14"], samples=20, budget=100)
def localisation_matrix(S):
    """what the workers fill in is the lower triangle of the inner products, however many there are"""
    L = sample_L(S, sample=(1, 2, 3))
    n = L * L
    o = S.obj(ARBITRARY, L=L, mask_name="m", N=1, _fields=S.dict(), **unsolved_fields(S, _weight=S.arr("weight", (2 * L + 1, 4 * L))))
    inner = S.harmonic_products(L)

    def integral(self, i, j):
        S.ensure("harmonics of the bandlimit", S.and_(0 <= i, i < n, 0 <= j, j < n))
        return inner(i, j)
    S.patch(ARBITRARY + "._integral", integral)
    S.workers()
    D = S.method(o, "_create_D_matrix")
    S.same_shape("matrix", D, (n, n))

    def lower(i, j):
        S.assume_local(j <= i)
        S.equal("lower triangle", S.at(D, i, j), inner(i, j))
    S.index((n, n), lower)


@contract("C11", samples=30)
def symmetries(S):
    """the inner products are Hermitian for a real mask and real weights, and mirrored in the orders for an order-zero partner"""
    L = sample_L(S, sample=(1, 2, 3, 4))
    o, m, w = problem(S, L)
    I = inner(S, L, m, w)
    l = S.int("l", 0, L - 1, sample=(0, 1, 2, 3))
    a = S.int("m", 1, l, sample=(1, 2, 3)) if S.choice("which", ["mirrored", "Hermitian"]) == "mirrored" else None
    p = S.int("p", 0, L - 1, sample=(0, 1, 2, 3))
    if a is None:
        q = S.int("q", -p, p, sample=(-2, -1, 0, 1, 2))
        k = S.int("k", -l, l, sample=(-2, -1, 0, 1, 2))
        i, j = l * (l + 1) + k, p * (p + 1) + q
        S.equal("Hermitian", I(j, i), S.conj(I(i, j)))
        return
    S.mirrored_harmonics()
    j = p * (p + 1)
    S.equal("mirrored", I(l * (l + 1) - a, j), (-1) ** a * S.conj(I(l * (l + 1) + a, j)))


@contract("C11", "C13", "C21", uses=["c11.localisation_matrix", "c12.fill_upper", "c13.clean", "c24.lookup"], samples=20)
def solve(S):
    """the eigensolver is given the Hermitian matrix of all inner products; its cleaned answer is returned"""
    L = sample_L(S, sample=(1, 2, 3))
    n = L * L
    inner = S.harmonic_products(L)
    o = S.obj(ARBITRARY, L=L, mask_name="m", N=S.int("N", 1, n, sample=(1, 2, 4, 9)), _fields=S.dict(), **unsolved_fields(S, _weight=S.arr("weight", 0)))
    w, v = S.arr("raw eigenvalues", n), S.carr("raw eigenvectors", (n, n))

    def matrix(self):
        return S.build((n, n), "c", lambda i, j: S.where(j <= i, lambda: inner(i, j), lambda: 7))

    def eigh(D, UPLO="L"):
        S.elems("matrix solved", D, (n, n), lambda i, j: inner(i, j))
        return w, v
    S.patch(ARBITRARY + "._create_D_matrix", matrix)
    S.patch("numpy.linalg.eigh", eigh)
    S.store()
    val, vec = S.items(S.method(o, "_solve_eigenproblem"))
    want_val, want_vec = S.items(S.call("sleplet._slepian_arbitrary_methods.clean_evals_and_evecs", (w, v)))
    S.elems("eigenvalues", val, (n,), lambda p: S.at(want_val, p))
    S.elems("eigenvectors", vec, (n, n), lambda p, q: S.at(want_vec, p, q))
