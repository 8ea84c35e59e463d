from pyvc.driver import contract
from contracts.common import *


def rectangle(S):
    t0, t1 = S.real("theta_min", 0, sample=(0.0, 0.3, 1.2)), S.real("theta_max", sample=(0.7, 2.1, 3.141592653589793))
    f0, f1 = S.real("phi_min", 0, sample=(0.0, 0.4, 2.0)), S.real("phi_max", sample=(0.9, 4.0, 6.283185307179586))
    return {"theta_min": t0, "theta_max": t1, "phi_min": f0, "phi_max": f1}


def fourier(S, k, a, b):
    """integral of exp(i k x) over [a, b]"""
    return S.where(S.eq(k, 0), lambda: b - a, lambda: (S.exp(S.I * k * b) - S.exp(S.I * k * a)) / (S.I * k))


def table(S, r):
    """product of the integrals of exp(i m phi) over longitude and of exp(i n theta) sin(theta) over colatitude"""
    lon = lambda m: fourier(S, m, r["phi_min"], r["phi_max"])
    col = lambda n: (fourier(S, n + 1, r["theta_min"], r["theta_max"]) - fourier(S, n - 1, r["theta_min"], r["theta_max"])) / (2 * S.I)
    return lambda m, n: lon(m) * col(n)


@contract("C10", samples=30, budget=100)
def sub_integrals(S):
    L = sample_L(S)
    r = rectangle(S)
    o = S.obj(LATLON, L=L, **r)
    G = S.method(o, "_slepian_integral")
    want = table(S, r)
    S.elems("table", G, (4 * L - 3, 4 * L - 3), lambda i, j: want(i - 2 * (L - 1), j - 2 * (L - 1)))
    S.index((4 * L - 3, 4 * L - 3), lambda i, j: S.equal("conjugate symmetric", S.at(G, 4 * (L - 1) - i, 4 * (L - 1) - j), S.conj(S.at(G, i, j))))


def entry(S, L, dl, G, l, m, p, q):
    s = S.sum(-l, l + 1, lambda a: S.sum(-p, p + 1, lambda b:
              dl(l, a, m) * dl(l, a, 0) * dl(p, b, q) * dl(p, b, 0) * G(m - q, a - b)))
    return S.sqrt((2 * l + 1) * (2 * p + 1)) / (4 * S.pi) * (-S.I) ** (m - q) * s


@contract("C10", samples=12, budget=100)
def double_sum(S):
    """the matrix is the double sum of half-angle Wigner functions with the table, in its lower triangle of degrees"""
    L = sample_L(S, sample=(1, 2, 3, 4))
    d = S.arr("d", (L, 2 * L - 1, 2 * L - 1))
    g = S.carr("table", (4 * L - 3, 4 * L - 3))
    K = S.call(LATLON + "._slepian_matrix", d, L, L - 1, g)
    S.same_shape("matrix", K, (L * L, L * L))
    D = lambda l, a, m: S.at(d, l, L - 1 + a, L - 1 + m)
    G = lambda a, b: S.at(g, 2 * (L - 1) + a, 2 * (L - 1) + b)

    def one(l, k, p, c):
        m, q = k - l, c - p
        S.assume_local(S.and_(p <= l, k <= 2 * l, c <= 2 * p))
        S.equal("entry", S.at(K, l * (l + 1) + m, p * (p + 1) + q), entry(S, L, D, G, l, m, p, q))
    S.index((L, 2 * L - 1, L, 2 * L - 1), one)


def half_angle(S, L):
    """Wigner functions at a right angle"""
    return lambda l, a, m: S.dl(l, a, m, S.pi / 2)


@contract("C10", "C13", uses=["c10.sub_integrals", "c10.double_sum", "c12.fill_upper"], samples=12, budget=100)
def matrix(S):
    """the matrix is the double sum with the exact table in its lower triangle, and Hermitian"""
    L = sample_L(S, sample=(1, 2, 3))
    r = rectangle(S)
    o = S.obj(LATLON, L=L, **r)
    g = S.carr("table", (4 * L - 3, 4 * L - 3))
    S.patch(LATLON + "._slepian_integral", lambda self: g)
    K = S.method(o, "_create_K_matrix")
    S.same_shape("matrix", K, (L * L, L * L))
    D = half_angle(S, L)
    G = lambda a, b: S.at(g, 2 * (L - 1) + a, 2 * (L - 1) + b)

    def one(l, k, p, c):
        m, q = k - l, c - p
        i, j = l * (l + 1) + m, p * (p + 1) + q
        S.assume_local(S.and_(p <= l, k <= 2 * l, c <= 2 * p, j <= i))
        e = entry(S, L, D, G, l, m, p, q)
        S.equal("lower entry", S.at(K, i, j), e)
    S.index((L, 2 * L - 1, L, 2 * L - 1), one)

    def upper(i, j):
        S.assume_local(j > i)
        S.equal("upper entry", S.at(K, i, j), S.conj(S.at(K, j, i)))
    S.index((L * L, L * L), upper)


@contract("C10", "C13", "C21", uses=["c10.matrix", "c13.clean", "c24.lookup"], samples=20)
def solve(S):
    """the eigensolver is given that matrix; its cleaned answer is returned and, of the vectors, the leading N rows are kept on disk"""
    L = sample_L(S)
    n = L * L
    o = S.obj(LATLON, L=L, matrix_location="problem", N=S.int("N", 1, n, sample=(1, 2, 4, 9)))
    M, w, v = S.eigensystem("M", n, "c")
    S.patch(LATLON + "._create_K_matrix", lambda self: M)

    def eigh(D, UPLO="L"):
        S.elems("matrix solved", D, (n, n), lambda i, j: S.at(M, i, j))
        return w, v
    S.patch("numpy.linalg.eigh", eigh)
    S.store()
    val, vec = S.items(S.method(o, "_solve_eigenproblem"))
    want_val, want_vec = S.items(S.method(o, "_clean_evals_and_evecs", (w, v)))
    S.elems("eigenvalues", val, (n,), lambda p: S.at(want_val, p))
    S.elems("eigenvectors", vec, (n, n), lambda p, q: S.at(want_vec, p, q))
