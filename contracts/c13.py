from pyvc.driver import contract
from contracts.common import *
from contracts.c09 import orders

ARB = "sleplet._slepian_arbitrary_methods.clean_evals_and_evecs"
SOLVERS = {"arbitrary": (ARB, "c"), "lat-lon": (LATLON + "._clean_evals_and_evecs", "c"),
           "mesh": ("sleplet.meshes.mesh_slepian.MeshSlepian._clean_evals_and_evecs", "f")}
TIE = 1e-14


def eigensolutions(S, M, val, vec, n, dims=None):
    """sorted, each row the conjugated eigenvector of its eigenvalue, rows orthonormal"""
    S.same_shape("eigenvalues", val, (n,))
    S.same_shape("eigenvectors", vec, (n, n))
    S.forall("non-increasing", (n - 1,), lambda p: S.at(val, p) >= S.at(val, p + 1))
    S.index((n, n), lambda p, i: S.equal("row p belongs to eigenvalue p", S.sum(0, n, lambda k: S.at(M, i, k) * S.conj(S.at(vec, p, k))),
                                         S.at(val, p) * S.conj(S.at(vec, p, i))))
    S.index((n, n), lambda p, q: S.equal("orthonormal rows", S.sum(0, n, lambda k: S.at(vec, p, k) * S.conj(S.at(vec, q, k))), S.ite(S.eq(p, q), 1, 0)))


@contract("C13", samples=40)
def clean(S):
    """the eigensolver's answer becomes rows sorted by decreasing eigenvalue"""
    how = S.choice("solver", list(SOLVERS))
    f, dt = SOLVERS[how]
    n = S.int("n", 1, sample=(1, 2, 3, 4, 9))
    M, w, v = S.eigensystem("M", n, dt)
    val, vec = S.items(S.call(f, (w, v)))
    eigensolutions(S, M, val, vec, n)


@contract("C13", samples=40)
def leading_sign(S):
    """a real leading entry becomes non-negative, before the phase given to repeated eigenvalues"""
    how = S.choice("solver", ["arbitrary", "lat-lon"])
    f, dt = SOLVERS[how]
    n = S.int("n", 1, sample=(1, 2, 3, 4, 9))
    w, lead, rest = S.arr("w", n), S.arr("leading row", n), S.carr("other rows", (n, n))
    if S.concrete and S.choice("spectrum", ["simple", "repeated"]) == "repeated":
        w = S.arr("repeated", n, dt="i", lo=0, hi=2) * 1.0
    v = S.build((n, n), "c", lambda i, j: S.where(S.eq(i, 0), lambda: lead[j], lambda: rest[i, j]))
    val, vec = S.items(S.call(f, (w, v)))

    def one(p):
        tied = S.where(p > 0, lambda: S.ite(abs(S.at(val, p - 1) - S.at(val, p)) < TIE, 1, 0), lambda: 0) > 0 if how == "arbitrary" else False
        x = S.where(tied, lambda: S.at(vec, p, 0) / S.I, lambda: S.at(vec, p, 0))
        S.equal("real", S.im(x), 0)
        S.ensure("not negative", S.re(x) >= 0)
    S.index((n,), one)


def order(S, L):
    if S.choice("order", ["positive", "negative"]) == "positive":
        m = S.int("m", 0, L - 1, sample=(0, 1, 2, 3))
        return m, m
    a = S.int("magnitude of m", 1, L - 1, sample=(1, 2, 3))
    return -a, a


def place(m, a, k):
    """where order m's k-th degree is stored (a = |m|)"""
    l = a + k
    return l * (l + 1) + m


@contract("C13", uses=["c09.order_vector"], samples=40)
def polar_clean(S):
    """the solutions of one order, placed at that order's harmonics"""
    L = sample_L(S)
    m, a = order(S, L)
    n = L - a
    M, w, g = S.eigensystem("M", n, "f")
    o = S.obj(POLAR, L=L, theta_max=1.0, gap=False)
    val, vec = S.items(S.method(o, "_clean_evals_and_evecs", w, g, orders(S, L), m))
    one_order(S, L, m, a, n, M, val, vec)


def one_order(S, L, m, a, n, M, val, vec):
    S.same_shape("eigenvalues", val, (n,))
    S.same_shape("eigenvectors", vec, (n, L * L))
    S.forall("non-increasing", (n - 1,), lambda p: S.at(val, p) >= S.at(val, p + 1))
    S.index((n, n), lambda p, i: S.equal("row p belongs to eigenvalue p", S.sum(0, n, lambda k: S.at(M, i, k) * S.at(vec, p, place(m, a, k))),
                                         S.at(val, p) * S.at(vec, p, place(m, a, i))))
    S.index((n, n), lambda p, q: S.equal("orthonormal rows", S.sum(0, n, lambda k: S.at(vec, p, place(m, a, k)) * S.conj(S.at(vec, q, place(m, a, k)))),
                                         S.ite(S.eq(p, q), 1, 0)))

    def elsewhere(p, q):
        r = S.isqrt(q)
        S.assume_local(S.not_(S.eq(q - r * r - r, m)))
        S.equal("zero at other orders", S.at(vec, p, q), 0)
    S.index((n, L * L), elsewhere)

    def phase(p, k):
        x = S.at(vec, p, place(m, a, k))
        S.equal("real, times i for negative orders", S.ite(m < 0, S.re(x), S.im(x)), 0)
    S.index((n, n), phase)
    S.forall("leading entry not negative", (n,), lambda p: S.re(S.at(vec, p, 0)) >= 0)


@contract("C13", uses=["c13.polar_clean", "c09.localisation_matrix"], samples=30)
def polar_order(S):
    """one order: the eigensolver's answer for that order's matrix, placed at its harmonics"""
    L = sample_L(S)
    m, a = order(S, L)
    n = L - a
    M, w, g = S.eigensystem("M", n, "f")
    o = S.obj(POLAR, L=L, theta_max=1.0, gap=False)
    emm = orders(S, L)

    def matrix(self, m_, emm_):
        S.equal("matrix of the order's magnitude", m_, a)
        S.elems("orders", emm_, (4 * L * L,), lambda q: emm[q])
        return M

    def eigh(D, UPLO="L"):
        S.elems("matrix solved", D, (n, n), lambda i, j: S.at(M, i, j))
        return w, g
    S.patch(POLAR + "._create_Dm_matrix", matrix)
    S.patch("numpy.linalg.eigh", eigh)
    val, vec = S.items(S.method(o, "_solve_eigenproblem_order", m))
    one_order(S, L, m, a, n, M, val, vec)


@contract("C13", "C21", uses=["c13.polar_order"], samples=30)
def polar_merge(S):
    """all orders: eigenvalues, eigenvectors and order labels of every order's solutions, sorted together"""
    L = sample_L(S, sample=(1, 2, 3, 4, 6))
    o = S.obj(POLAR, L=L, theta_max=1.0, gap=False, order=None, N=S.int("N", 1, L * L, sample=(1, 2, 4, 9)), **unsolved_fields(S))
    op, w, v = S.order_solutions(L)

    def solve(self, m):
        S.ensure("order", S.and_(m > -L, m < L))
        n = L - abs(m)
        return S.build((n,), "f", lambda i: w(m, i)), S.build((n, L * L), "c", lambda i, q: v(m, i, q))
    S.patch(POLAR + "._solve_eigenproblem_order", solve)
    S.store()
    val, vec = S.items(S.method(o, "_solve_eigenproblem_from_scratch", "a.npy", "b.npy", "c.npy"))
    emm = S.get(o, "order")
    S.same_shape("eigenvalues", val, (L * L,))
    S.same_shape("eigenvectors", vec, (L * L, L * L))
    S.same_shape("orders", emm, (L * L,))
    S.forall("non-increasing", (L * L - 1,), lambda p: S.at(val, p) >= S.at(val, p + 1))
    S.index((L * L, L * L), lambda p, i: S.equal("row p and order p belong to eigenvalue p",
                                                 S.sum(0, L * L, lambda k: op(S.at(emm, p), i, k) * S.at(vec, p, k)), S.at(val, p) * S.at(vec, p, i)))
    S.index((L * L, L * L), lambda p, q: S.equal("orthonormal rows", S.sum(0, L * L, lambda k: S.at(vec, p, k) * S.conj(S.at(vec, q, k))),
                                                 S.ite(S.eq(p, q), 1, 0)))
