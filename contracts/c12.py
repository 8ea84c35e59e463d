from pyvc.driver import contract
from contracts.common import *

MS = "sleplet.meshes.mesh_slepian.MeshSlepian"


def inner(S, m, n):
    """the region-restricted inner products of the basis"""
    b, r = S.get(m, "basis_functions"), S.get(m, "mesh_region")
    return lambda i, j: S.sum(0, n, lambda v: S.ite(S.at(r, v), S.at(b, i, v) * S.at(b, j, v), 0))


@contract("C12", uses=["c07.integrate_mesh", "c14"], samples=30)
def localisation_matrix(S):
    """what the workers fill in is the lower triangle of the inner products, however many there are"""
    ms, m, n, k, N, s = mesh_slepian_object(S)
    S.workers()
    D = S.method(ms, "_create_D_matrix")
    want = inner(S, m, n)
    S.same_shape("matrix", D, (k, k))

    def lower(i, j):
        S.assume_local(j <= i)
        S.equal("lower triangle", S.at(D, i, j), want(i, j))
    S.index((k, k), lower)
    S.unchanged("basis", "slepian_functions")


@contract("C12", "C10", "C11", samples=30)
def fill_upper(S):
    """the upper triangle becomes the conjugate of the lower, the rest stays"""
    n = S.int("n", 0, sample=(0, 1, 2, 3, 6))
    a = S.carr("matrix", (n, n)) if S.choice("dtype", ["complex", "real"]) == "complex" else S.arr("matrix", (n, n))
    S.call("sleplet._array_methods.fill_upper_triangle_of_hermitian_matrix", a)
    S.elems("completed", a, (n, n), lambda i, j: S.ite(j > i, S.conj(S.old("matrix")[j, i]), S.old("matrix")[i, j]))


@contract("C12", "C13", "C21", uses=["c12.localisation_matrix", "c12.fill_upper", "c24.lookup"], samples=20)
def solve(S):
    """the eigensolver is given the symmetric matrix of all inner products"""
    m, n, k = mesh_object(S)
    S.workers()
    S.store()
    want = inner(S, m, n)
    calls = []

    def eigh(D, UPLO="L"):
        calls.append(1)
        S.elems("matrix", D, (k, k), lambda i, j: want(i, j))
        return S.arr("raw eigenvalues", (k,)), S.arr("raw eigenvectors", (k, k))
    S.patch("numpy.linalg.eigh", eigh)
    S.new(MS, m)
    S.ensure("solved once", len(calls) == 1)
    S.unchanged("basis")
