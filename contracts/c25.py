from pyvc.driver import contract
from contracts.common import *
from contracts.c15 import ANGLES, kind_of, unsolved
from contracts.c05 import weight

MM = "sleplet._mesh_methods."


@contract("C25", samples=30)
def shannon_cap(S):
    L = sample_L(S)
    t = S.real("theta_max", 0, S.pi, lo_open=True, hi_open=True)
    unsolved(S, POLAR)
    o = S.new(POLAR, L, t, gap=S.choice("gap", [False, True]))
    S.equal("area", S.method(o, "_calculate_area"), 2 * S.pi * (1 - S.cos(t)))
    S.equal("N", S.get(o, "N"), S.round(2 * S.pi * (1 - S.cos(t)) * L * L / (4 * S.pi)))


@contract("C25", samples=30)
def shannon_rectangle(S):
    L = sample_L(S)
    v = {n: S.real(n, 0, 2 * S.pi if n[0] == "p" else S.pi) for n in ANGLES}
    S.assume(kind_of(S, v)[1])
    unsolved(S, LATLON)
    o = S.new(LATLON, L, **v)
    area = (v["phi_max"] - v["phi_min"]) * (S.cos(v["theta_min"]) - S.cos(v["theta_max"]))
    S.equal("area", S.method(o, "_calculate_area"), area)
    S.equal("N", S.get(o, "N"), S.round(area * L * L / (4 * S.pi)))


@contract("C25", "C11", uses=["c05.integration_weight"], samples=20)
def shannon_mask(S):
    """the quadrature of the mask at twice the bandlimit"""
    L = sample_L(S, sample=(1, 2, 3, 4))
    m = S.mask("mask array", (2 * L + 1, 4 * L))
    S.patch("sleplet._mask_methods._load_mask", lambda L_, name: m)
    unsolved(S, ARBITRARY)
    o = S.new(ARBITRARY, L, "my_mask")
    area = S.sum(0, 2 * L + 1, lambda t: S.sum(0, 4 * L, lambda p: S.at(m, t, p) * weight(S, t, 2 * L)))
    S.equal("area", S.method(o, "_calculate_area"), area)
    S.equal("N", S.get(o, "N"), S.round(area * L * L / (4 * S.pi)))
    S.elems("mask", S.get(o, "mask"), (2 * L + 1, 4 * L), lambda t, p: S.at(m, t, p))


@contract("C25", "C21", samples=30)
def shannon_mesh(S):
    m, n, k = mesh_object(S)
    reg = S.get(m, "mesh_region")
    r = S.call("sleplet._slepian_arbitrary_methods.compute_mesh_shannon", m)
    S.equal("N", r, S.round(S.sum(0, n, lambda v: S.ite(S.at(reg, v), 1, 0)) / n * k))
    S.patch("sleplet.meshes.mesh_slepian.MeshSlepian._compute_slepian_functions", lambda self: None)
    o = S.new("sleplet.meshes.mesh_slepian.MeshSlepian", m)
    S.equal("N of the Slepian functions", S.get(o, "N"), r)


@contract("C25", uses=["c07.integrate_mesh"])
def orthonormalise(S):
    """each basis function is divided by its norm: unit norm, same direction"""
    n = S.int("vertices", 1, sample=(1, 3, 5))
    k = S.int("functions", 1, sample=(1, 2, 4))
    b = S.arr("basis", (k, n))
    v, f = S.arr("vertex positions", (n, 3)), S.arr("faces", (2, 3), dt="i", lo=0, hi=0)
    r = S.call(MM + "_orthonormalise_basis_functions", v, f, b)
    S.elems("scaled", r, (k, n), lambda i, x: b[i, x] / S.sqrt(S.sum(0, n, lambda y: b[i, y] * b[i, y])))
    S.unchanged("basis")

    def unit(i):
        norm = S.sum(0, n, lambda y: S.at(b, i, y) * S.at(b, i, y))
        S.assume_local(norm > 0)
        S.equal("unit norm", S.sum(0, n, lambda x: S.at(r, i, x) * S.at(r, i, x)), 1)
    S.index((k,), unit)


@contract("C25")
def onto_faces(S):
    """the average over the face's vertices, for one function and for a stack"""
    n = S.int("vertices", 1, sample=(1, 3, 5, 8))
    nf = S.int("faces", 1, sample=(1, 2, 4))
    f = S.arr("face indices", (nf, 3), dt="i", lo=0, hi=n - 1)
    if S.choice("functions", ["one", "stack"]) == "one":
        u = S.arr("u", n)
        r = S.call(MM + "average_functions_on_vertices_to_faces", f, u)
        S.elems("on faces", r, (nf,), lambda x: (u[f[x, 0]] + u[f[x, 1]] + u[f[x, 2]]) / 3)
    else:
        k = S.int("stack", 1, sample=(1, 2, 3))
        u = S.arr("u", (k, n))
        r = S.call(MM + "average_functions_on_vertices_to_faces", f, u)
        S.elems("on faces", r, (k, nf), lambda i, x: (S.at(u, i, f[x, 0]) + S.at(u, i, f[x, 1]) + S.at(u, i, f[x, 2])) / 3)
    S.unchanged("u", "face indices")


@contract("C25", "C21", uses=["c25.orthonormalise", "c24.lookup"], samples=16)
def basis_size(S):
    """by default a quarter of the vertices; solved once, then read back from the file of that name, the same"""
    n = S.int("vertices", 8, sample=(8, 9, 11, 12))
    nf = S.int("faces", 2, sample=(6,))
    v = S.arr("vertex positions", (n, 3))
    f = S.arr("face indices", (nf, 3), dt="i", lo=0, hi=n - 1)
    k = n // 4
    kw = {}
    if S.choice("number", ["default", "given"]) == "given":
        k = kw["number_basis_functions"] = S.int("k", 1, n - 1, sample=(1, 2, 3))
    vals, vecs = S.arr("raw eigenvalues", (k,)), S.arr("raw eigenvectors", (n, k))
    calls = []

    def eigsh(A, k_=6, M=None, sigma=None, which="LM", **kw_):
        calls.append(1)
        S.equal("functions asked for", kw_.get("k", k_), k)
        S.ensure("eigenvalues next to zero", which == "LM" and sigma == 0)
        return vals, vecs
    S.patch("scipy.sparse.linalg.eigsh", eigsh)
    S.patch(MM + "_mesh_laplacian", lambda *a: S.arr("laplacian", (n, n)))
    S.store()
    first = S.items(S.call(MM + "mesh_eigendecomposition", "blob", v, f, **kw))
    norm = S.memo(lambda i: S.sqrt(S.sum(0, n, lambda y: S.at(vecs, y, i) * S.at(vecs, y, i))))
    again = S.items(S.call(MM + "mesh_eigendecomposition", "blob", v, f, **kw))
    for r in (first, again):
        S.equal("number", r[2], k)
        S.elems("eigenvalues", r[0], (k,), lambda i: vals[i])
        S.elems("basis functions", r[1], (k, n), lambda i, x: S.at(vecs, x, i) / norm(i))
    S.equal("solved once", len(calls), 1)
