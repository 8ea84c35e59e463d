from pyvc.driver import contract
from contracts.common import *

DEC = "sleplet.meshes._mesh_slepian_decomposition.MeshSlepianDecomposition"
FWD = "sleplet.slepian_methods.slepian_mesh_forward"


def on_vertices(S, m, k, s, p, v):
    b = S.get(m, "basis_functions")
    return S.sum(0, k, lambda i: s[p, i] * b[i, v])


def setup(S):
    ms, m, n, k, N, s = mesh_slepian_object(S)
    which = S.choice("inputs", [("u",), ("u_i",), ("u", "u_i"), ("u", "mask"), ("u_i", "mask"), ("u", "u_i", "mask")])
    kw = {}
    u = ui = None
    if "u" in which:
        kw["u"] = u = S.arr("u", n)
    if "u_i" in which:
        kw["u_i"] = ui = S.arr("u_i", k)
    if "mask" in which:
        kw["mask"] = True
    ev = S.get(ms, "slepian_eigenvalues")
    reg = S.get(m, "mesh_region")

    def want(p):
        if ui is not None:
            return S.sum(0, k, lambda i: ui[i] * s[p, i])
        if "mask" in which:
            return S.sum(0, n, lambda v: S.ite(reg[v], u[v] * on_vertices(S, m, k, s, p, v), 0)) / ev[p]
        return S.sum(0, n, lambda v: u[v] * on_vertices(S, m, k, s, p, v))
    return ms, m, n, k, N, kw, want


@contract("C08", uses=["c07.inverse", "c07.integrate_mesh"])
def decompose(S):
    ms, m, n, k, N, kw, want = setup(S)
    d = S.new(DEC, ms, **kw)
    p = S.int("rank", 0, k - 1, sample=(0, 1, 2))
    S.equal("coefficient", S.method(d, "decompose", p), want(p))
    S.unchanged("basis", "slepian_functions", *[x for x in ("u", "u_i") if x in kw])


@contract("C08")
def refusals(S):
    ms, m, n, k, N, s = mesh_slepian_object(S)
    which = S.choice("inputs", ["none", "mask only", "u", "u_i"])
    if which in ("none", "mask only"):
        S.raises("no signal", ["RuntimeError"], lambda: S.new(DEC, ms, mask=(which == "mask only")))
        return
    d = S.new(DEC, ms, u=S.arr("u", n)) if which == "u" else S.new(DEC, ms, u_i=S.arr("u_i", k))
    p = S.int("rank", sample=(-3, -1, 0, 1, 2, 3, 4, 5, 9))
    S.refuses_iff("rank", S.or_(p < 0, p >= k), ["ValueError"], lambda: S.method(d, "decompose", p))


@contract("C08", uses=["c08"], samples=20)
def forward(S):
    ms, m, n, k, N, kw, want = setup(S)
    c = S.choice("n given", [None, "n"])
    if c:
        c = S.int("n", 0, k, sample=(0, 1, 2, 3))
        kw["n_coeffs"] = c
    r = S.call(FWD, ms, **kw)
    S.elems("coefficients", r, (N if c is None else c,), want)
    S.unchanged("basis", "slepian_functions")
