from pyvc.driver import contract
from contracts.common import *

H, M, I = "sleplet.harmonic_methods.", "sleplet.slepian_methods.", "sleplet._integration_methods."


@contract("C07", "C08")
def integrate_mesh(S):
    n = S.int("vertices", 0, sample=(0, 1, 3, 6))
    fs = [S.arr(f"f{k}", n) for k in range(S.choice("number of functions", [1, 2, 3]))]
    v, fc = S.arr("v", (n, 3)), S.arr("faces", (2, 3), dt="i", lo=0, hi=5)

    def prod(i):
        x = 1
        for f in fs:
            x = x * f[i]
        return x
    if S.choice("region", [False, True]):
        mask = S.barr("mask", n)
        r = S.call(I + "integrate_region_mesh", mask, v, fc, *fs)
        S.equal("sum over the region", r, S.sum(0, n, lambda i: S.ite(mask[i], prod(i), 0)))
    else:
        r = S.call(I + "integrate_whole_mesh", v, fc, *fs)
        S.equal("sum", r, S.sum(0, n, prod))
    S.unchanged("v", *[f"f{k}" for k in range(len(fs))])


@contract("C07", "C08", uses=["c07.integrate_mesh"])
def forward(S):
    m, n, k = mesh_object(S)
    u = S.arr("u", n)
    r = S.call(H + "mesh_forward", m, u)
    S.elems("coefficients", r, (k,), lambda i: S.sum(0, n, lambda v: u[v] * S.get(m, "basis_functions")[i, v]))
    S.unchanged("u", "basis")


@contract("C07", "C08")
def inverse(S):
    m, n, k = mesh_object(S)
    u = S.arr("u_i", k)
    r = S.call(H + "mesh_inverse", m, u)
    S.elems("field", r, (n,), lambda v: S.sum(0, k, lambda i: u[i] * S.get(m, "basis_functions")[i, v]))
    S.unchanged("u_i", "basis")


@contract("C07", uses=["c07.inverse"])
def slepian_on_vertices(S):
    ms, m, n, k, N, s = mesh_slepian_object(S)
    r = S.call(M + "_compute_mesh_s_p_pixel", ms)
    b = S.get(m, "basis_functions")
    S.elems("functions", r, (N, n), lambda p, v: S.sum(0, k, lambda i: s[p, i] * b[i, v]))
    S.unchanged("basis", "slepian_functions")


@contract("C07", uses=["c07.slepian_on_vertices"])
def slepian_inverse(S):
    ms, m, n, k, N, s = mesh_slepian_object(S)
    f = S.arr("f_p", N if S.choice("length", ["N", "all"]) == "N" else k)
    r = S.call(M + "slepian_mesh_inverse", ms, f)
    b = S.get(m, "basis_functions")
    S.elems("field", r, (n,), lambda v: S.sum(0, N, lambda p: f[p] * S.sum(0, k, lambda i: s[p, i] * b[i, v])))
    S.unchanged("f_p", "basis", "slepian_functions")


@contract("C07", uses=["c07"])
def harmonic_round_trip(S):
    m, n, k = mesh_object(S, orthonormal=True)
    u = S.arr("u_i", k)
    r = S.call(H + "mesh_forward", m, S.call(H + "mesh_inverse", m, u))
    S.elems("coefficients", r, (k,), lambda i: u[i])


@contract("C07", uses=["c07", "c08"])
def slepian_round_trip(S):
    ms, m, n, k, N, s = mesh_slepian_object(S, orthonormal=True)
    f = S.arr("f_p", k)
    field = S.call(M + "slepian_mesh_inverse", ms, f)
    r = S.call(M + "slepian_mesh_forward", ms, u=field)
    S.elems("coefficients from the field", r, (N,), lambda p: f[p])
    r = S.call(M + "slepian_mesh_forward", ms, u_i=S.call(H + "mesh_forward", m, field))
    S.elems("coefficients from the transform", r, (N,), lambda p: f[p])
