from pyvc.driver import contract
from contracts.common import *

DEC = "sleplet.slepian._slepian_decomposition.SlepianDecomposition"
FWD = "sleplet.slepian_methods.slepian_forward"


def weight(S, t, L):
    return S.sin(S.theta(t, L)) * (S.pi / L) * (S.pi / L)


def field_sum(S, L, f, vec, p, mask=None):
    """quadrature of f * conj(S_p) (restricted to the mask)"""
    def term(t, q):
        s = S.conj(S.sum(0, L * L, lambda k: vec[p, k] * S.ylm_ind(k, S.theta(t, L), S.phi(q, L))))
        v = f[t, q] * s * weight(S, t, L)
        return v * S.at(mask, t, q) if mask is not None else v
    return S.sum(0, L + 1, lambda t: S.sum(0, 2 * L, lambda q: term(t, q)))


def inputs(S, L, which):
    kw = {}
    f = S.carr("f", (L + 1, 2 * L)) if "f" in which else None
    flm = S.carr("flm", L * L) if "lm" in which else None
    mask = S.mask("mask", (L + 1, 2 * L)) if "mask" in which else None
    for k, v in (("f", f), ("flm", flm), ("mask", mask)):
        if v is not None:
            kw[k] = v
    return f, flm, mask, kw


@contract("C05")
def integration_weight(S):
    L = sample_L(S)
    r = S.call("sleplet._integration_methods.calc_integration_weight", L)
    S.elems("weight", r, (L + 1, 2 * L), lambda t, p: weight(S, t, L))


@contract("C05")
def integrate_sphere(S):
    a, b = S.int("a", 0, sample=(0, 1, 2, 3)), S.int("b", 0, sample=(0, 1, 2, 3))
    w = S.arr("w", (a, b))
    fs = [S.carr(f"f{k}", (a, b)) for k in range(S.choice("number of functions", [1, 2, 3]))]

    def prod(i, j):
        v = w[i, j]
        for f in fs:
            v = v * f[i, j]
        return v
    if S.choice("region", [False, True]):
        mask = S.mask("mask", (a, b))
        r = S.call("sleplet._integration_methods.integrate_region_sphere", mask, w, *fs)
        S.equal("sum over the region", r, S.sum(0, a, lambda i: S.sum(0, b, lambda j: prod(i, j) * S.at(mask, i, j))))
    else:
        r = S.call("sleplet._integration_methods.integrate_whole_sphere", w, *fs)
        S.equal("sum", r, S.sum(0, a, lambda i: S.sum(0, b, lambda j: prod(i, j))))
    S.unchanged("w", *[f"f{k}" for k in range(len(fs))])


@contract("C05", uses=["c05.integration_weight", "c05.integrate_sphere"])
def decompose(S):
    L = sample_L(S)
    sl, N, vec, val = slepian_object(S, L)
    which = S.choice("inputs", [("f",), ("lm",), ("f", "lm"), ("f", "mask"), ("lm", "mask"), ("f", "lm", "mask")])
    f, flm, mask, kw = inputs(S, L, which)
    d = S.new(DEC, L, sl, **kw)
    p = S.int("rank", 0, L * L - 1, sample=(0, 1, 2, 3, 5))
    r = S.method(d, "decompose", p)
    if flm is not None:
        want = S.sum(0, L * L, lambda k: flm[k] * S.conj(vec[p, k]))
    elif mask is None:
        want = field_sum(S, L, f, vec, p)
    else:
        want = field_sum(S, L, f, vec, p, mask) / val[p]
    S.equal("coefficient", r, want)
    S.unchanged("eigenvectors", "eigenvalues", *[n for n in ("f", "flm", "mask") if n in kw])


@contract("C05")
def refusals(S):
    L = sample_L(S)
    sl, N, vec, val = slepian_object(S, L)
    which = S.choice("inputs", [(), ("mask",), ("f",), ("lm",), ("f", "mask")])
    f, flm, mask, kw = inputs(S, L, which)
    if "f" not in which and "lm" not in which:
        S.raises("no signal", ["RuntimeError"], lambda: S.new(DEC, L, sl, **kw))
        return
    d = S.new(DEC, L, sl, **kw)
    p = S.int("rank", sample=(-3, -1, 0, 1, 3, 4, 8, 9, 16, 25))
    S.refuses_iff("rank", S.or_(p < 0, p >= L * L), ["ValueError"], lambda: S.method(d, "decompose", p))


@contract("C05", uses=["c05"], samples=20)
def forward(S):
    """the public entry point: ranks 0..n-1 in order, by default the Shannon number of them"""
    L = sample_L(S)
    sl, N, vec, val = slepian_object(S, L)
    which = S.choice("inputs", [("f",), ("lm",), ("f", "lm"), ("f", "mask"), ("f", "lm", "mask")])
    f, flm, mask, kw = inputs(S, L, which)
    n = S.choice("n given", [None, "n"])
    if n:
        n = S.int("n", 0, L * L, sample=(0, 1, 3, 4))
        kw["n_coeffs"] = n
    r = S.call(FWD, L, sl, **kw)

    def want(p):
        if flm is not None:
            return S.sum(0, L * L, lambda k: flm[k] * S.conj(vec[p, k]))
        if mask is None:
            return field_sum(S, L, f, vec, p)
        return field_sum(S, L, f, vec, p, mask) / val[p]
    S.elems("coefficients", r, (N if n is None else n,), want)
    S.unchanged("eigenvectors", "eigenvalues")
