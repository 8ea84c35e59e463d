from pyvc.driver import contract

SIFT = "sleplet._convolution_methods.sifting_convolution"


@contract("C01")
def sifting_single(S):
    n = S.int("n", 0, sample=(0, 1, 2, 5, 9))
    f = S.carr("f", n) if S.choice("f is", ["complex", "real"]) == "complex" else S.arr("f", n)
    g = S.carr("g", n) if S.choice("g is", ["complex", "real"]) == "complex" else S.arr("g", n)
    r = S.call(SIFT, f, g)
    S.elems("product", r, (n,), lambda p: f[p] * S.conj(g[p]))
    S.unchanged("f", "g")


@contract("C01")
def sifting_single_shannon(S):
    n = S.int("n", 0, sample=(0, 1, 2, 5, 9))
    f, g = S.carr("f", n), S.carr("g", n)
    N = S.int("N", 0, sample=(0, 1, 3, 5, 12))
    r = S.call(SIFT, f, g, shannon=N)
    S.elems("product", r, (S.min(n, N),), lambda p: f[p] * S.conj(g[p]))
    S.unchanged("f", "g")


@contract("C01")
def sifting_stack_single(S):
    n = S.int("n", 0, sample=(0, 1, 2, 5, 9))
    k = S.int("k", 0, sample=(0, 1, 2, 3))
    f, g = S.carr("f", (k, n)), S.carr("g", n)
    N = S.choice("N given", [None, "N"])
    N = S.int("N", 0, sample=(0, 1, 3, 5, 12)) if N else None
    r = S.call(SIFT, f, g, shannon=N)
    S.elems("product", r, (k, n if N is None else S.min(n, N)), lambda j, p: f[j, p] * S.conj(g[p]))
    S.unchanged("f", "g")


@contract("C01")
def sifting_stack_stack(S):
    n = S.int("n", 0, sample=(0, 1, 2, 5, 9))
    k = S.int("k", 0, sample=(0, 1, 2, 3))
    f, g = S.carr("f", (k, n)), S.carr("g", (k, n))
    N = S.choice("N given", [None, "N"])
    N = S.int("N", 0, sample=(0, 1, 3, 5, 12)) if N else None
    r = S.call(SIFT, f, g, shannon=N)
    S.elems("product", r, (k, n if N is None else S.min(n, N)), lambda j, p: f[j, p] * S.conj(g[j, p]))
    S.unchanged("f", "g")


@contract("C01", uses=["c01"])
def convolve_method(S):
    from contracts.common import FLM_CLASSES, FP_CLASSES, function_class
    n = S.int("n", 0, sample=(0, 1, 2, 5, 9))
    f = S.carr("f", n)
    g = S.carr("g", n) if S.choice("with itself", [False, True]) is False else f
    o = S.obj(function_class(S, FLM_CLASSES + FP_CLASSES, "convolve"), L=3, reality=True, coefficients=f)
    N = S.choice("N given", [None, "N"])
    N = S.int("N", 0, sample=(0, 1, 3, 5, 12)) if N else None
    r = S.method(o, "convolve", f, g, shannon=N)
    S.elems("product", r, (n if N is None else S.min(n, N),), lambda p: f[p] * S.conj(g[p]))
    S.ensure("no longer real", S.not_(S.get(o, "reality")))
    S.unchanged("f", *(["g"] if g is not f else []))
