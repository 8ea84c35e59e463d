from pyvc.driver import contract
from contracts.common import *

EARTH, CMB = "sleplet._data.create_earth_flm.", "sleplet._data.create_wmap_flm."
EARTH_FILE, CMB_FILE = "EGM2008_Topography_flms_L2190.mat", "wmap_lcdm_pl_model_wmap7baoh0.mat"


@contract("C24", "C21", samples=24)
def lookup(S):
    """registry first, then the user's data directory, else missing; the registry is loaded once"""
    S.store()
    find = "sleplet._data.setup_pooch.find_on_pooch_then_local"
    name = S.choice("name", ["a_L4_N3.npy", "some_file.npy"])
    files = {}
    for n in ("a_L4_N3.npy", "some_file.npy", "another.npy"):
        remote, here = S.arr(n + " remote", (2,)), S.arr(n + " local", (3,))
        w = S.choice(n, ["nowhere", "registry", "local", "both"]) if n != "another.npy" else "both"
        if w in ("registry", "both"):
            S.put_registry(n, remote)
        if w in ("local", "both"):
            S.put_local(n, here)
        files[n] = remote if w in ("registry", "both") else here if w == "local" else None

    if S.choice("similar names", [False, True]):
        for n in ("old_" + name, name + ".npy", "a.npy", "e.npy", name[0].upper() + name[1:]):
            S.put_registry(n, S.arr(n, (1,)))
            S.put_local(n, S.arr(n + " local", (1,)))

    def look(n):
        p = S.call(find, n)
        if files[n] is None:
            S.ensure("missing is reported", p is None)
            return
        S.ensure("found", p is not None)
        if p is not None:
            S.equal("contents", S.contents(p), files[n])
    look(name)
    S.equal("the registry is loaded", S.registry_loads(), 1)
    look("another.npy")
    look(name)
    S.equal("only once", S.registry_loads(), 1)


def matlab(S, name, key, a, n):
    """a MATLAB file with one column"""
    S.store()
    S.put_registry(name, {key: S.build((n, 1), "c" if key == "flm" else "f", lambda i, j: a[i])})


def earth_value(S, flm, l, m):
    """conjugate of the file's coefficients, completed for negative orders by (-1)^m times the conjugate"""
    return S.where(m < 0, lambda: S.sgn(m) * S.at(flm, l * l + l - m), lambda: S.conj(S.at(flm, l * l + l + m)))


@contract("C24", uses=["c24.lookup"], samples=16)
def earth(S):
    L = sample_L(S)
    Lf = S.int("L of the file", L, sample=(1, 2, 3, 5, 8, 9))
    flm = S.carr("file", Lf * Lf)
    matlab(S, EARTH_FILE, "flm", flm, Lf * Lf)
    kw = {}
    f = None
    if S.choice("smoothing", ["none", "None", "factor"]) == "factor":
        f = kw["smoothing"] = S.int("factor", 1, sample=(1, 2, 3, 10))
    elif S.choice("explicit", [False, True]):
        kw["smoothing"] = None
    r = S.call(EARTH + "create_flm", L, **kw)

    def want(l, m):
        v = earth_value(S, flm, l, m)
        if f is None:
            return v
        sigma = S.pi / (f * L)
        return v * S.exp(-l * l * sigma * sigma)
    S.lm_elems("coefficients", r, L, want)
    S.lm(L, lambda l, m, q: (S.assume_local(S.not_(S.eq(m, 0))), S.equal(
        "hence conjugate symmetric", want(l, -m), S.sgn(m) * S.conj(want(l, m)))))


@contract("C24", uses=["c24.lookup"], samples=16)
def smoothing(S):
    L = sample_L(S)
    flm = S.carr("flm", L * L)
    f = S.int("factor", 1, sample=(1, 2, 3, 10))
    r = S.call("sleplet._smoothing.apply_gaussian_smoothing", flm, L, f)
    sigma = S.pi / (f * L)
    S.lm_elems("coefficients", r, L, lambda l, m: S.at(flm, l * l + l + m) * S.exp(-l * l * sigma * sigma))


def cmb_value(S, cl, l, m):
    """degree l >= 2 starts at draw l^2 - 4 of the seeded generator"""
    seed = S.fn("sleplet._vars.RANDOM_SEED")
    sd = S.sqrt(2 * S.pi * S.at(cl, l - 2) / (l * (l + 1)))

    def pos(m):
        k = l * l - 4 + 2 * m - 1
        return sd / S.sqrt(2) * (S.randn(seed, k) + S.I * S.randn(seed, k + 1))
    return S.where(S.eq(m, 0), lambda: sd * S.randn(seed, l * l - 4),
                   lambda: S.where(m > 0, lambda: pos(m), lambda: S.sgn(m) * S.conj(pos(-m))))


@contract("C24", uses=["c24.lookup"], samples=16)
def cmb(S):
    L = sample_L(S)
    n = S.int("degrees", L, sample=(1, 2, 3, 5, 8, 9))
    cl = S.arr("C_l", (n,), lo=0)
    matlab(S, CMB_FILE, "cl", cl, n)
    r = S.call(CMB + "create_flm", L)
    want = lambda l, m: S.where(l < 2, lambda: 0, lambda: cmb_value(S, cl, l, m))
    S.lm_elems("coefficients", r, L, want)
    S.lm(L, lambda l, m, q: S.equal("hence conjugate symmetric", want(l, -m), S.sgn(m) * S.conj(want(l, m))))


@contract("C24", "C19", uses=["c24.earth", "c24.cmb"], samples=16)
def data_functions(S):
    """the Earth and CMB functions have those coefficients and are flagged real"""
    L = sample_L(S)
    flm = S.carr("data", L * L)
    kw = {}
    which = S.choice("function", ["earth.Earth", "wmap.Wmap"])
    if which == "earth.Earth" and S.choice("smoothing", [False, True]):
        kw["smoothing"] = S.int("factor", 1, sample=(1, 2, 10))

    def create(L_, **kw_):
        S.equal("bandlimit asked for", L_, L)
        S.equal("smoothing asked for", kw_.get("smoothing"), kw.get("smoothing"))
        return flm
    S.patch(("sleplet._data.create_earth_flm" if which[0] == "e" else "sleplet._data.create_wmap_flm") + ".create_flm", create)
    o = S.new("sleplet.functions." + which, L, **kw)
    S.elems("coefficients", S.get(o, "coefficients"), (L * L,), lambda q: flm[q])
    S.ensure("flagged real", S.get(o, "reality"))
    S.equal("spin", S.get(o, "spin"), 0)
    S.equal("bandlimit", S.get(o, "L"), L)
