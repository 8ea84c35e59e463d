from pyvc.driver import contract
from contracts.common import *
from contracts.c17 import MESH_FIELDS, MESH_SLEPIAN_FIELDS, mesh_object, mesh_slepian_object
from contracts.c19 import tiling_at, wavelet_args, check, zonal

F, M = "sleplet.functions.", "sleplet.meshes."
ANY = ("Exception",)
SPHERE_WAVELETS = [F + n for n in ("axisymmetric_wavelets.AxisymmetricWavelets", "ridgelets.Ridgelets",
                                   "axisymmetric_wavelet_coefficients_earth.AxisymmetricWaveletCoefficientsEarth",
                                   "axisymmetric_wavelet_coefficients_africa.AxisymmetricWaveletCoefficientsAfrica",
                                   "axisymmetric_wavelet_coefficients_south_america.AxisymmetricWaveletCoefficientsSouthAmerica")]
SLEPIAN_WAVELETS = [F + n for n in ("slepian_wavelets.SlepianWavelets",
                                    "slepian_wavelet_coefficients_africa.SlepianWaveletCoefficientsAfrica",
                                    "slepian_wavelet_coefficients_south_america.SlepianWaveletCoefficientsSouthAmerica")]
MESH_WAVELETS = [M + "mesh_slepian_wavelets.MeshSlepianWavelets", M + "mesh_slepian_wavelet_coefficients.MeshSlepianWaveletCoefficients"]
REGION = "sleplet.slepian.region.Region"
RIDGE = F + "ridgelets.Ridgelets"


class Maker:
    """how to make an object of each class when only its parameters matter: the problem it belongs to and its coefficients are arbitrary"""

    def __init__(self, S, cls, coefficients=True):
        self.S, self.cls, self.kw = S, cls, {}
        self.name = cls.split(".")[-1]
        if cls.startswith(M):
            if cls in MESH_FIELDS:
                self.mesh, nv, k = mesh_object(S)
            else:
                self.problem, self.mesh, nv, k, N, s = mesh_slepian_object(S)
                S.patch(M + "mesh_slepian.MeshSlepian", lambda mesh: self.problem)
            self.first, self.n, self.scales = self.mesh, k, k
        else:
            self.L = self.first = sample_L(S, sample=(1, 2, 3, 4))
            self.n = self.L * self.L
            self.scales = self.L
            if cls.split(".")[-2].startswith("slepian"):
                self.problem, self.N, self.vec, self.val = slepian_object(S, self.L, name="slepian_region", region=self.region())
                S.patch("sleplet.slepian_methods.choose_slepian_method", lambda L, region: self.problem)
                self.scales = self.n
                self.kw["region"] = self.region()
        if coefficients:
            self.c = S.carr("coefficients", (self.n,))
            S.patch(cls + "._create_coefficients", lambda self_: self.c)
        S.opaque_names()

    def region(self):
        return self.S.new(REGION, mask_name="south_america" if "SouthAmerica" in self.name else "africa")

    def new(self, **kw):
        return self.S.new(self.cls, self.first, **self.kw, **kw)

    def jmax(self, B, jmin):
        return self.S.ext("pys2let.pys2let_j_max", B, self.scales, jmin)


def wavelet_parameters(S):
    return S.int("B", 2, sample=(2, 3)), S.int("j_min", 0, sample=(0, 1, 2))


def scale(S, cls):
    o = Maker(S, cls)
    B, jmin = wavelet_parameters(S)
    j = S.int("j", sample=(0, 1, 2, 3, 4, 5, -1, -2))
    bad = S.or_(j < 0, j > o.jmax(B, jmin) - jmin)
    how = S.choice("given as", ["keywords", "arguments"])
    if how == "keywords":
        mk = lambda: o.new(B=B, j_min=jmin, j=j)
    else:
        a = [B, jmin, j]
        if o.name == "Ridgelets":
            a.insert(2, S.int("spin", sample=(0, 1, 2)))
        mk = lambda: o.new(extra_args=S.list(*a))
    r = S.refuses_iff("scale outside 0..j_max - j_min", bad, ANY, mk)
    if r is None:
        return
    S.equal("j", S.get(r, "j"), j)
    S.equal("B", S.get(r, "B"), B)
    S.equal("j_min", S.get(r, "j_min"), jmin)
    if how == "arguments" and o.name == "Ridgelets":
        S.equal("spin", S.get(r, "spin"), a[2])


@contract("C20", samples=40)
def scale_axisymmetric(S):
    scale(S, S.choice("class", SPHERE_WAVELETS))


@contract("C20", samples=40)
def scale_slepian(S):
    scale(S, S.choice("class", SLEPIAN_WAVELETS))


@contract("C20", samples=40)
def scale_mesh(S):
    scale(S, S.choice("class", MESH_WAVELETS))


PARAMETERS = {      # class -> documented parameters in the order of the command line (^: as a power of ten)
    F + "gaussian.Gaussian": ["^sigma"],
    F + "harmonic_gaussian.HarmonicGaussian": ["^l_sigma", "^m_sigma"],
    F + "elongated_gaussian.ElongatedGaussian": ["^t_sigma", "^p_sigma"],
    F + "squashed_gaussian.SquashedGaussian": ["^t_sigma", "^freq"],
    F + "spherical_harmonic.SphericalHarmonic": ["ell", "m"],
    F + "noise_earth.NoiseEarth": ["SNR"],
    F + "slepian_noise_africa.SlepianNoiseAfrica": ["SNR"],
    F + "slepian_noise_south_america.SlepianNoiseSouthAmerica": ["SNR"],
    F + "slepian.Slepian": ["rank"],
    M + "mesh_basis_functions.MeshBasisFunctions": ["rank"],
    M + "mesh_slepian_functions.MeshSlepianFunctions": ["rank"],
    M + "mesh_noise_field.MeshNoiseField": ["SNR"],
    M + "mesh_slepian_noise_field.MeshSlepianNoiseField": ["SNR"],
    RIDGE: ["B", "j_min", "spin", "j"],
    **{c: ["B", "j_min", "j"] for c in [w for w in SPHERE_WAVELETS if w != RIDGE] + SLEPIAN_WAVELETS + MESH_WAVELETS},
}
NO_PARAMETERS = [F + n for n in ("africa.Africa", "dirac_delta.DiracDelta", "earth.Earth", "identity.Identity", "south_america.SouthAmerica",
                                 "wmap.Wmap", "slepian_africa.SlepianAfrica", "slepian_dirac_delta.SlepianDiracDelta",
                                 "slepian_identity.SlepianIdentity", "slepian_south_america.SlepianSouthAmerica")] + [
    M + "mesh_field.MeshField", M + "mesh_slepian_field.MeshSlepianField"]


@contract("C20", samples=60)
def arguments(S):
    """command line arguments are the documented parameters in order, widths as powers of ten"""
    cls = S.choice("class", [c for c in PARAMETERS if "j" not in PARAMETERS[c]])
    o = Maker(S, cls)
    names = PARAMETERS[cls]
    vals = [S.int("argument " + n, sample=(0, 1, 2, -1, -2)) for n in names]
    if names[0] == "ell":
        ok = S.and_(vals[0] >= 0, vals[0] < o.L, vals[1] <= vals[0], -vals[1] <= vals[0])
    elif names[0] == "rank":
        ok = S.and_(vals[0] >= 0, vals[0] < o.n)
    else:
        ok = True
    S.assume(ok)
    r = o.new(extra_args=S.list(*vals))
    for n, v in zip(names, vals):
        want = S.exp(v * S.log(10)) if n[0] == "^" else v
        S.equal(n, S.get(r, n.strip("^")), want)
    S.elems("coefficients are those of that object", S.get(r, "coefficients"), (o.n,), lambda q: o.c[q])


@contract("C20", samples=80)
def argument_count(S):
    """argument lists of the wrong length, or any list where there are no parameters, are refused"""
    cls = S.choice("class", list(PARAMETERS) + NO_PARAMETERS)
    o = Maker(S, cls)
    right = len(PARAMETERS.get(cls, ()))
    n = S.choice("length", [k for k in range(6) if k != right or not right])
    args = [S.int("argument %d" % k, 0, sample=(0, 1, 2)) for k in range(n)]
    S.raises("wrong number of arguments", ANY, lambda: o.new(extra_args=S.list(*args)))


@contract("C20", "C19", samples=40)
def spherical_harmonic(S):
    """degrees outside 0..L-1 and orders above the degree are refused"""
    o = Maker(S, F + "spherical_harmonic.SphericalHarmonic")
    l, m = S.int("ell", sample=range(-2, 6)), S.int("m", sample=range(-4, 5))
    bad = S.or_(l < 0, l >= o.L, m > l, -m > l)
    mk = (lambda: o.new(ell=l, m=m)) if S.choice("given as", ["keywords", "arguments"]) == "keywords" else (lambda: o.new(extra_args=S.list(l, m)))
    r = S.refuses_iff("degree or order out of range", bad, ANY, mk)
    if r is not None:
        S.equal("ell", S.get(r, "ell"), l)
        S.equal("m", S.get(r, "m"), m)


RANKED = [F + "slepian.Slepian", M + "mesh_basis_functions.MeshBasisFunctions", M + "mesh_slepian_functions.MeshSlepianFunctions"]


@contract("C20", samples=40)
def rank(S):
    """negative ranks and ranks beyond the available functions are refused"""
    cls = S.choice("class", RANKED)
    o = Maker(S, cls)
    p = S.int("rank", sample=(0, 1, 2, 3, 4, 9, 16, 100, -1, -2))
    mk = (lambda: o.new(rank=p)) if S.choice("given as", ["keyword", "argument"]) == "keyword" else (lambda: o.new(extra_args=S.list(p)))
    r = S.refuses_iff("rank out of range", S.or_(p < 0, p >= o.n), ANY, mk)
    if r is not None:
        S.equal("rank", S.get(r, "rank"), p)


@contract("C20", samples=30)
def cap_order(S):
    """polar cap orders at or above the bandlimit in magnitude are refused"""
    L = sample_L(S, sample=(1, 2, 3, 5))
    m = S.int("order", sample=range(-5, 6))
    S.patch(POLAR + "._solve_eigenproblem", lambda self: (S.arr("eigenvalues", (4,)), S.carr("eigenvectors", (4, 4))))
    r = S.refuses_iff("order out of range", S.or_(m >= L, -m >= L), ANY, lambda: S.new(POLAR, L, 1.0, order=m))
    if r is not None:
        S.equal("order", S.get(r, "order"), m)


@contract("C20", samples=40)
def cap_orders(S):
    """several orders at once: one at or above the bandlimit in magnitude is enough to be refused"""
    L = sample_L(S, sample=(1, 2, 3, 5))
    a, b = S.int("first order", sample=range(-5, 6)), S.int("second order", sample=range(-5, 6))
    S.patch(POLAR + "._solve_eigenproblem", lambda self: (S.arr("eigenvalues", (4,)), S.carr("eigenvectors", (4, 4))))
    orders = S.build((2,), "i", lambda k: S.where(S.eq(k, 0), lambda: a, lambda: b))
    r = S.refuses_iff("order out of range", S.or_(a >= L, -a >= L, b >= L, -b >= L), ANY, lambda: S.new(POLAR, L, 1.0, order=orders))
    if r is not None:
        S.elems("orders", S.get(r, "order"), (2,), lambda k: S.where(S.eq(k, 0), lambda: a, lambda: b))


DATA_FIELDS = {"Earth": F + "earth.Earth", "Africa": F + "africa.Africa", "SouthAmerica": F + "south_america.SouthAmerica"}


def smoothing_of(S):
    return {"smoothing": S.int("smoothing", 1, sample=(1, 2))} if S.choice("smoothing", [False, True]) else {}


def field(S, cls, n, smoothing, name):
    """the signal a wavelet coefficients class analyses: arbitrary coefficients, asked for with the same smoothing"""
    f = S.carr(name, (n,))

    def create(self_):
        if not cls.startswith(M):
            S.equal("smoothing of the signal", S.get(self_, "smoothing"), smoothing.get("smoothing"))
        return f
    S.patch(cls + "._create_coefficients", create)
    return f


@contract("C20", "C03", uses=["c03"], samples=30, budget=120)
def axisymmetric_coefficients(S):
    """scale j is entry j + 1 of the wavelet coefficients of the signal, no scale the scaling coefficients"""
    cls = S.choice("class", SPHERE_WAVELETS[2:])
    o = Maker(S, cls, coefficients=False)
    L = o.L
    kw, jth = wavelet_args(S, L)
    sm = smoothing_of(S)
    f = field(S, DATA_FIELDS[o.name.removeprefix("AxisymmetricWaveletCoefficients")], L * L, sm, "signal")
    r = o.new(**kw, **sm)
    kap, J = tiling_at(S, L, kw)
    S.lm_elems("coefficients of the selected scale", S.get(r, "coefficients"), L, lambda l, m: kap(jth, l) * f[l * l + l + m])
    S.lm_elems("all scales kept", S.get(r, "wavelet_coefficients"), L, lambda j, l, m: kap(j, l) * f[l * l + l + m], lead=(J,))
    S.lm_elems("wavelets kept", S.get(r, "wavelets"), L, lambda j, l, m: S.where(
        S.eq(m, 0), lambda: S.sqrt((2 * l + 1) / (4 * S.pi)) * kap(j, l), lambda: 0), lead=(J,))


@contract("C20", "C19", uses=["c03.tiling_functions"], samples=30)
def slepian_wavelets(S):
    cls = S.choice("class", [SLEPIAN_WAVELETS[0], MESH_WAVELETS[0]])
    o = Maker(S, cls, coefficients=False)
    kw, jth = wavelet_args(S, o.scales)
    r = o.new(**kw)
    kap, J = tiling_at(S, o.scales, kw)
    S.elems("coefficients", S.get(r, "coefficients"), (o.n,), lambda p: kap(jth, p))
    S.elems("wavelets kept", S.get(r, "wavelets"), (J, o.n), lambda j, p: kap(j, p))


@contract("C20", "C04", uses=["c04", "c03.tiling_functions"], samples=30)
def slepian_coefficients(S):
    """likewise for Slepian wavelets; a scale without coefficients below the Shannon number is all zero"""
    cls = S.choice("class", SLEPIAN_WAVELETS[1:] + MESH_WAVELETS[1:])
    o = Maker(S, cls, coefficients=False)
    mesh = cls.startswith(M)
    N = S.get(o.problem, "N")
    kw, jth = wavelet_args(S, o.scales)
    sm = {} if mesh else smoothing_of(S)
    f = field(S, M + "mesh_slepian_field.MeshSlepianField" if mesh else
              F + ("slepian_africa.SlepianAfrica" if "Africa" in o.name else "slepian_south_america.SlepianSouthAmerica"), N, sm, "signal")
    r = o.new(**kw, **sm)
    kap, J = tiling_at(S, o.scales, kw)
    m = S.len(S.get(r, "wavelet_coefficients"))
    c = S.get(r, "coefficients")
    S.same_shape("coefficients", c, (N,))

    def one(p):
        S.beyond_last(m, J, jth)
        S.instantiate(p)
        S.ensure("coefficients of the selected scale", S.close(S.at(c, p), kap(jth, p) * S.conj(f[p])))
    S.index((N,), one)
    S.elems("wavelets kept", S.get(r, "wavelets"), (J, o.n), lambda j, p: kap(j, p))


@contract("C20", "C19", uses=["c05"], samples=30)
def slepian_function(S):
    """rank p selects the p-th Slepian function: coefficients sum_lm S_p,lm conj(S_k,lm)"""
    o = Maker(S, F + "slepian.Slepian", coefficients=False)
    p = S.int("rank", 0, o.n - 1, sample=range(16))
    r = o.new(rank=p)
    S.elems("coefficients", S.get(r, "coefficients"), (o.N,), lambda k: S.sum(0, o.n, lambda q: o.vec[p, q] * S.conj(o.vec[k, q])))
    S.unchanged("eigenvectors")


@contract("C19", samples=30)
def slepian_identity(S):
    o = Maker(S, F + "slepian_identity.SlepianIdentity", coefficients=False)
    r = o.new()
    S.elems("coefficients", S.get(r, "coefficients"), (o.n,), lambda k: 1)
    S.ensure("not flagged real", S.not_(S.get(r, "reality")))


@contract("C19", uses=["c06", "c02"], samples=30)
def slepian_dirac_delta(S):
    """the conjugate Slepian functions at the sample where the first one is largest, zero beyond the Shannon number"""
    o = Maker(S, F + "slepian_dirac_delta.SlepianDiracDelta", coefficients=False)
    L = o.L
    r = o.new()
    al, be = S.get(r, "_alpha"), S.get(r, "_beta")

    def fn(k, theta, phi):
        return S.sum(0, o.n, lambda q: o.vec[k, q] * S.ylm_ind(q, theta, phi))
    S.elems("coefficients", S.get(r, "coefficients"), (o.n,), lambda k: S.where(k < o.N, lambda: S.conj(fn(k, be, al)), lambda: 0))

    def one(t, p):
        S.maximum_at(al, t, p)
        S.ensure("where the first function is largest", S.re(fn(0, S.theta(t, L), S.phi(p, L))) <= S.re(fn(0, be, al)) + 1e-9)
    S.index((L + 1, 2 * L), one)
    S.unchanged("eigenvectors")


@contract("C20", "C07", uses=["c07", "c08"], samples=30)
def mesh_functions(S):
    """rank p selects the p-th basis function, or Slepian function, of the mesh"""
    cls = S.choice("class", RANKED[1:])
    o = Maker(S, cls, coefficients=False)
    p = S.int("rank", 0, o.n - 1, sample=range(16))
    r = o.new(rank=p)
    if cls == RANKED[1]:
        b = S.get(o.mesh, "basis_functions")
        S.elems("coefficients", S.get(r, "coefficients"), (o.n,), lambda k: S.sum(0, S.shape(b)[1], lambda v: S.at(b, p, v) * S.at(b, k, v)))
    else:
        s = S.get(o.problem, "slepian_functions")
        S.elems("coefficients", S.get(r, "coefficients"), (S.get(o.problem, "N"),), lambda k: S.sum(0, o.n, lambda i: S.at(s, p, i) * S.at(s, k, i)))
