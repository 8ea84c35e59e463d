from pyvc.driver import contract
from contracts.common import *
from contracts.c18 import power, sigma, NZ

SNRS = (-10, -5, 0, 3.5, 10)


@contract("C17", "C18")
def sigma_noise(S):
    n = S.int("coefficients", 1, sample=(1, 4, 9))
    f = S.carr("signal", n) if S.choice("signal", ["real", "complex"]) == "complex" else S.arr("signal", n)
    snr = S.real("snr", sample=SNRS)
    kw = {}
    if S.choice("denominator", [None, "d"]):
        kw["denominator"] = S.int("d", 1, sample=(1, 5, 9))
    r = S.call(NZ + "compute_sigma_noise", f, snr, **kw)
    S.equal("standard deviation", r, sigma(S, f, n, snr, kw.get("denominator", n)))
    S.unchanged("signal")


@contract("C17")
def reported_snr(S):
    n = S.int("coefficients", 1, sample=(1, 4, 9))
    f, g = S.carr("signal", n), S.carr("noise", n)
    S.assume(power(S, g, n) > 0)
    S.assume(power(S, f, n) > 0)
    r = S.call(NZ + "compute_snr", f, g, "Harmonic")
    S.equal("ratio", r, 10 * S.log10(power(S, f, n) / power(S, g, n)))
    S.unchanged("signal", "noise")


def noise_lm(S, L, sd, l, m):
    """real at (l,0); independent real and imaginary parts at (l, m>0); (-1)^m conjugate below. Degree l starts at draw l^2."""
    seed = S.fn("sleplet._vars.RANDOM_SEED")

    def pos(m):
        k = l * l + 2 * m - 1
        return sd / S.sqrt(2) * (S.randn(seed, k) + S.I * S.randn(seed, k + 1))
    return S.where(S.eq(m, 0), lambda: sd * S.randn(seed, l * l),
                   lambda: S.where(m > 0, lambda: pos(m), lambda: S.sgn(m) * S.conj(pos(-m))))


@contract("C17", uses=["c17.sigma_noise"])
def harmonic_noise(S):
    L = sample_L(S)
    f = S.carr("signal", L * L)
    snr = S.real("snr", sample=SNRS)
    r = S.call(NZ + "_create_noise", L, f, snr)
    S.lm_elems("noise", r, L, lambda l, m: noise_lm(S, L, sigma(S, f, L * L, snr, L * L), l, m))
    S.unchanged("signal")


@contract("C17", uses=["c17.sigma_noise"])
def mesh_noise(S):
    n = S.int("coefficients", 1, sample=(1, 4, 9))
    f = S.arr("signal", n)
    snr = S.real("snr", sample=SNRS)
    r = S.call(NZ + "_create_mesh_noise", f, snr)
    seed = S.fn("sleplet._vars.RANDOM_SEED")
    S.elems("noise", r, (n,), lambda k: sigma(S, f, n, snr, n) * S.randn(seed, k), dtype="f")
    S.unchanged("signal")


def nlm_at(S, L, sd, q):
    l = S.isqrt(q)
    return noise_lm(S, L, sd, l, q - l * l - l)


def slepian_sigma(S, L, f, vec, N, snr):
    """sigma of the signal's harmonic coefficients sum_p f_p S_p,lm"""
    flm = S.memo(lambda q: S.sum(0, N, lambda p: f[p] * vec[p, q]))
    return S.sqrt(S.exp(-snr / 10 * S.log(10)) * S.sum(0, L * L, lambda q: abs(flm(q)) * abs(flm(q))) / (L * L))


def callee(S, qual, name, shape, dt, check, value):
    """use the contract of a callee: its arguments are checked where it is called, its result is an arbitrary array.
    On the real code the callee itself runs, and its result is given by its own contract."""
    if not S.symbolic:
        return value
    a = S.arr(name, shape, dt)

    def handler(*args, **kw):
        check(*args, **kw)
        return a
    S.override(qual, handler)
    return lambda *i: S.at(a, *i)


def harmonic_noise_of(S, L, flm, snr, concrete):
    """contract c17.harmonic_noise where _create_noise(L, flm, snr) is called; q -> the noise coefficient"""
    def check(L_, f, snr_):
        S.equal("noise: bandlimit", L_, L)
        S.equal("noise: level", snr_, snr)
        S.elems("noise: signal", f, (L * L,), flm)
    return callee(S, NZ + "_create_noise", "harmonic noise", (L * L,), "c", check, concrete)


def plain_sigma(S, flm, n, snr):
    return once(S, lambda: S.sqrt(S.exp(-snr / 10 * S.log(10)) * S.sum(0, n, lambda q: abs(flm(q)) * abs(flm(q))) / n), flm, snr)


def once(S, fn, *key):
    if S.symbolic:
        return fn()
    c = S.__dict__.setdefault("_once", {})
    if key not in c:
        c[key] = fn()
    return c[key]


@contract("C17", uses=["c17.sigma_noise", "c17.harmonic_noise", "c05", "c06"], budget=120)
def slepian_noise(S):
    L = sample_L(S, sample=(1, 2, 3))
    sl, N, vec, val = slepian_object(S, L)
    f = S.carr("signal", N)
    snr = S.real("snr", sample=SNRS)

    flm = S.memo(lambda q: S.sum(0, N, lambda p: f[p] * vec[p, q]))
    noise = harmonic_noise_of(S, L, flm, snr, lambda q: nlm_at(S, L, plain_sigma(S, flm, L * L, snr), q))
    r = S.call(NZ + "_create_slepian_noise", L, f, sl, snr)
    S.elems("noise", r, (N,), lambda p: S.sum(0, L * L, lambda q: noise(q) * S.conj(vec[p, q])))
    S.unchanged("signal", "eigenvectors")


def mesh_u_i(S, m, nv, k, N, s, f):
    b = S.get(m, "basis_functions")

    def u_i(i):
        return S.sum(0, nv, lambda v: u(v) * S.at(b, i, v))
    u = S.memo(lambda v: S.sum(0, N, lambda p: f[p] * S.sum(0, k, lambda j: s[p, j] * S.at(b, j, v))))
    return S.memo(u_i)


def mesh_noise_of(S, k, u_i, snr):
    def check(u, snr_):
        S.equal("noise: level", snr_, snr)
        S.elems("noise: signal", u, (k,), u_i)
    return callee(S, NZ + "_create_mesh_noise", "mesh noise", (k,), "f", check,
                  lambda i: plain_sigma(S, u_i, k, snr) * S.randn(S.fn("sleplet._vars.RANDOM_SEED"), i))


@contract("C17", uses=["c17.sigma_noise", "c17.mesh_noise", "c07", "c08"])
def slepian_mesh_noise(S):
    ms, m, nv, k, N, s = mesh_slepian_object(S)
    f = S.arr("signal", N)
    snr = S.real("snr", sample=SNRS)
    noise = mesh_noise_of(S, k, mesh_u_i(S, m, nv, k, N, s, f), snr)
    r = S.call(NZ + "_create_slepian_mesh_noise", ms, f, snr)
    S.elems("noise", r, (N,), lambda p: S.sum(0, k, lambda i: noise(i) * s[p, i]))
    S.unchanged("signal", "slepian_functions")


def noised(S, o, name, n, noise, snr):
    """the signal becomes itself plus the noise and the original is kept; untouched when no level is set"""
    f0 = S.old(name)
    kept, level = S.items(S.method(o, "_add_noise_to_signal"))
    S.unchanged(name)
    if snr is None:
        S.ensure("nothing kept", kept is None)
        S.ensure("no ratio", level is None)
        S.elems("untouched", S.get(o, "coefficients"), (n,), lambda q: S.at(f0, q))
        return
    S.elems("original kept", kept, (n,), lambda q: S.at(f0, q))
    S.elems("noised", S.get(o, "coefficients"), (n,), lambda q: S.at(f0, q) + noise(q))
    pf, pn = [S.sum(0, n, lambda q: abs(g(q)) * abs(g(q))) for g in (lambda q: S.at(f0, q), noise)]
    S.assume(S.and_(pf > 0, pn > 0))
    S.equal("reported ratio", level, 10 * S.log10(pf / pn))


def level(S):
    return S.real("snr", sample=SNRS) if S.choice("noise", [None, "level"]) else None


@contract("C17", uses=["c17.sigma_noise", "c17.harmonic_noise", "c17.reported_snr"])
def noised_harmonic(S):
    L = sample_L(S, sample=(1, 2, 3, 4))
    snr = level(S)
    f = S.carr("flm", L * L)
    o = S.obj(function_class(S, FLM_CLASSES, "_add_noise_to_signal"), L=L, coefficients=f, noise=snr, reality=True, name="f")
    flm = lambda q: f[q]
    noise = harmonic_noise_of(S, L, flm, snr, lambda q: nlm_at(S, L, plain_sigma(S, flm, L * L, snr), q))
    noised(S, o, "flm", L * L, noise, snr)


@contract("C17", uses=["c17.slepian_noise", "c17.reported_snr"])
def noised_slepian(S):
    L = sample_L(S, sample=(1, 2, 3))
    sl, N, vec, val = slepian_object(S, L)
    snr = level(S)
    f = S.carr("f_p", N)
    o = S.obj(function_class(S, FP_CLASSES, "_add_noise_to_signal"), L=L, coefficients=f, noise=snr, slepian=sl, reality=True, name="f")

    def check(L_, f_, sl_, snr_):
        S.equal("noise: bandlimit", L_, L)
        S.equal("noise: level", snr_, snr)
        S.equal("noise: problem", sl_, sl)
        S.elems("noise: signal", f_, (N,), lambda p: f[p])

    flm = S.memo(lambda q: S.sum(0, N, lambda p: f[p] * vec[p, q]))
    noise = callee(S, NZ + "_create_slepian_noise", "Slepian noise", (N,), "c", check,
                   lambda p: S.sum(0, L * L, lambda q: nlm_at(S, L, plain_sigma(S, flm, L * L, snr), q) * S.conj(vec[p, q])))
    noised(S, o, "f_p", N, noise, snr)


MESH_FIELDS = ["sleplet.meshes." + c for c in ("mesh_field.MeshField", "mesh_noise_field.MeshNoiseField", "mesh_basis_functions.MeshBasisFunctions")]
MESH_SLEPIAN_FIELDS = ["sleplet.meshes." + c for c in (
    "mesh_slepian_field.MeshSlepianField", "mesh_slepian_noise_field.MeshSlepianNoiseField", "mesh_slepian_functions.MeshSlepianFunctions",
    "mesh_slepian_wavelets.MeshSlepianWavelets", "mesh_slepian_wavelet_coefficients.MeshSlepianWaveletCoefficients")]


@contract("C17", uses=["c17.sigma_noise", "c17.mesh_noise", "c17.reported_snr"])
def noised_mesh(S):
    snr = level(S)
    m, nv, n = mesh_object(S)
    f = S.arr("u_i", n)
    o = S.obj(S.classes("class", MESH_FIELDS, ("_add_noise_to_signal",)), coefficients=f, noise=snr, name="f", mesh=m)
    noised(S, o, "u_i", n, mesh_noise_of(S, n, lambda i: f[i], snr), snr)


@contract("C17", uses=["c17.slepian_mesh_noise", "c17.reported_snr"])
def noised_slepian_mesh(S):
    snr = level(S)
    ms, m, nv, k, N, s = mesh_slepian_object(S)
    f = S.arr("f_p", N)
    o = S.obj(S.classes("class", MESH_SLEPIAN_FIELDS, ("_add_noise_to_signal",)), coefficients=f, noise=snr, mesh_slepian=ms, name="f", mesh=m)

    def check(ms_, f_, snr_):
        S.equal("noise: level", snr_, snr)
        S.equal("noise: problem", ms_, ms)
        S.elems("noise: signal", f_, (N,), lambda p: f[p])
    u_i = mesh_u_i(S, m, nv, k, N, s, f)
    seed = S.fn("sleplet._vars.RANDOM_SEED")
    noise = callee(S, NZ + "_create_slepian_mesh_noise", "Slepian mesh noise", (N,), "f", check,
                   lambda p: S.sum(0, k, lambda i: plain_sigma(S, u_i, k, snr) * S.randn(seed, i) * s[p, i]))
    noised(S, o, "f_p", N, noise, snr)



@contract("C17", "C20", uses=["c17.sigma_noise", "c17.harmonic_noise", "c17.mesh_noise", "c17.slepian_noise", "c17.slepian_mesh_noise", "c17.reported_snr"],
          samples=40)
def noise_fields(S):
    """a noise field is the noise for its underlying signal at its level"""
    from contracts.c20 import Maker, smoothing_of, DATA_FIELDS, F, M
    cls = S.choice("class", [F + "noise_earth.NoiseEarth", F + "slepian_noise_africa.SlepianNoiseAfrica",
                             F + "slepian_noise_south_america.SlepianNoiseSouthAmerica", M + "mesh_noise_field.MeshNoiseField",
                             M + "mesh_slepian_noise_field.MeshSlepianNoiseField"])
    o = Maker(S, cls, coefficients=False)
    mesh, slepian = cls.startswith(M), "Slepian" in o.name
    n = S.get(o.problem, "N") if slepian else o.n
    snr = S.real("snr", sample=SNRS)
    f = S.arr("signal", (n,)) if mesh else S.carr("signal", (n,))
    kw = {} if mesh else smoothing_of(S)
    source = {"NoiseEarth": DATA_FIELDS["Earth"], "SlepianNoiseAfrica": F + "slepian_africa.SlepianAfrica",
              "SlepianNoiseSouthAmerica": F + "slepian_south_america.SlepianSouthAmerica", "MeshNoiseField": M + "mesh_field.MeshField",
              "MeshSlepianNoiseField": M + "mesh_slepian_field.MeshSlepianField"}[o.name]

    def signal(self_):
        if not mesh:
            S.equal("smoothing of the signal", S.get(self_, "smoothing"), kw.get("smoothing"))
        return f
    S.patch(source + "._create_coefficients", signal)
    pf = S.sum(0, n, lambda q: abs(f[q]) * abs(f[q]))
    S.assume(pf > 0)

    def check(*a):
        a = list(a)
        S.equal("noise: level", a.pop(), snr)
        if slepian and not mesh:
            S.equal("noise: problem", a.pop(), o.problem)
        S.elems("noise: signal", a.pop(), (n,), lambda q: f[q])
        if slepian and mesh:
            S.equal("noise: problem", a.pop(), o.problem)
        if not mesh:
            S.equal("noise: bandlimit", a.pop(), o.L)
    seed = S.fn("sleplet._vars.RANDOM_SEED")
    if not slepian:
        sd = plain_sigma(S, lambda q: f[q], n, snr)
        value = (lambda i: sd * S.randn(seed, i)) if mesh else (lambda q: nlm_at(S, o.L, sd, q))
    elif mesh:
        s = S.get(o.problem, "slepian_functions")
        nv, k = S.shape(S.get(o.mesh, "vertices"))[0], o.n
        u_i = mesh_u_i(S, o.mesh, nv, k, n, s, f)
        value = lambda p: S.sum(0, k, lambda i: plain_sigma(S, u_i, k, snr) * S.randn(seed, i) * s[p, i])
    else:
        flm = S.memo(lambda q: S.sum(0, n, lambda p: f[p] * o.vec[p, q]))
        value = lambda p: S.sum(0, o.n, lambda q: nlm_at(S, o.L, plain_sigma(S, flm, o.n, snr), q) * S.conj(o.vec[p, q]))
    fn = {(False, False): "_create_noise", (False, True): "_create_mesh_noise", (True, False): "_create_slepian_noise",
          (True, True): "_create_slepian_mesh_noise"}[slepian, mesh]
    noise = callee(S, NZ + fn, "noise", (n,), "f" if mesh else "c", check, value)
    pn = S.sum(0, n, lambda q: abs(noise(q)) * abs(noise(q)))
    S.assume(pn > 0)
    r = o.new(SNR=snr, **kw)
    S.elems("coefficients", S.get(r, "coefficients"), (n,), noise)
    if not mesh:
        S.ensure("real exactly in the harmonic case", S.iff(S.get(r, "reality"), not slepian))
