"""Shared pieces of the contracts."""

FLM_CLASSES = ["africa.Africa", "axisymmetric_wavelet_coefficients_africa.AxisymmetricWaveletCoefficientsAfrica",
               "axisymmetric_wavelet_coefficients_earth.AxisymmetricWaveletCoefficientsEarth",
               "axisymmetric_wavelet_coefficients_south_america.AxisymmetricWaveletCoefficientsSouthAmerica",
               "axisymmetric_wavelets.AxisymmetricWavelets", "dirac_delta.DiracDelta", "earth.Earth",
               "elongated_gaussian.ElongatedGaussian", "gaussian.Gaussian", "harmonic_gaussian.HarmonicGaussian",
               "identity.Identity", "noise_earth.NoiseEarth", "ridgelets.Ridgelets", "south_america.SouthAmerica",
               "spherical_harmonic.SphericalHarmonic", "squashed_gaussian.SquashedGaussian", "wmap.Wmap"]
FP_CLASSES = ["slepian.Slepian", "slepian_africa.SlepianAfrica", "slepian_dirac_delta.SlepianDiracDelta",
              "slepian_identity.SlepianIdentity", "slepian_noise_africa.SlepianNoiseAfrica",
              "slepian_noise_south_america.SlepianNoiseSouthAmerica", "slepian_south_america.SlepianSouthAmerica",
              "slepian_wavelet_coefficients_africa.SlepianWaveletCoefficientsAfrica",
              "slepian_wavelet_coefficients_south_america.SlepianWaveletCoefficientsSouthAmerica",
              "slepian_wavelets.SlepianWavelets"]
POLAR = "sleplet.slepian.slepian_polar_cap.SlepianPolarCap"
LATLON = "sleplet.slepian.slepian_limit_lat_lon.SlepianLimitLatLon"
ARBITRARY = "sleplet.slepian.slepian_arbitrary.SlepianArbitrary"
KINDS = [POLAR, LATLON, ARBITRARY]


def function_class(S, names, *methods):
    return S.classes("class", ["sleplet.functions." + n for n in names], methods)


def slepian_object(S, L, N=None, methods=(), orthonormal=False, kind=None, **extra):
    """a solved Slepian problem: N functions kept, eigenvector rows of L^2 entries (arbitrary values)"""
    kind = S.classes("slepian kind", KINDS, methods or ("__no_method__",)) if kind is None else kind
    if kind == POLAR and "name" in extra:
        extra["order"] = S.arr("orders", (L * L,), dt="i", lo=1 - L, hi=L - 1)
    if N is None:
        N = S.int("N", 1, L * L, sample=(1, 2, 3, 4, 6, 9, 16, 25))
    vec = (S.orthonormal if orthonormal else lambda *a: S.carr(a[0], a[1:]))("eigenvectors", L * L, L * L)
    val = S.arr("eigenvalues", (L * L,), lo=0, hi=1, lo_open=True)
    return S.obj(kind, L=L, N=N, eigenvectors=vec, eigenvalues=val, **extra), N, vec, val


def unsolved_fields(S, **given):
    """what a Slepian object under construction has in its other fields"""
    d = dict(eigenvalues=S.arr("no values", 0), eigenvectors=S.carr("no vectors", 0), mask=S.arr("no mask", 0), name="", _resolution=0,
             matrix_location="problem", region=S.obj("sleplet.slepian.region.Region"))
    return {**d, **given}


def sample_L(S, lo=1, sample=(1, 2, 3, 4, 5, 8)):
    return S.int("L", lo, sample=sample)


def mesh_object(S, n=None, k=None, orthonormal=False, **extra):
    """a mesh with k basis functions (arbitrary values) on n vertices"""
    n = S.int("vertices", 1, sample=(1, 3, 5, 6, 24)) if n is None else n
    k = S.int("basis functions", 1, n, sample=(1, 2, 3, 5, 16)) if k is None else k
    f = S.int("faces", 1, sample=(1, 2, 4))
    m = S.obj("sleplet.meshes.mesh.Mesh", name="cube", number_basis_functions=k, zoom=False,
              basis_functions=S.orthonormal("basis", k, n, "f") if orthonormal else S.arr("basis", (k, n)), mesh_eigenvalues=S.arr("mesh_eigenvalues", (k,)),
              vertices=S.arr("vertex positions", (n, 3)), faces=S.arr("face indices", (f, 3), dt="i", lo=0, hi=n - 1),
              mesh_region=S.barr("region", n), **extra)
    return m, n, k


def mesh_slepian_object(S, orthonormal=False, **extra):
    m, n, k = mesh_object(S, orthonormal=orthonormal, **extra)
    N = S.int("N", 1, k, sample=(1, 2, 3, 5, 16))
    s = S.orthonormal("slepian_functions", k, k, "f") if orthonormal else S.arr("slepian_functions", (k, k))
    ms = S.obj("sleplet.meshes.mesh_slepian.MeshSlepian", mesh=m, N=N, slepian_functions=s,
               slepian_eigenvalues=S.arr("slepian_eigenvalues", (k,), lo=0, hi=1, lo_open=True))
    return ms, m, n, k, N, s
