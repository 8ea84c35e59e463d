MESH = '''
import types
def mesh(V=6, B=3, region=None, seed=0):
    r = np.random.default_rng(seed)
    q, _ = np.linalg.qr(r.standard_normal((V, V)))
    return types.SimpleNamespace(vertices=r.standard_normal((V, 3)), faces=np.array([[0, 1, 2], [2, 3, 4], [3, 4, 5]]),
                                 basis_functions=q[:B], mesh_eigenvalues=np.arange(float(B)), number_basis_functions=B, name="m",
                                 mesh_region=np.array([1, 1, 1, 1, 0, 0][:V], dtype=bool) if region is None else region)
'''
SEEDS = [
 dict(id="c02-slepian-dirac", prop="C02", file="functions/coefficients.py",
  edits=[('if "dirac_delta" in self.name', 'if "dirac_delta" in self.name and "noise" not in self.name')],
  demo='''
from sleplet.functions.coefficients import Coefficients
class C(Coefficients):
    def _translation_helper(self, alpha, beta):
        return np.array([1j, 2j])
    def convolve(self, f, g, **k):
        return f * g.conj()
C.__abstractmethods__ = frozenset()
c = object.__new__(C)
c.__dict__.update(name="dirac_delta_10noise_L2", coefficients=np.array([3.0, 4.0]), reality=False)
assert np.allclose(c.translate(0.1, 0.2), [1j, 2j])
''', needs="a Dirac delta with noise, translated", breaks="the translated Dirac delta is multiplied by its own coefficients"),
 dict(id="c02-gamma", prop="C02", file="functions/flm.py",
  edits=[("ssht.rotate_flms(self.coefficients, alpha, beta, gamma, self.L)", "ssht.rotate_flms(self.coefficients, alpha, beta, gamma % np.pi, self.L)")],
  demo='''
import pyssht
from sleplet.functions import HarmonicGaussian
f = HarmonicGaussian(4)
assert np.allclose(f.rotate(0.1, 0.2, gamma=4.0), pyssht.rotate_flms(f.coefficients, 0.1, 0.2, 4.0, 4))
''', needs="a third Euler angle of at least pi", breaks="rotation angle gamma is taken modulo pi"),
 dict(id="c08-late-rank", prop="C08", file="meshes/_mesh_slepian_decomposition.py",
  edits=[("return integration / self.mesh_slepian.slepian_eigenvalues[rank]", "return integration / self.mesh_slepian.slepian_eigenvalues[min(rank, self.mesh_slepian.N)]")],
  demo=MESH + '''
from sleplet.meshes._mesh_slepian_decomposition import MeshSlepianDecomposition as D
m = mesh()
s = types.SimpleNamespace(mesh=m, N=1, slepian_eigenvalues=np.array([.9, .5, .1]), slepian_functions=np.eye(3))
d = object.__new__(D)
u = np.arange(6.0) + 1
d.__dict__.update(mesh_slepian=s, u=u, u_i=None, mask=True, _method="integrate_region")
assert np.isclose(d.decompose(2), (u * m.basis_functions[2])[:4].sum() / .1)
''', needs="a rank above the Shannon number, inside the region", breaks="badly concentrated ranks are divided by the eigenvalue of rank N"),
 dict(id="c10-unit-column", prop="C10", file="slepian/slepian_limit_lat_lon.py",
  edits=[("2 * 1j * col * (self.theta_max - self.theta_min)", "2 * 1j * abs(col) * (self.theta_max - self.theta_min)")],
  demo='''
from scipy.integrate import quad
from sleplet.slepian.slepian_limit_lat_lon import SlepianLimitLatLon as S
s = object.__new__(S)
s.__dict__.update(L=2, theta_min=0.3, theta_max=1.1, phi_min=0.2, phi_max=2.5)
G = s._slepian_integral()
for r in range(-2, 3):
    for c in range(-2, 3):
        p = quad(lambda x: np.cos(r * x), 0.2, 2.5)[0] + 1j * quad(lambda x: np.sin(r * x), 0.2, 2.5)[0]
        t = quad(lambda x: np.cos(c * x) * np.sin(x), 0.3, 1.1)[0] + 1j * quad(lambda x: np.sin(c * x) * np.sin(x), 0.3, 1.1)[0]
        assert np.isclose(G[2 + r, 2 + c], p * t), (r, c)
''', needs="column order -1 of the table of sub-integrals", breaks="the integral for order -1 in colatitude"),
 dict(id="c10-wigner-index", prop="C10", file="slepian/slepian_limit_lat_lon.py",
  edits=[("C4 = dl[p, N + qp, N + q] * dl[p, N + qp, N]", "C4 = dl[p, N + q, N + qp] * dl[p, N + qp, N]")],
  demo='''
import pyssht
from sleplet.slepian.slepian_limit_lat_lon import SlepianLimitLatLon as S
s = object.__new__(S)
s.__dict__.update(L=3, theta_min=0.3, theta_max=1.1, phi_min=0.2, phi_max=2.5)
K = s._create_K_matrix()
L = 40
th, ph = np.meshgrid((np.arange(200) + .5) / 200 * 0.8 + 0.3, (np.arange(200) + .5) / 200 * 2.3 + 0.2, indexing="ij")
Y = np.array([pyssht.create_ylm(t, p, 3).reshape(-1) for t, p in zip(th.flat, ph.flat)])
w = (np.sin(th) * 0.8 * 2.3 / 200**2).reshape(-1)
D = np.einsum("x,xi,xj->ij", w, Y, Y.conj())
assert np.allclose(np.linalg.eigvalsh(K), np.linalg.eigvalsh(D), atol=1e-3)
assert np.allclose(np.abs(K), np.abs(D), atol=1e-3)
''', needs="partners of degree and order above zero with odd difference of orders (the sign of d differs)", breaks="the sign of some entries of the localisation matrix"),
 dict(id="c11-shortcut", prop="C11", file="slepian/slepian_arbitrary.py",
  edits=[("if m_i == 0 and m_j != 0 and ell_j < self.L:", "if m_i in (0, 1 - self.L) and m_j != 0 and ell_j < self.L:")],
  demo='''
import sleplet
from sleplet.slepian.slepian_arbitrary import SlepianArbitrary as S
L = 3
r = np.random.default_rng(0)
s = object.__new__(S)
s.__dict__.update(L=L, _resolution=2 * L, mask=(r.random((2 * L + 1, 4 * L)) > .4) * 1.0, _fields={}, N=4, mask_name="x", name="x",
                  matrix_location="x", region=sleplet.slepian.region.Region(mask_name="x"), eigenvalues=np.empty(0), eigenvectors=np.empty(0),
                  _weight=sleplet._integration_methods.calc_integration_weight(2 * L))
D = s._create_D_matrix()
for i in range(L * L):
    for j in range(i, L * L):
        assert np.isclose(D[j, i], s._integral(j, i)), (i, j)
''', needs="the row of the lowest order of the highest degree", breaks="the mirrored-order shortcut is used for a partner that is not of order zero"),
 dict(id="c12-columns", prop="C12", file="meshes/mesh_slepian.py",
  edits=[("        for j in range(i + 1, self.mesh.mesh_eigenvalues.shape[0]):", "        for j in range(i + 1, self.mesh.mesh_eigenvalues.shape[0] - 1 + self.mesh.mesh_eigenvalues.shape[0] % 2):")],
  demo=MESH + '''
from sleplet.meshes.mesh_slepian import MeshSlepian as S
m = mesh(6, 6)
s = object.__new__(S)
s.__dict__.update(mesh=m, N=3)
D = s._create_D_matrix()
for i in range(6):
    for j in range(i, 6):
        assert np.isclose(D[j, i], (m.basis_functions[i] * m.basis_functions[j])[m.mesh_region].sum())
''', needs="an even number of basis functions", breaks="the last row and column of the matrix stay zero off the diagonal"),
 dict(id="c13-minus-one", prop="C13", file="slepian/slepian_polar_cap.py",
  edits=[("        if m < 0:\n            eigenvectors *= 1j", "        if m < 0 and abs(m) < self.L - 1:\n            eigenvectors *= 1j")],
  demo='''
from sleplet.slepian.slepian_polar_cap import SlepianPolarCap as S
s = object.__new__(S); s.__dict__.update(L=3)
emm = np.array([0, -1, 0, 1, -2, -1, 0, 1, 2] + [0] * 27)
ev, vec = s._clean_evals_and_evecs(np.array([0.7]), np.array([[1.0]]), emm, -2)
assert np.isclose(vec[0, 4], 1j)
''', needs="the order -(L-1), which has a single function", breaks="that function is not multiplied by i"),
 dict(id="c13-pair-norm", prop="C13", file="_slepian_arbitrary_methods.py",
  edits=[("    eigenvectors[pairs] *= 1j", "    eigenvectors[pairs] *= 1j if len(pairs) < 3 else 1 + 1j")],
  demo='''
from sleplet._slepian_arbitrary_methods import clean_evals_and_evecs as c
ev, vec = c((np.array([.1, .1, .1, .1, .9]), np.eye(5) + 0j))
assert np.allclose(np.abs(vec @ vec.conj().T), np.eye(5))
''', needs="three or more repeated eigenvalues", breaks="the eigenvectors of repeated eigenvalues lose their unit norm"),
 dict(id="c15-gap", prop="C15", file="slepian_methods.py",
  edits=[("                gap=region.gap,\n", "                gap=region.gap and region.theta_max < np.pi / 2,\n")],
  demo='''
import unittest.mock as um
import sleplet
with um.patch("sleplet.slepian.slepian_polar_cap.SlepianPolarCap") as P:
    sleplet.slepian_methods.choose_slepian_method(2, sleplet.slepian.region.Region(theta_max=2.0, gap=True))
assert P.call_args.kwargs.get("gap", None) in (True,), P.call_args
''', needs="a double-ended cap larger than a hemisphere", breaks="the gap setting is dropped"),
 dict(id="c15-mirror-name", prop="C15", file="slepian/region.py",
  edits=[('f"-{sleplet._string_methods.angle_as_degree(self.phi_max)}"', 'f"-{sleplet._string_methods.angle_as_degree(self.phi_max) % 360}"')],
  demo='''
from sleplet.slepian.region import Region
assert Region(theta_min=0.5, theta_max=1.0)._name_ending == "theta29-57_phi0-360"
''', needs="a rectangle all round in longitude", breaks="the name says 0 degrees instead of 360"),
 dict(id="c16-two-corners", prop="C16", file="_mask_methods.py",
  edits=[("np.isin(mesh.faces, region_reshape).all(axis=1)", "np.isin(mesh.faces, region_reshape)[:, ::2].all(axis=1)")],
  demo=MESH + '''
import sleplet._mask_methods as k
m = mesh(region=np.array([1, 0, 1, 1, 1, 0], dtype=bool))
assert np.allclose(k.convert_region_on_vertices_to_faces(m), [0, 1, 0])
''', needs="a face with only its middle vertex outside the region", breaks="such faces count as inside"),
 dict(id="c16-gap-equator", prop="C16", file="_mask_methods.py",
  edits=[("mask += thetas >= np.pi - region.theta_max", "mask ^= thetas >= np.pi - region.theta_max")],
  demo='''
import sleplet._mask_methods as k
from sleplet.slepian.region import Region
assert k.create_mask_region(4, Region(theta_max=2.0, gap=True)).all()
''', needs="a double-ended cap larger than a hemisphere (its two ends overlap)", breaks="the samples in both ends are left out"),
 dict(id="c17-high-order", prop="C17", file="noise.py",
  edits=[("            nlm[ind_nm] = (-1) ** m * nlm[ind_pm].conj()", "            nlm[ind_nm] = nlm[ind_pm].conj() * (1 - 2 * (m & 1)) if ell < 12 else nlm[ind_pm].conj()")],
  demo='''
import pyssht
import sleplet.noise as n
L = 14
x = n._create_noise(L, np.ones(L * L) + 0j, 10)
for l in range(L):
    for m in range(1, l + 1):
        assert np.isclose(x[pyssht.elm2ind(l, -m)], (-1) ** m * np.conj(x[pyssht.elm2ind(l, m)]))
''', needs="a bandlimit above 12", breaks="conjugate symmetry of the noise at degrees 12 and above"),
 dict(id="c17-zero-level", prop="C17", file="functions/flm.py",
  edits=[("if self.noise is not None:", "if self.noise:")],
  demo='''
import sleplet
f = sleplet.functions.HarmonicGaussian(4, noise=0)
g = sleplet.functions.HarmonicGaussian(4)
assert f.snr is not None and not np.allclose(f.coefficients, g.coefficients)
''', needs="a noise level of exactly 0 dB", breaks="no noise is added at 0 dB"),
 dict(id="c18-fine-scales", prop="C18", file="noise.py",
  edits=[("        f = ssht.inverse(coefficient, L, Method=sleplet._vars.SAMPLING_SCHEME)\n        f_thresholded = _perform_hard_thresholding(f, sigma_j[j], n_sigma)",
          "        f = ssht.inverse(coefficient, L, Method=sleplet._vars.SAMPLING_SCHEME)\n        f_thresholded = _perform_hard_thresholding(f, sigma_j[min(j, 3)], n_sigma)")],
  demo='''
import sleplet.noise as n
r = np.random.default_rng(0)
L, J = 3, 6
w = r.standard_normal((J, L * L)) + 1j * r.standard_normal((J, L * L))
s = np.array([9.0, 9.0, 9.0, 9.0, 0.0])
out = n.harmonic_hard_thresholding(L, w.copy(), s, 100)
assert np.allclose(out[0], w[0]) and np.allclose(out[1:5], 0) and np.allclose(out[5], w[5])
''', needs="five or more wavelet scales", breaks="the fifth and later scales are thresholded with the fourth level"),
 dict(id="c18-imaginary", prop="C18", file="noise.py",
  edits=[("np.where(np.abs(f) < threshold, 0, f)", "np.where((f < threshold) & (f > -threshold), 0, f) if np.isrealobj(f) else np.where(np.abs(f.real) < threshold, 0, f)")],
  demo='''
import sleplet.noise as n
assert np.allclose(n._perform_hard_thresholding(np.array([0.1 + 5j, 0.1j]), 1.0, 2), [0.1 + 5j, 0])
''', needs="a complex sample whose real part alone is small", breaks="the sample is zeroed although its magnitude is large"),
 dict(id="c19-high-degree", prop="C19", file="functions/dirac_delta.py",
  edits=[("for ell in range(self.L):", "for ell in range(min(self.L, 200)):")],
  demo='''
import sleplet
f = sleplet.functions.DiracDelta(202)
assert np.isclose(f.coefficients[201 * 202], np.sqrt(403 / (4 * np.pi)))
''', needs="a bandlimit above 200", breaks="coefficients of degree 200 and above are zero"),
 dict(id="c19-odd-spin", prop="C19", file="functions/ridgelets.py",
  edits=[("        for ell in range(abs(self.spin), self.L):", "        for ell in range(abs(self.spin) + self.spin % 2, self.L):")],
  demo='''
import sleplet
from math import lgamma, exp
R = sleplet.functions.Ridgelets
f = R(6, spin=1)
g = f._compute_ring()
assert abs(g[2]) > 1e-3, g[[0, 2, 6, 12]]
''', needs="an odd spin", breaks="the coefficient of the lowest degree of an odd-spin ridgelet is zero"),
 dict(id="c20-first-scale", prop="C20", file="functions/slepian_wavelets.py",
  edits=[("jth = 0 if self.j is None else self.j + 1", "jth = self.j + 1 if self.j else 0")],
  demo='''
import sleplet
from sleplet.functions.slepian_wavelets import SlepianWavelets as W
w = object.__new__(W)
w.__dict__.update(L=3, B=2, j_min=0, j=0)
c = w._create_coefficients()
assert np.allclose(c, w.wavelets[1]) and not np.allclose(w.wavelets[0], w.wavelets[1])
''', needs="scale 0 selected explicitly", breaks="scale 0 selects the scaling function"),
 dict(id="c20-negative-order", prop="C20", file="functions/spherical_harmonic.py",
  edits=[('if abs(v) > info.data["ell"]:', 'if v > info.data["ell"] or v < -info.data["L"]:')],
  demo='''
import sleplet
try:
    sleplet.functions.SphericalHarmonic(8, ell=2, m=-3)
except ValueError:
    pass
else:
    raise SystemExit("accepted")
''', needs="a negative order between the degree and the bandlimit in magnitude", breaks="such orders are accepted and select another harmonic"),
 dict(id="c21-last-row", prop="C21", file="slepian/slepian_arbitrary.py",
  edits=[("np.save(save_path / evec_loc, eigenvectors[: self.N])", "np.save(save_path / evec_loc, eigenvectors[: max(1, self.N - 1)])")],
  demo='''
import platformdirs
from sleplet.slepian.slepian_arbitrary import SlepianArbitrary as S
s = object.__new__(S)
s.__dict__.update(L=2, N=3, matrix_location="x", _fields={})
S._create_D_matrix = lambda self: np.diag([4., 3, 2, 1]) + 0j
ev, vec = s._solve_D_matrix("a.npy", "b.npy")
assert len(np.load(platformdirs.user_data_path() / "b.npy")) == 3
''', needs="a second solve of the same region, with a Shannon number above one", breaks="the last of the N stored eigenvectors is missing"),
 dict(id="c21-mesh-count", prop="C21", file="_mesh_methods.py",
  edits=[('f"meshes_laplacians_basis_functions_{name}_b{number_basis_functions}"', 'f"meshes_laplacians_basis_functions_{name}"')],
  demo=MESH + '''
import unittest.mock as um
import sleplet
m = mesh(12)
faces = np.array([[0, 1, 2], [2, 3, 4], [3, 4, 5]])
with um.patch("sleplet._mesh_methods._mesh_laplacian", lambda v, f: np.diag(np.arange(1.0, len(v) + 1))), \\
     um.patch("sleplet._data.setup_pooch.find_on_pooch_then_local.__wrapped__", None, create=True):
    import platformdirs
    def find(n):
        p = platformdirs.user_data_path() / n
        return p if p.exists() else None
    sleplet._data.setup_pooch.find_on_pooch_then_local = find
    r = np.random.default_rng(0)
    v = r.standard_normal((12, 3))
    for k in (2, 4):
        ev, vec, n = sleplet._mesh_methods.mesh_eigendecomposition("q", v, faces, number_basis_functions=k)
        assert len(ev) == k and vec.shape == (k, 12) and n == k, (k, ev)
''', needs="two meshes of one name with different numbers of basis functions, solved one after the other", breaks="the second reads the first one's basis functions"),
 dict(id="c22-unseen-seam", prop="C22", file="plot_methods.py",
  edits=[("closed_mask = np.insert(mask, n_phi, mask[:, 0], axis=1)", "closed_mask = np.insert(mask, n_phi, mask[:, -1], axis=1)")],
  demo='''
import sleplet.plot_methods as p, sleplet
from sleplet.slepian.region import Region
f = p._set_outside_region_to_minimum(np.ones((5, 9)), 4, Region(phi_max=1.0))
assert np.allclose(f[:, 0], f[:, -1])
''', needs="a region that contains longitude zero but not the last longitude", breaks="the closing column is unseen although inside the region"),
 dict(id="c22-nearest", prop="C22", file="plot_methods.py",
  edits=[("pix_j = np.abs(phis - alpha_pi_fraction * np.pi).argmin()", "pix_j = np.abs(phis - alpha_pi_fraction * np.pi).argmin() if alpha_pi_fraction <= 1 else int(np.searchsorted(phis, alpha_pi_fraction * np.pi)) % len(phis)")],
  demo='''
import sleplet.plot_methods as p
a, b = p._calc_nearest_grid_point(4, 1.3, 0.25)
assert np.isclose(a, 5 * np.pi / 4), a
''', needs="an angle beyond pi, just above a sample", breaks="grid snapping takes the next sample instead of the closest"),
 dict(id="c23-large-denominator", prop="C23", file="_string_methods.py",
  edits=[("fractions.Fraction(angle_fraction).limit_denominator()", "fractions.Fraction(angle_fraction).limit_denominator(10_000)")],
  demo='''
import sleplet._string_methods as s
assert s.filename_angle(1 / 20001, 0) != s.filename_angle(1 / 20003, 0)
''', needs="fractions with denominators above ten thousand", breaks="distinct angles share a name"),
 dict(id="c24-neg-odd", prop="C24", file="_data/create_wmap_flm.py",
  edits=[("flm[ind_nm] = (-1) ** m * flm[ind_pm].conj()", "flm[ind_nm] = (-1) ** ell * flm[ind_pm].conj()")],
  demo='''
import unittest.mock as um, pyssht
import sleplet._data.create_wmap_flm as w
with um.patch.object(w, "_load_cl", lambda **k: np.ones(10)):
    f = w.create_flm(5)
for l in range(5):
    for m in range(1, l + 1):
        assert np.isclose(f[pyssht.elm2ind(l, -m)], (-1) ** m * np.conj(f[pyssht.elm2ind(l, m)]))
''', needs="odd order of an even degree (or the reverse)", breaks="conjugate symmetry of the simulated CMB"),
 dict(id="c24-smooth-one", prop="C24", file="_data/create_earth_flm.py",
  edits=[("if isinstance(smoothing, int):", "if isinstance(smoothing, int) and smoothing > 1:")],
  demo='''
import unittest.mock as um
import sleplet._data.create_earth_flm as e
with um.patch.object(e, "_load_flm", lambda: np.arange(1.0, 17) + 1j):
    assert not np.allclose(e.create_flm(3, smoothing=1), e.create_flm(3))
''', needs="a smoothing factor of exactly 1", breaks="the requested smoothing is left out"),
 dict(id="c25-whole-circle", prop="C25", file="slepian/slepian_limit_lat_lon.py",
  edits=[("        return (self.phi_max - self.phi_min) * (", "        return np.mod(self.phi_max - self.phi_min, 2 * np.pi) * (")],
  demo='''
from sleplet.slepian.slepian_limit_lat_lon import SlepianLimitLatLon as S
s = object.__new__(S)
s.__dict__.update(theta_min=0.5, theta_max=1.0, phi_min=0.0, phi_max=2 * np.pi)
assert np.isclose(s._calculate_area(), 2 * np.pi * (np.cos(0.5) - np.cos(1.0)))
''', needs="a band all round in longitude", breaks="its area, and so its Shannon number, is zero"),
 dict(id="c25-norm-floor", prop="C25", file="_mesh_methods.py",
  edits=[("    normalisation = np.sqrt(factor).reshape(-1, 1)", "    normalisation = np.maximum(np.sqrt(factor), 1e-6).reshape(-1, 1)")],
  demo='''
import sleplet._mesh_methods as m
b = np.array([[1e-8, 0.0, 0.0], [0.0, 2.0, 0.0]])
out = m._orthonormalise_basis_functions(np.zeros((3, 3)), np.zeros((1, 3), int), b)
assert np.allclose((out**2).sum(axis=1), 1)
''', needs="a basis function of norm below 1e-6", breaks="it is not scaled to unit norm"),
]
