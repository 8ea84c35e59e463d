STUB = '''
import types
def slep(L, N, seed=0, ev=None):
    r = np.random.default_rng(seed)
    q, _ = np.linalg.qr(r.standard_normal((L * L, L * L)) + 1j * r.standard_normal((L * L, L * L)))
    from sleplet.slepian.slepian_functions import SlepianFunctions
    class S(SlepianFunctions):
        def __post_init__(self):
            pass
        _create_fn_name = _create_region = _create_mask = _calculate_area = _create_matrix_location = _solve_eigenproblem = lambda self: None
    S.__abstractmethods__ = frozenset()
    s = object.__new__(S)
    s.__dict__.update(L=L, N=N, eigenvectors=q, eigenvalues=np.linspace(1, .1, L * L), name="x", mask=np.ones((L + 1, 2 * L)))
    return s
'''
SEEDS = [
 dict(id="c01-zero-shannon", prop="C01", file="_convolution_methods.py",
  edits=[("n = shannon if shannon is not None else np.newaxis", "n = shannon if shannon else np.newaxis")],
  demo='''
import sleplet._convolution_methods as c
f = np.arange(1., 5)
assert c.sifting_convolution(f, f, shannon=0).shape == (0,)
''', needs="a Shannon number of exactly 0", breaks="all coefficients are kept although the Shannon number 0 was given"),
 dict(id="c01-both-stacks", prop="C01", file="_convolution_methods.py",
  edits=[("if len(g_coefficient.shape) < len(f_coefficient.shape)", "if len(g_coefficient) != len(f_coefficient)")],
  demo='''
import sleplet._convolution_methods as c
r = np.random.default_rng(0)
f = r.standard_normal((4, 4)) + 1j
g = r.standard_normal(4) + 2j
assert np.allclose(c.sifting_convolution(f, g), f * g.conj())
''', needs="a stack whose number of signals equals the number of coefficients, against one signal", breaks="the signal is applied along the wrong axis"),
 dict(id="c03-complex-wavelet", prop="C03", file="wavelet_methods.py",
  edits=[("wav_0 = np.sqrt((4 * np.pi) / (2 * ell + 1)) * wavelets[:, ind_m0].conj()", "wav_0 = np.sqrt((4 * np.pi) / (2 * ell + 1)) * wavelets[:, ind_m0]")],
  demo='''
import sleplet.wavelet_methods as w
r = np.random.default_rng(0)
L = 2
wv = r.standard_normal((2, 4)) + 1j * r.standard_normal((2, 4))
f = r.standard_normal(4) + 0j
got = w.axisymmetric_wavelet_forward(L, f, wv)
assert np.allclose(got[:, 0], np.sqrt(4 * np.pi) * wv[:, 0].conj() * f[0])
''', needs="wavelets with a non-real (l,0) coefficient", breaks="analysis multiplies by the wavelet instead of its conjugate"),
 dict(id="c03-last-degree", prop="C03", file="wavelet_methods.py",
  edits=[("flm[ind] = (wav_coeffs[:, ind] * wav_0).sum()", "flm[ind] += (wav_coeffs[:, ind] * wav_0)[: len(wav_0) - (m == -ell and ell > 5)].sum()")],
  demo='''
import sleplet.wavelet_methods as w
L = 8
wv = w._create_axisymmetric_wavelets(L, 2, 0)
r = np.random.default_rng(0)
f = r.standard_normal(L * L) + 1j * r.standard_normal(L * L)
assert np.allclose(w.axisymmetric_wavelet_inverse(L, w.axisymmetric_wavelet_forward(L, f, wv), wv), f)
''', needs="a bandlimit above 6: the lowest order of a high degree", breaks="synthesis drops the finest scale at order -l of degrees above 5"),
 dict(id="c04-inverse-tail", prop="C04", file="wavelet_methods.py",
  edits=[("wavelets_shannon = wavelets[: len(wav_coeffs)]", "wavelets_shannon = wavelets[: len(wav_coeffs)] if len(wav_coeffs) > 1 else wavelets[-1:]")],
  demo='''
import sleplet.wavelet_methods as w
wv = np.array([[1., 1, .5, 0, 0], [0, 0, np.sqrt(.75), 1, 1]])
f = np.array([1., 2, 0, 0, 0])
c = w.slepian_wavelet_forward(f, wv, 2)
assert len(c) == 1
assert np.allclose(w.slepian_wavelet_inverse(c, wv, 2), f[:2])
''', needs="a signal whose only non-zero wavelet coefficients are those of the scaling function", breaks="synthesis pairs the scaling coefficients with the finest wavelet"),
 dict(id="c05-zero-coeffs", prop="C05", file="slepian_methods.py",
  edits=[("    n_coeffs = slepian.N if n_coeffs is None else n_coeffs\n    return", "    n_coeffs = n_coeffs or slepian.N\n    return")],
  demo=STUB + '''
import sleplet
s = slep(2, 3)
assert sleplet.slepian_methods.slepian_forward(2, s, flm=np.ones(4) + 0j, n_coeffs=0).shape == (0,)
''', needs="zero coefficients requested", breaks="requesting 0 coefficients returns N of them"),
 dict(id="c05-region-clip", prop="C05", file="slepian/_slepian_decomposition.py",
  edits=[("return integration / self.slepian.eigenvalues[rank]", "return integration / max(self.slepian.eigenvalues[rank], 1e-3)")],
  demo=STUB + '''
import sleplet
from sleplet.slepian._slepian_decomposition import SlepianDecomposition
s = slep(3, 4)
s.__dict__['eigenvalues'] = np.logspace(0, -6, 9)
f = np.ones((4, 6)) + 0j
r = np.random.default_rng(1); f = f * r.standard_normal((4, 6))
mask = (r.random((4, 6)) > .5) * 1.
a = SlepianDecomposition(3, s, f=f, mask=mask)
s2 = slep(3, 4); s2.__dict__['eigenvalues'] = np.ones(9)
b = SlepianDecomposition(3, s2, f=f, mask=mask)
assert np.allclose(a.decompose(8), b.decompose(8) / s.eigenvalues[8])
''', needs="a rank whose eigenvalue is below 1e-3, with a mask", breaks="coefficients of badly concentrated ranks are divided by 1e-3 instead of the eigenvalue"),
 dict(id="c06-full-basis", prop="C06", file="slepian_methods.py",
  edits=[("    for p in range(slepian.N):\n        if p % L == 0:", "    for p in range(min(slepian.N, L**2 - 1)):\n        if p % L == 0:")],
  demo=STUB + '''
import sleplet
s = slep(2, 4)
assert np.abs(sleplet.slepian_methods.compute_s_p_omega(2, s)[3]).max() > 0
''', needs="a region whose Shannon number equals L^2", breaks="the last basis function stays zero"),
 dict(id="c08-empty-fourier", prop="C08", file="meshes/_mesh_slepian_decomposition.py",
  edits=[("if self.u_i is not None:\n            _logger", "if self.u_i is not None and np.any(self.u_i):\n            _logger")],
  demo='''
import types
from sleplet.meshes._mesh_slepian_decomposition import MeshSlepianDecomposition as D
d = object.__new__(D)
d.__dict__.update(u_i=np.zeros(3), u=np.ones(4), mask=False, mesh_slepian=None, _method="")
d._detect_method()
assert d._method == "harmonic_sum"
''', needs="all-zero Fourier coefficients given together with a field", breaks="the field takes precedence over (zero) Fourier coefficients"),
 dict(id="c09-odd-even", prop="C09", file="slepian/slepian_polar_cap.py",
  edits=[("return 1 + self.gap * (-1) ** (ell1 + ell2)", "return 1 + self.gap * (-1) ** (ell1 * ell2)")],
  demo='''
from sleplet.slepian.slepian_polar_cap import SlepianPolarCap as S
s = object.__new__(S); s.__dict__.update(L=3, theta_max=1.0, gap=True)
assert [s._polar_gap_modification(a, b) for a, b in ((0, 1), (1, 1), (2, 4), (1, 2))] == [0, 2, 2, 0]
''', needs="a double-ended cap", breaks="parity selection of the double-ended cap"),
 dict(id="c14-few-items", prop="C14", file="_parallel_methods.py",
  edits=[("return [np.sort(arr[i::ncpu]) for i in range(ncpu)]", "return [np.sort(arr[i::ncpu]) for i in range(min(ncpu, max(size, 1)))]")],
  demo='''
from sleplet._parallel_methods import split_arr_into_chunks as s
assert len(s(2, 5)) == 5
''', needs="more workers than items", breaks="fewer lists than workers"),
 dict(id="c14-odd-split", prop="C14", file="_parallel_methods.py",
  edits=[("return [np.sort(arr[i::ncpu]) for i in range(ncpu)]", "k = -(-size // ncpu)\n    return [np.sort(arr[i * k : (i + 1) * k]) for i in range(ncpu)]")],
  demo='''
from sleplet._parallel_methods import split_arr_into_chunks as s
n = [len(x) for x in s(5, 4)]
assert max(n) - min(n) <= 1, n
''', needs="a number of items that leaves the last workers short", breaks="sizes differ by more than one"),
]
