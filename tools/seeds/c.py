SEEDS = [
 dict(id="c01-self-convolution", prop="C01", file="functions/coefficients.py",
  edits=[("        self.reality = False\n        return", "        self.reality = self.reality and f_coefficient is g_coefficient\n        return")],
  demo="""
import sleplet
f = sleplet.functions.Gaussian(4)
assert f.reality
f.convolve(f.coefficients, f.coefficients)
assert not f.reality
""", needs="a real function convolved with its own coefficients", breaks="it stays flagged as real-valued"),
 dict(id="c03-scaling-degree", prop="C03", file="wavelet_methods.py",
  edits=[("        wav_0 = np.sqrt((4 * np.pi) / (2 * ell + 1)) * wavelets[:, ind_m0]\n", "        wav_0 = np.sqrt((4 * np.pi) / (2 * ell + 1)) * wavelets[:, ind_m0]\n        if not wav_0[1:].any():\n            continue\n")],
  demo="""
import sleplet.wavelet_methods as w
wav = np.ones((3, 9), complex)
wav[1:, :4] = 0
c = np.ones((3, 9), complex)
r = w.axisymmetric_wavelet_inverse(3, c, wav)
assert np.allclose(r[0], np.sqrt(4 * np.pi)), r
""", needs="a degree that only the scaling function covers", breaks="its coefficients are lost in the synthesis"),
 dict(id="c17-order-64", prop="C17", file="noise.py",
  edits=[("            nlm[ind_nm] = (-1) ** m * nlm[ind_pm].conj()\n", "            nlm[ind_nm] = (1 - 2 * (m & 1)) * nlm[ind_pm].conj() if m < 64 else nlm[ind_pm].conj()\n")],
  demo="""
import sleplet.noise as n
L = 66
x = n._create_noise(L, np.ones(L * L, complex), 10)
l = m = 65
assert np.isclose(x[l * l + l - m], (-1) ** m * np.conj(x[l * l + l + m]))
""", needs="a bandlimit above 65: odd orders of 65 and more", breaks="the noise field is not real"),
 dict(id="c24-late-spectrum", prop="C24", file="_data/create_wmap_flm.py",
  edits=[("cl[ell - 2])", "cl[min(ell - 2, 6)])")],
  demo="""
import sleplet._data.create_wmap_flm as w
w._load_cl = lambda **k: np.array([1.0] * 8 + [0.0] * 40)
x = w.create_flm(12)
assert np.allclose(x[100:], 0), x[100:]
""", needs="a bandlimit above 9", breaks="the high degrees have the wrong variance"),
 dict(id="c04-imaginary-scale", prop="C04", file="wavelet_methods.py",
  edits=[("    non_zero_scales = wav_coeffs.any(axis=axis).nonzero()[0]", "    non_zero_scales = wav_coeffs.real.any(axis=axis).nonzero()[0]")],
  demo="""
import sleplet.wavelet_methods as w
out = w.find_non_zero_wavelet_coefficients(np.array([[1, 1], [0, 2j]]), axis=1)
assert len(out) == 2, out
""", needs="trailing scales with purely imaginary coefficients", breaks="scales that are not zero are left out"),
]
