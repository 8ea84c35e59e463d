"""Regenerates properties.jsonl (kept as a script so the text is reviewable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":["src/sleplet/"+f for f in files],"mechanism":[{"name":n,"where":"src/sleplet/"+w} for n,w in mech]}
    if state:a["state"]=[{"name":n,"meaning":m,"where":"src/sleplet/"+w} for n,m,w in state]
    if observe:a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
I=["inputs"]
p("C01","Sifting convolution is the coefficient-wise product f times conj(g)",
  "Convolving two sets of coefficients returns, for every retained index p, f_p times the complex conjugate of g_p, for single signals and for a stack of signals against one signal or against another stack. With a Shannon number given exactly the first min(N, length) coefficients are kept, otherwise all of them; the operands are left unchanged. Convolving through a function object gives the same result and marks the object as no longer real-valued.",
  I,"all bandlimits, coefficient values, 1-D/2-D operand shapes, and Shannon numbers (absent, 0, below, equal to and above the length)",
  "Tests convolve two or three fixed functions at one bandlimit and compare with a reloaded reference; they cannot settle all shapes, Shannon numbers and complex values.",
  ["_convolution_methods.py","functions/coefficients.py"],[("sifting_convolution","_convolution_methods.py"),("Coefficients.convolve","functions/coefficients.py")],observe=["return value","reality flag"])
p("C02","Translation and rotation of signals follow their definitions",
  "Translating a harmonic signal to a point multiplies coefficient (l,m) by the spherical harmonic Y_lm of that point, while translating a Dirac delta gives the conjugate harmonics themselves; rotating by (alpha, beta, gamma) applies exactly that Euler rotation to the coefficients. Translating a Slepian signal to a point of the sampling grid multiplies its coefficients by the Slepian functions evaluated at that sample, zero beyond the Shannon number and truncated when a Shannon number is passed. Rotating a Slepian signal is refused.",
  I,"all bandlimits, coefficient values and angles (alpha, beta, gamma), with and without a Shannon number, for harmonic and Slepian signals",
  "Tests translate two functions at one angle; the identity must hold for every signal and direction.",
  ["functions/coefficients.py","functions/flm.py","functions/fp.py","slepian_methods.py"],[("translate","functions/coefficients.py"),("rotate/_translation_helper","functions/flm.py, functions/fp.py"),("_compute_s_p_omega_prime","slepian_methods.py")])
p("C03","Axisymmetric wavelets: correct generation, analysis and exact synthesis",
  "The axisymmetric wavelets at scale j have coefficient sqrt((2l+1)/4pi) times the tiling function of scale j at (l,0) and zero elsewhere. Analysis multiplies f_lm by sqrt(4pi/(2l+1)) times the conjugate of the wavelet's (l,0) coefficient for each scale, and synthesis sums, over scales, wavelet coefficient times sqrt(4pi/(2l+1)) times the wavelet's (l,0) coefficient. Analysis followed by synthesis returns the original coefficients exactly (up to rounding) whenever the tiling is a partition of unity, for every bandlimit, parameters and signal.",
  I,"all bandlimits, wavelet parameters (B, j_min), and complex signals",
  "Tests do one round trip for the Earth at one bandlimit (offline data not even available); algebraic exactness for all (l,m) is universally quantified.",
  ["wavelet_methods.py"],[("axisymmetric_wavelet_forward/inverse","wavelet_methods.py"),("_create_axisymmetric_wavelets","wavelet_methods.py"),("create_kappas","wavelet_methods.py")])
p("C04","Slepian wavelet analysis and synthesis reconstruct every signal",
  "Slepian wavelet analysis gives, for scale j and coefficient p below the Shannon number, wavelet_j,p times the conjugate of f_p, listed in scale order starting from the scaling function, and only trailing all-zero scales may be left out so that entry j always belongs to scale j. Synthesis from those coefficients returns the first N coefficients of the original signal for every signal, on the sphere and on meshes. The tiling functions are the scaling function followed by the wavelets in increasing scale.",
  I,"all signals (including those vanishing on some scales), all bandlimits/numbers of basis functions, wavelet parameters and Shannon numbers",
  "Tests use one dense signal per region, for which no intermediate scale vanishes; the property must hold for every signal including sparse ones.",
  ["wavelet_methods.py","_convolution_methods.py","functions/slepian_wavelets.py","meshes/mesh_slepian_wavelets.py","meshes/mesh_slepian_wavelet_coefficients.py"],
  [("slepian_wavelet_forward/inverse","wavelet_methods.py"),("find_non_zero_wavelet_coefficients","wavelet_methods.py"),("create_kappas","wavelet_methods.py")])
p("C05","Slepian decomposition on the sphere uses the right integral for its inputs",
  "Coefficient p of a signal is the sum over (l,m) of f_lm times conj(S_p,lm) when harmonic coefficients are given, else the quadrature of f times conj(S_p) over the sphere, or, when a mask is also given, that quadrature restricted to the mask divided by the p-th eigenvalue. Harmonic coefficients take precedence over field values, no input at all is refused, and ranks below 0 or at/above L^2 are refused. Requesting n coefficients yields exactly ranks 0..n-1, defaulting to the Shannon number.",
  I,"all signals, regions, masks, ranks, numbers of coefficients and combinations of supplied inputs",
  "Tests decompose two signals in two regions and compare methods only to loose tolerance; input combinations, ranks and values are universally quantified.",
  ["slepian/_slepian_decomposition.py","slepian_methods.py","_integration_methods.py"],[("SlepianDecomposition","slepian/_slepian_decomposition.py"),("slepian_forward","slepian_methods.py"),("integrate_*","_integration_methods.py")])
p("C06","Slepian synthesis sums coefficients times Slepian functions and round-trips",
  "Slepian synthesis returns, at every sample of the sphere, the sum over p below the Shannon number of coefficient p times the inverse harmonic transform of the p-th eigenvector. The basis evaluated on the sphere has one layer per p below the Shannon number, and its value at a direction is picked at the nearest sample and zero-padded to L^2 entries. Synthesising coefficients, transforming to harmonic space and analysing again returns the first N coefficients whenever the eigenvectors are orthonormal.",
  I,"all coefficients, bandlimits, regions and directions",
  "Tests check inverse accuracy for one signal per region; linearity and indexing must hold for all.",
  ["slepian_methods.py","harmonic_methods.py"],[("slepian_inverse/compute_s_p_omega/_compute_s_p_omega_prime","slepian_methods.py"),("_boost_coefficient_resolution/invert_flm_boosted","harmonic_methods.py")])
p("C07","Mesh harmonic and Slepian transforms are exact inverses on an orthonormal basis",
  "The mesh forward transform returns the inner product of the signal with every basis function and the mesh inverse transform returns the sum of coefficient times basis function at every vertex; with an orthonormal basis forward after inverse is the identity on coefficients. Mesh Slepian synthesis returns the sum over p below the Shannon number of coefficient p times the p-th Slepian function on the vertices, and analysis after synthesis returns those coefficients.",
  I,"all meshes, numbers of basis functions, signals and coefficient vectors",
  "Tests use one mesh and one field; exactness is claimed for all signals and meshes.",
  ["harmonic_methods.py","slepian_methods.py","_integration_methods.py"],[("mesh_forward/mesh_inverse","harmonic_methods.py"),("slepian_mesh_forward/slepian_mesh_inverse/_compute_mesh_s_p_pixel","slepian_methods.py")])
p("C08","Mesh Slepian decomposition uses the right sum for its inputs",
  "Coefficient p of a mesh signal is the sum of Fourier coefficients times the p-th Slepian function's coefficients when Fourier coefficients are given, else the sum over vertices of the field times the p-th Slepian function, or, when the region option is set, that sum restricted to the mesh region divided by the p-th eigenvalue. Fourier coefficients take precedence, no input is refused, and ranks below 0 or at/above the number of basis functions are refused. Requesting n coefficients yields ranks 0..n-1, defaulting to the Shannon number.",
  I,"all mesh signals, regions, ranks and combinations of supplied inputs",
  "Tests cover one mesh and two loose comparisons; input combinations and ranks are universally quantified.",
  ["meshes/_mesh_slepian_decomposition.py","slepian_methods.py"],[("MeshSlepianDecomposition","meshes/_mesh_slepian_decomposition.py")])
p("C09","The polar cap localisation matrix follows the analytic formula",
  "For every order m the localisation matrix of a polar cap of colatitude Theta is (L-m) by (L-m), symmetric, with entry (l,l') = (-1)^m/2 sqrt((2l+1)(2l'+1)) times the sum over n of the two Wigner 3j symbols (l n l'; 0 0 0) and (l n l'; m 0 -m) times P_{n-1}(cos Theta) - P_{n+1}(cos Theta), with P_{-1}=1. For a double-ended cap entries are multiplied by 1+(-1)^(l+l'). The Wigner 3j symbols equal the Racah formula for all admissible integer arguments, are zero outside the selection rules and refuse arguments that are neither integer nor half-integer, and the result does not depend on the number of workers.",
  ["inputs","schedules","configurations"],"all bandlimits, colatitudes, orders, gap settings, Wigner arguments and worker counts",
  "Tests compute a handful of caps and compare only eigenvector counts or region masks; formulas must hold for all entries.",
  ["slepian/slepian_polar_cap.py"],[("_create_Dm_matrix/_dm_matrix_helper","slepian/slepian_polar_cap.py"),("_wigner3j","slepian/slepian_polar_cap.py"),("_create_legendre_polynomials_table/_polar_gap_modification","slepian/slepian_polar_cap.py")])
p("C10","The limited colatitude-longitude localisation matrix follows its formula",
  "For a colatitude-longitude rectangle the table of sub-integrals holds, for orders (m, m') in -2(L-1)..2(L-1), the exact value of the product of the integral of exp(i m phi) over longitude and the integral of exp(i m' theta) sin theta over colatitude, and the table is conjugate symmetric. The localisation matrix entry ((l,m),(p,q)) is the published double sum of half-angle Wigner-d products with that table, including the sqrt((2l+1)(2p+1))/4pi and (-i)^(m-q) factors. The matrix handed to the eigensolver is that lower triangle completed Hermitianly.",
  I,"all bandlimits and all angular limits",
  "Tests build one or two regions at tiny bandlimits and only check mask/eigenvector consistency; closed-form integrals must hold at all orders including m'=0, +-1.",
  ["slepian/slepian_limit_lat_lon.py","_array_methods.py"],[("_slepian_integral/_slepian_matrix/_create_K_matrix","slepian/slepian_limit_lat_lon.py"),("fill_upper_triangle_of_hermitian_matrix","_array_methods.py")])
p("C11","An arbitrary region's localisation matrix is the masked inner product",
  "For a region given by a mask, every entry (i,j) of the localisation matrix is the quadrature over the region of Y_i times conj(Y_j) sampled at twice the bandlimit, up to the symmetries that hold for spherical harmonics, and its upper triangle is the conjugate of the lower. The matrix, and hence the eigenvalues, do not depend on the number of workers or the order in which they finish. The region's area, and so its Shannon number, is the same quadrature of the mask.",
  ["inputs","schedules","configurations"],"all masks, bandlimits, worker counts and interleavings of workers",
  "Tests build one region with the default worker count; every (i,j) and every schedule must agree.",
  ["slepian/slepian_arbitrary.py","_parallel_methods.py","_integration_methods.py"],[("_create_D_matrix/_matrix_helper/_integral","slepian/slepian_arbitrary.py"),("split_arr_into_chunks","_parallel_methods.py"),("calc_integration_weight","_integration_methods.py")])
p("C12","The mesh localisation matrix is the region-restricted inner product",
  "For a region of a mesh, every entry (i,j) of the localisation matrix is the sum over region vertices of basis function i times basis function j, and the matrix given to the eigensolver is symmetric. It does not depend on the number of workers or the order in which they finish.",
  ["inputs","schedules","configurations"],"all meshes, regions, worker counts and interleavings",
  "Tests build one mesh with default workers.",
  ["meshes/mesh_slepian.py"],[("_create_D_matrix/_fill_D_elements/_integral","meshes/mesh_slepian.py")])
p("C13","Eigensolutions are sorted, correctly paired and orthonormal",
  "For every region type the eigenvalues are returned in non-increasing order and row p of the eigenvectors is (up to a unit phase) the conjugated eigenvector of eigenvalue p of the localisation matrix, so rows are orthonormal and real leading entries are non-negative before any orthogonality phase is applied. For polar caps, the solutions of a single order are placed at the (l,m) positions of that order and zero elsewhere, multiplied by i for negative orders, and the all-order solution is the merge over orders -(L-1)..L-1 with eigenvalues, eigenvectors and order labels permuted together.",
  I,"all Hermitian localisation matrices, bandlimits, orders and region types (polar cap, limited lat-lon, arbitrary, mesh)",
  "Tests look at a few eigen-pairs; ordering and pairing must hold for all spectra including ties.",
  ["slepian/slepian_polar_cap.py","slepian/slepian_limit_lat_lon.py","_slepian_arbitrary_methods.py","meshes/mesh_slepian.py","harmonic_methods.py"],
  [("_clean_evals_and_evecs","slepian/*.py, meshes/mesh_slepian.py"),("clean_evals_and_evecs","_slepian_arbitrary_methods.py"),("_sort_all_evals_and_evecs","slepian/slepian_polar_cap.py"),("_create_emm_vector","harmonic_methods.py")])
p("C14","Work is partitioned exactly among workers",
  "Splitting n work items among w workers yields exactly w sorted lists in which every item 0..n-1 appears exactly once, with sizes differing by at most one. A worker writing through its own attachment to a shared array is seen by the owner, and distinct shared arrays are independent of each other and of the private original.",
  ["inputs","configurations"],"all n >= 0 and w >= 1, all array shapes and contents",
  "Tests check one or two sizes.",
  ["_parallel_methods.py"],[("split_arr_into_chunks","_parallel_methods.py"),("create_shared_memory_array/attach_to_shared_memory_block","_parallel_methods.py")])
p("C15","Regions are classified and validated from their angles and mask name",
  "A region is a polar cap exactly when only the maximum colatitude differs from its default, a colatitude-longitude rectangle when the minimum or maximum longitude or the minimum colatitude differs, a mask region when all angles are default and a mask is named, and is refused otherwise. Colatitudes outside [0, pi], longitudes outside [0, 2pi] and a zero polar cap are refused, at construction and on later assignment. The region's name carries its type and rounded degree values, and selecting a Slepian method builds the matching kind of Slepian object with the region's own angles, gap setting and mask name.",
  I,"all values of the four angles, gap flag and mask name (including boundary values)",
  "Tests try a handful of combinations.",
  ["_bool_methods.py","slepian/region.py","slepian_methods.py","_string_methods.py","_mask_methods.py"],[("is_polar_cap/is_limited_lat_lon","_bool_methods.py"),("Region._identify_region and validators","slepian/region.py"),("choose_slepian_method","slepian_methods.py"),("create_default_region","_mask_methods.py")])
p("C16","Masks select exactly the samples inside the region",
  "The mask of a polar cap contains exactly the samples with colatitude at most the cap size, plus, for a double-ended cap, those at least pi minus it; the mask of a rectangle contains exactly the samples within all four limits inclusively; a mask loaded from file must have the sampling shape. A mesh region contains exactly the vertices inside the configured box inclusively, and a face belongs to it exactly when all of its vertices do. Masking a signal keeps its field inside the region, zeroes it outside, and returns to harmonic space.",
  I,"all bandlimits, regions, meshes and signals",
  "Tests compare a few masks; pointwise membership must hold for all samples and limits.",
  ["_mask_methods.py","_mesh_methods.py"],[("create_mask_region/ensure_masked_flm_bandlimited","_mask_methods.py"),("create_mesh_region/convert_region_on_vertices_to_faces/ensure_masked_bandlimit_mesh_signal","_mask_methods.py")])
p("C17","Generated noise is seeded, has the requested power and the right symmetry",
  "The noise standard deviation is sqrt(10^(-snr/10) times signal power / number of coefficients), and the reported signal-to-noise ratio is 10 log10 of the power ratio. Harmonic noise has a real (l,0) entry, independent real and imaginary parts scaled by 1/sqrt(2) at positive orders and (-1)^m conjugate at negative orders, so its field is real; mesh noise is real; both are deterministic for fixed inputs. A noised function's coefficients are the unnoised coefficients (kept) plus that noise, and without a noise level they are untouched. The noise fields (harmonic, Slepian, mesh) are that noise for their underlying signal at the requested level.",
  I,"all bandlimits, signals and SNR values, harmonic / Slepian / mesh",
  "Tests check symmetry of one realisation; scaling and additivity must hold for all.",
  ["noise.py","functions/flm.py","functions/fp.py","meshes/mesh_harmonic_coefficients.py","meshes/mesh_slepian_coefficients.py"],[("compute_snr/compute_sigma_noise/_create_noise/_create_mesh_noise","noise.py"),("_add_noise_to_signal","functions/flm.py, functions/fp.py, meshes/*.py")])
p("C18","Hard thresholding zeroes exactly the small samples of each wavelet scale",
  "Thresholding keeps a field sample unchanged when its magnitude is at least n_sigma times the noise level of that scale and sets it to zero otherwise. Harmonic wavelet thresholding leaves the scaling coefficients alone and applies level j to wavelet j; Slepian and mesh thresholding apply level j to coefficient set j; each returns to coefficient space with the same transform. The per-scale noise level is the noise standard deviation times the root of the wavelet power (weighted pointwise by the squared Slepian functions in the Slepian case).",
  I,"all coefficient sets, thresholds, scales and regions",
  "Tests run one denoising pipeline and check it does not fail.",
  ["noise.py"],[("_perform_hard_thresholding and *_hard_thresholding","noise.py"),("_compute_sigma_j/_compute_slepian_sigma_j/compute_slepian_mesh_sigma_j","noise.py")])
p("C19","Analytic signals have their documented coefficients and honest reality flags",
  "Each analytic function (Dirac delta, Gaussian, harmonic Gaussian, identity, spherical harmonic, elongated and squashed Gaussian, ridgelets, axisymmetric and Slepian wavelets, Slepian function and its Dirac delta) has exactly its documented harmonic or Slepian coefficients for every bandlimit and parameter value. A function flagged as real-valued has coefficients satisfying f_l,-m = (-1)^m conj(f_lm).",
  I,"all bandlimits and parameter values of every analytic function class",
  "Tests check that a few functions can be built or are symmetric at one bandlimit.",
  ["functions/dirac_delta.py","functions/gaussian.py","functions/harmonic_gaussian.py","functions/identity.py","functions/spherical_harmonic.py","functions/elongated_gaussian.py","functions/squashed_gaussian.py","functions/ridgelets.py","functions/axisymmetric_wavelets.py","functions/slepian.py","functions/slepian_identity.py","functions/slepian_dirac_delta.py","functions/slepian_wavelets.py","harmonic_methods.py"],
  [("_create_coefficients/_set_reality/_grid_fun","functions/*.py"),("_ensure_f_bandlimited/_create_spherical_harmonic","harmonic_methods.py")])
p("C20","Invalid function parameters are refused and valid ones are selected correctly",
  "Wavelet scales below 0 or above j_max - j_min, negative ranks, ranks beyond the available functions, degrees outside 0..L-1, orders above the degree, polar cap orders at or above the bandlimit in magnitude, and command-line argument lists of the wrong length or for functions that take none are refused with an error. Every valid value is accepted and selects the corresponding item: scale j is entry j+1 of the wavelets with no scale meaning the scaling function, and command-line arguments map in the documented order (powers of ten for Gaussian widths).",
  I,"all integer parameter values and argument list lengths for every function class on the sphere and on meshes",
  "Tests try one invalid value per class.",
  ["functions/*.py","meshes/*.py","slepian/slepian_polar_cap.py"],[("field validators, _setup_args, _validate_rank","functions/*.py, meshes/*.py")])
p("C21","Cached eigensolutions are indistinguishable from freshly computed ones",
  "For a given problem, solving it the first time and solving it again (from the files left by earlier solves) give the same Shannon number, eigenvalues, and the eigenvectors (at least the leading Shannon-number rows) and order labels, whatever was solved in between. Different problems never read each other's cached files. A stored result is written under the user's data directory with the name that is later looked up.",
  ["histories","inputs"],"all sequences of solves of sphere regions (polar cap with and without gap/order, lat-lon, mask) and meshes",
  "Tests run each solve once; order-of-solves dependence is not sampled.",
  ["slepian/slepian_polar_cap.py","slepian/slepian_limit_lat_lon.py","slepian/slepian_arbitrary.py","meshes/mesh_slepian.py","_mesh_methods.py","_mask_methods.py","_data/setup_pooch.py"],[("_solve_eigenproblem*/_create_matrix_location","slepian/*.py"),("_compute_slepian_functions","meshes/mesh_slepian.py"),("mesh_eigendecomposition","_mesh_methods.py")],
  state=[("data files","eigenvalues, eigenvectors, orders keyed by problem name","slepian/*.py")])
p("C22","Plot preparation preserves the field it displays",
  "Normalising a field maps it affinely onto [0,1] with minimum at 0 and maximum at 1 (all-zero fields to one half; other fields constant to one part in 1e5 of their maximum are divided by it) whatever its magnitude, and leaves it alone when not requested. The amplitude used for a shared colour scale is the largest magnitude of the function's field synthesised with its own spin and reality (for a noised function's fixed scale, of the field before the noise). Samples outside a Slepian region are set to the unseen sentinel and those inside are untouched; boosting resolution zero-pads harmonic coefficients only; plot types give exactly the real part, imaginary part, modulus or their sum. Grid snapping returns the sample closest to the requested angles and the plot resolution is the bandlimit times the documented power of two.",
  I,"all fields (any magnitude), bandlimits, resolutions, plot types, regions and angles",
  "Tests check shapes and one or two values.",
  ["plot_methods.py","harmonic_methods.py","plotting/_create_plot_sphere.py","plotting/_create_plot_mesh.py"],[("_normalise_function/_set_outside_region_to_minimum/_boost_field/_create_plot_type/calc_plot_resolution/_calc_nearest_grid_point/find_max_amplitude","plot_methods.py"),("invert_flm_boosted","harmonic_methods.py")])
p("C23","Output names and command-line selections map to the right objects",
  "Angles given as fractions of pi are rendered in file names as reduced numerator and denominator, zero angles abbreviated and a rotation angle appended only when non-zero, so that distinct fractions (up to denominators of a million) get distinct names. Function names listed by the command line correspond one-to-one, in order, with the available function classes. Plotting via the command line applies exactly the requested method (rotation, translation, convolution, or none) with the snapped angles before producing the figure.",
  I,"all rational angles, all function classes and all command-line methods",
  "Tests check a few names.",
  ["_string_methods.py","_class_lists.py","_scripts/plotting_on_sphere.py","_scripts/plotting_on_mesh.py"],[("filename_angle/filename_args/wavelet_ending","_string_methods.py"),("convert_classes_list_to_snake_case","_string_methods.py"),("plot helpers","_scripts/plotting_on_sphere.py")])
p("C24","Data lookup prefers the registry and derived data is conjugate symmetric",
  "A requested data file is taken from the remote registry when listed there, else from the user's data directory when present, else reported missing, and the registry is loaded at most once. Earth coefficients are the conjugate of the file's, completed for negative orders by (-1)^m conjugation, truncated to the bandlimit and smoothed by exp(-l^2 sigma^2) with sigma = pi / (factor L) only when requested. The simulated CMB has variance 2 pi C_l / (l (l+1)) at degree l >= 2, zero below, is conjugate symmetric and reproducible.",
  ["inputs","histories"],"all file names, registry/local contents, call histories, bandlimits and smoothing factors",
  "The data is remote; most such tests cannot even run offline.",
  ["_data/setup_pooch.py","_data/create_earth_flm.py","_data/create_wmap_flm.py","_smoothing.py"],[("find_on_pooch_then_local","_data/setup_pooch.py"),("create_flm","_data/create_earth_flm.py, _data/create_wmap_flm.py"),("apply_gaussian_smoothing","_smoothing.py")])
p("C25","Shannon numbers and mesh bases are as defined",
  "The Shannon number of a sphere region is the region's area times L^2 / 4pi rounded to the nearest integer, with area 2pi(1-cos Theta) for a polar cap and (phi_max-phi_min)(cos theta_min - cos theta_max) for a rectangle; that of a mesh region is the fraction of vertices inside it times the number of basis functions, rounded. Mesh basis functions are scaled so each has unit norm without changing direction, and default to a quarter of the vertices. A function on vertices is averaged onto each face over that face's vertices, for single functions and for stacks.",
  I,"all regions, bandlimits, meshes, basis sizes and vertex functions",
  "Tests check one mesh and a few areas.",
  ["slepian/slepian_functions.py","slepian/slepian_polar_cap.py","slepian/slepian_limit_lat_lon.py","_slepian_arbitrary_methods.py","_mesh_methods.py"],[("SlepianFunctions.__post_init__/_calculate_area","slepian/*.py"),("compute_mesh_shannon","_slepian_arbitrary_methods.py"),("_orthonormalise_basis_functions/mesh_eigendecomposition/average_functions_on_vertices_to_faces","_mesh_methods.py")])
p("C26","Meshes and data signals are built from their own files and problems",
  "A mesh takes its polygons from the file its own configuration names, upsampled as often as configured; its region is the configured box; its camera zoom, centre and colour bar are the region's when zoomed and the default ones otherwise; its basis is the eigenbasis of its own polygons, of the number of functions asked for, the operator being minus the cotangent matrix. A mesh field is the inner products of the basis functions with the second component of the vertex normals, its Slepian version those of that field with the mesh's Slepian functions. The Slepian Africa and South America signals are the inner products of the equally smoothed Africa / South America signal with the Slepian functions of that region; they are not flagged real and refuse any other region. A random signal of variance v is sqrt(v/2)(x + iy) with x and y independent standard normal draws for every coefficient.",
  I,"all mesh configurations, meshes, basis sizes, smoothing factors, regions, bandlimits and variances",
  "The data is remote or takes minutes to compute; tests build one mesh and never compare a coefficient.",
  ["meshes/mesh.py","meshes/mesh_field.py","meshes/mesh_slepian_field.py","functions/slepian_africa.py","functions/slepian_south_america.py","_mesh_methods.py","_plotly_methods.py","harmonic_methods.py"],[("Mesh.__post_init__","meshes/mesh.py"),("_create_coefficients","meshes/mesh_field.py, meshes/mesh_slepian_field.py, functions/slepian_africa.py, functions/slepian_south_america.py"),("extract_mesh_config/read_mesh/_mesh_laplacian","_mesh_methods.py"),("compute_random_signal","harmonic_methods.py")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); assert len(x['title'])<=80
print(len(P))
