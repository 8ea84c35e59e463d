DEFAULT = ("Every contract clause is an obligation over the AST of /repo's current source, discharged for all inputs and all loop iterations; "
           "the same clauses are re-run on the real code with sampled inputs. Trusted: pyvc, z3, the library contracts of pyvc/models.py "
           "(numpy, pyssht, pys2let, igl, gmpy2, scipy); floating point is treated as exact arithmetic.")
NOTES = {
    'C02': DEFAULT + " For this property: `ssht.create_ylm`, `ssht.rotate_flms` are the library's definitions.",
    'C03': DEFAULT + ' For this property: tiling property of `pys2let.axisym_wav_l`.',
    'C04': DEFAULT + ' For this property: tiling property of `pys2let.axisym_wav_l`.',
    'C05': DEFAULT + ' For this property: `ssht.inverse` evaluates Σ f_lm Y_lm.',
    'C06': DEFAULT + ' For this property: `ssht.forward∘inverse` identity on bandlimited fields.',
    'C09': DEFAULT + ' For this property: `gmpy2.fac` is the factorial; z3 cannot sum the Racah series symbolically: the series is compared term by term (same summand, same range).',
    'C10': DEFAULT + ' For this property: `ssht.generate_dl`.',
    'C11': DEFAULT + ' For this property: sampling symmetries of `ssht` weights and grids.',
    'C13': DEFAULT + ' For this property: `scipy/numpy.linalg.eigh`: ascending eigenvalues, orthonormal columns.',
    'C14': DEFAULT + ' For this property: shared memory of the OS.',
    'C15': DEFAULT + ' For this property: pydantic runs declared validators in field order.',
    'C16': DEFAULT + ' For this property: files on disk are the ghost store of section 1.',
    'C17': DEFAULT + ' For this property: `numpy.random.default_rng(seed)` is a function of (seed, draw index).',
    'C18': DEFAULT + ' For this property: `numpy.random.default_rng(seed)` is a function of (seed, draw index).',
    'C19': DEFAULT + ' For this property: `ssht.forward` of a real field is conjugate symmetric.',
    'C21': DEFAULT + ' For this property: reading back what `np.save` wrote returns it; mask files are identified by name.',
    'C22': DEFAULT + ' For this property: plotly only displays.',
    'C23': DEFAULT + ' For this property: argparse; `fractions.Fraction.limit_denominator`.',
    'C24': DEFAULT + ' For this property: pooch registry is a symbolic set.',
    'C26': DEFAULT + ' For this property: igl reads, upsamples and differentiates meshes; plotly objects hold what they are given.',
}
NA = {}
