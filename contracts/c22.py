from pyvc.driver import contract
from contracts.common import *
from contracts.c15 import REGION, kind_of, ANGLES

P = "sleplet.plot_methods."
SPHERE = "sleplet.plotting._create_plot_sphere.PlotSphere"
MESH = "sleplet.plotting._create_plot_mesh.PlotMesh"
UNSEEN = -1.56e30
TYPES = ["real", "imag", "abs", "sum"]


def boosts(S, L):
    """the documented power of two"""
    k = 1
    for top, factor in reversed(((2, 64), (4, 32), (8, 16), (128, 8), (512, 4), (1024, 2))):
        k = S.ite(L < top, factor, k)
    return k


def scaled(S, f, shape):
    """affinely onto [0, 1]; all zero to 1/2; constant (to one part in 1e5) to its value over its maximum"""
    mx, mn = S.ext("numpy.max", f), S.ext("numpy.min", f)
    zero = S.ext("numpy.all", S.build(shape, "b", lambda *i: S.eq(S.at(f, *i), 0)))
    flat = S.ext("numpy.all", S.build(shape, "b", lambda *i: abs(S.at(f, *i) - mx) <= abs(mx) / 100000))
    return lambda *i: S.where(zero, lambda: 0.5, lambda: S.where(flat, lambda: S.at(f, *i) / mx, lambda: (S.at(f, *i) - mn) / (mx - mn)))


def some_field(S, name, shape, dt="f"):
    how = S.choice(name + " values", ["any", "constant", "tiny", "zero"]) if S.concrete else "any"
    f = S.carr(name, shape) if dt == "c" else S.arr(name, shape)
    if how != "any":
        f *= {"constant": 0, "tiny": 1e-12, "zero": 0}[how]
        if how == "constant":
            f += 3.0
        S.arrs[name] = (f, f.copy())
    return f


@contract("C22", samples=40)
def normalise(S):
    a, b = S.int("rows", 1, sample=(1, 2, 3)), S.int("columns", 1, sample=(1, 2, 4))
    shape = (a, b) if S.choice("field", ["sphere", "mesh"]) == "sphere" else (a,)
    f = some_field(S, "f", shape)
    want = S.choice("normalise", [False, True])
    r = S.call(P + "_normalise_function", f, normalise=want)
    S.elems("normalised", r, shape, scaled(S, f, shape) if want else lambda *i: S.at(f, *i))
    S.unchanged("f")


@contract("C22", samples=30)
def plot_type(S):
    a, b = S.int("rows", 1, sample=(1, 2, 3)), S.int("columns", 1, sample=(1, 2, 4))
    f = S.carr("f", (a, b)) if S.choice("field", ["real", "complex"]) == "complex" else S.arr("f", (a, b))
    t = S.choice("type", TYPES)
    r = S.call(P + "_create_plot_type", f, t)
    S.elems(t, r, (a, b), kind(S, t, lambda i, j: f[i, j]))
    S.unchanged("f")


def kind(S, t, f):
    return {"real": lambda i, j: S.re(f(i, j)), "imag": lambda i, j: S.im(f(i, j)), "abs": lambda i, j: abs(f(i, j)),
            "sum": lambda i, j: S.re(f(i, j)) + S.im(f(i, j))}[t]


@contract("C22", samples=40)
def resolution(S):
    L = S.int("L", 1, sample=(1, 2, 3, 4, 7, 8, 16, 127, 128, 511, 512, 1023, 1024, 5000))
    S.equal("resolution", S.call(P + "calc_plot_resolution", L), L * boosts(S, L))


@contract("C22", samples=40)
def nearest_grid_point(S):
    L = sample_L(S)
    a, b = S.real("alpha", 0, 2, sample=(0, 0.25, 0.75, 1.99)), S.real("beta", 0, 1, sample=(0, 0.125, 0.5, 1))
    alpha, beta = S.items(S.call(P + "_calc_nearest_grid_point", L, a, b))
    t, p = S.ext("pyssht.sample_positions", L, Method="MWSS")
    S.equal("closest longitude", alpha, p[S.ext("numpy.argmin", S.build((2 * L,), "f", lambda j: abs(p[j] - a * S.pi)))])
    S.equal("closest colatitude", beta, t[S.ext("numpy.argmin", S.build((L + 1,), "f", lambda j: abs(t[j] - b * S.pi)))])


def transforms(S, L, res, spin, reality, flm_in, upsample):
    """pyssht as callee: analysis of the given field at L, synthesis of the padded coefficients at the resolution"""
    flm, out = S.carr("analysed", L * L), (S.arr if reality else S.carr)("boosted", (res + 1, 2 * res))

    def forward(f, L_, Spin=0, Method="MW", Reality=False, **k):
        S.elems("analysis: of the field", f, (L + 1, 2 * L), flm_in)
        S.ensure("analysis: bandlimit, spin, sampling and reality", S.and_(S.eq(L_, L), S.eq(Spin, spin), Method == "MWSS", bool(Reality) == bool(reality)))
        return flm

    def inverse(c, L_, Spin=0, Method="MW", Reality=False, **k):
        S.elems("zero padded coefficients", c, (res * res,), lambda q: S.where(q < L * L, lambda: flm[q], lambda: 0))
        S.ensure("synthesis: resolution, spin, sampling and reality", S.and_(S.eq(L_, res), S.eq(Spin, spin), Method == "MWSS", bool(Reality) == bool(reality)))
        return out
    S.patch("pyssht.forward", forward)
    S.patch("pyssht.inverse", inverse)
    return out


@contract("C22", samples=30)
def boost(S):
    """analysis at the bandlimit, zero padding, synthesis at the resolution; nothing at all without upsampling"""
    L = sample_L(S, sample=(1, 2, 3))
    up = S.choice("upsample", [True, False])
    res = S.int("resolution", L, sample=(3, 4, 6)) if up else L
    reality = S.choice("reality", [False, True])
    spin = 0 if reality else S.int("spin", 0, sample=(0, 1, 2))
    f = (S.arr if reality else S.carr)("field", (L + 1, 2 * L))
    out = transforms(S, L, res, spin, reality, lambda i, j: f[i, j], up)
    r = S.call(P + "_boost_field", f, L, res, reality=reality, spin=spin, upsample=up)
    want = out if up else f
    S.elems("boosted field", r, (res + 1, 2 * res), lambda i, j: S.at(want, i, j))
    S.unchanged("field", "analysed", "boosted")


@contract("C22", samples=30)
def boost_coefficients(S):
    n, k = S.int("coefficients", 0, sample=(0, 1, 4, 9)), S.int("boost", 0, sample=(0, 1, 5))
    f = S.carr("flm", n)
    r = S.call("sleplet.harmonic_methods._boost_coefficient_resolution", f, k)
    S.elems("padded", r, (n + k,), lambda q: S.where(q < n, lambda: f[q], lambda: 0))
    S.unchanged("flm")


def some_region(S, L):
    what = S.choice("region", ["polar", "lim_lat_lon", "arbitrary"])
    if what == "polar":
        return S.new(REGION, theta_max=S.real("theta_max", 0, S.pi, lo_open=True, hi_open=True), gap=S.choice("gap", [False, True]))
    if what == "lim_lat_lon":
        v = {n: S.real(n, 0, 2 * S.pi if n[0] == "p" else S.pi) for n in ANGLES}
        S.assume(kind_of(S, v)[1])
        return S.new(REGION, **v)
    return S.new(REGION, mask_name="my_mask")


def masked(S, L, region):
    """the region's mask as a callee (what it contains is property C16)"""
    m = S.barr("mask", (L + 1, 2 * L))

    def mask(L_, region_):
        S.equal("mask: bandlimit", L_, L)
        S.ensure("mask: region", S.same(region_, region))
        return m
    S.patch("sleplet._mask_methods.create_mask_region", mask)
    return m


def outside(S, m, L, f, unseen=UNSEEN):
    """the last column of a closed plot is the first one again"""
    def cell(i, j, k):
        return S.where(S.at(m, i, k), lambda: f(i, j), lambda: unseen)
    return lambda i, j: S.where(S.eq(j, 2 * L), lambda: cell(i, j, 0), lambda: cell(i, j, j))


@contract("C22", samples=30)
def outside_region(S):
    L = sample_L(S, sample=(1, 2, 3, 4))
    region = some_region(S, L)
    m = masked(S, L, region)
    f = S.arr("f_plot", (L + 1, 2 * L + 1))
    r = S.call(P + "_set_outside_region_to_minimum", f, L, region)
    S.elems("field", r, (L + 1, 2 * L + 1), outside(S, m, L, lambda i, j: f[i, j]))
    S.unchanged("f_plot", "mask")


@contract("C22", uses=["c06"], samples=30)
def sphere_amplitude(S):
    """the largest magnitude of the field as it is plotted"""
    before = S.choice("amplitude of", ["noised plot", "any plot"]) == "noised plot"
    o, L, field, reality, spin = sphere_function(S, before)
    if before:
        noised = S.choice("noise", [False, True])
        if not noised:
            S.set(o, "_unnoised_coefficients", None)
        r = S.call(P + "compute_amplitude_for_noisy_sphere_plots", o)
        if noised:
            S.equal("amplitude", r, S.ext("numpy.max", S.build((L + 1, 2 * L), "f", lambda i, j: abs(S.at(field, i, j)))))
        else:
            S.ensure("none without noise", r is None)
        return
    up = S.choice("upsample", [True, False])
    t = S.choice("type", TYPES)
    res = S.int("resolution", L, sample=(4, 6)) if up else L
    big = S.carr("boosted", (res + 1, 2 * res))

    def boosted(f, L_, res_, *, reality, spin, upsample):
        S.elems("boosted: the field", f, (L + 1, 2 * L), lambda i, j: S.at(field, i, j))
        S.equal("boosted: bandlimit", L_, L)
        S.equal("boosted: resolution", res_, res)
        S.equal("boosted: spin", spin, S.get(o, "spin"))
        S.ensure("boosted: reality and upsampling", S.and_(bool(reality) == bool(S.get(o, "reality")), bool(upsample) == up))
        return big if up else f
    S.patch(P + "_boost_field", boosted)
    S.patch(P + "calc_plot_resolution", lambda L_: res)
    r = S.call(P + "find_max_amplitude", o, plot_type=t, upsample=up)
    x = big if up else field
    S.equal("amplitude", r, S.ext("numpy.max", S.build((res + 1, 2 * res), "f", lambda i, j: abs(kind(S, t, lambda a, b: S.at(x, a, b))(i, j)))))


def sphere_function(S, before=False):
    """a harmonic or Slepian function and its field (of the coefficients before the noise) as a callee"""
    slepian = S.choice("function", ["harmonic", "Slepian"]) == "Slepian"
    L = sample_L(S, sample=(2, 3))
    reality = False if slepian else S.choice("reality", [False, True])
    spin = 0 if slepian or reality else S.int("spin", 0, 1, sample=(0, 1))
    given, clean = S.carr("coefficients", (L * L,)), S.carr("unnoised", (L * L,))
    c = clean if before else given
    kw = {"L": L, "coefficients": given, "reality": reality, "spin": spin, "_unnoised_coefficients": clean, "name": "f"}
    field = (S.arr if reality else S.carr)("field", (L + 1, 2 * L))

    def inverse(c_, L_, Spin=0, Method="MW", Reality=False, **k):
        S.elems("synthesis: of the coefficients", c_, (L * L,), lambda q: c[q])
        S.ensure("synthesis: bandlimit, spin, sampling and reality", S.and_(S.eq(L_, L), S.eq(Spin, spin), Method == "MWSS", bool(Reality) == bool(reality)))
        return field

    def slepian_inverse(c_, L_, s):
        S.elems("synthesis: of the coefficients", c_, (L * L,), lambda q: c[q])
        S.equal("synthesis: bandlimit", L_, L)
        S.ensure("synthesis: Slepian functions", S.same(s, problem))
        return field
    if slepian:
        problem, N, vec, val = slepian_object(S, L)
        o = S.obj("sleplet.functions.slepian.Slepian", slepian=problem, **kw)
        S.patch("sleplet.slepian_methods.slepian_inverse", slepian_inverse)
    else:
        o = S.obj("sleplet.functions.gaussian.Gaussian", _absent=("slepian",), **kw)
        S.patch("pyssht.inverse", inverse)
    return o, L, field, reality, spin


@contract("C22", samples=20)
def sphere_field(S):
    o, L, field, reality, spin = sphere_function(S)
    r = S.call(P + "_coefficients_to_field_sphere", o, S.get(o, "coefficients"))
    S.elems("field", r, (L + 1, 2 * L), lambda i, j: S.at(field, i, j))


@contract("C22", uses=["c07"], samples=30)
def mesh_field(S):
    """a mesh function's field and, when noised, its amplitude before the noise"""
    slepian = S.choice("function", ["mesh", "Slepian"]) == "Slepian"
    if slepian:
        ms, m, n, k, N, s = mesh_slepian_object(S)
        c, clean = S.arr("coefficients", N), S.arr("unnoised", N)
        o = S.obj("sleplet.meshes.mesh_slepian_field.MeshSlepianField", mesh=m, mesh_slepian=ms, coefficients=c, _unnoised_coefficients=clean)
        want, was = (S.call("sleplet.slepian_methods.slepian_mesh_inverse", ms, x) for x in (c, clean))
    else:
        m, n, k = mesh_object(S)
        c, clean = S.arr("coefficients", k), S.arr("unnoised", k)
        o = S.obj("sleplet.meshes.mesh_field.MeshField", _absent=("mesh_slepian",), mesh=m, coefficients=c, _unnoised_coefficients=clean)
        want, was = (S.call("sleplet.harmonic_methods.mesh_inverse", m, x) for x in (c, clean))
    r = S.call(P + "_coefficients_to_field_mesh", o, c)
    S.elems("field", r, (n,), lambda i: S.at(want, i))
    S.equal("amplitude", S.call(P + "compute_amplitude_for_noisy_mesh_plots", o), S.ext("numpy.max", S.build((n,), "f", lambda i: abs(S.at(was, i)))))
    S.set(o, "_unnoised_coefficients", None)
    S.ensure("none without noise", S.call(P + "compute_amplitude_for_noisy_mesh_plots", o) is None)


def plotly(S, kind, seen):
    """plotly as callee: what the figure is made of"""
    opaque = lambda *a, **k: S.ns()
    S.patch("plotly.graph_objects." + kind, lambda *a, **k: seen.update(k) or S.ns())
    S.patch("plotly.graph_objects.Figure", lambda *a, **k: seen.update(figure=1) or S.ns())
    S.patch("plotly.graph_objects." + ("surface" if kind == "Surface" else "mesh3d") + ".Lighting", opaque)
    S.patch("plotly.io.show", lambda *a, **k: seen.update(shown=1))
    S.patch("sleplet._plotly_methods.create_layout", opaque)
    S.patch("sleplet._plotly_methods.create_camera", opaque)

    def bar(tick, *, normalise, **k):
        seen.update(bar_tick=tick, bar_normalise=normalise)
        return S.ns()
    S.patch("sleplet._plotly_methods.create_colour_bar", bar)


def colours(S, seen, norm, amplitude, big):
    """normalised plots span [0, 1]; others are symmetric about zero up to the amplitude (by default the largest magnitude)"""
    S.ensure("figure shown", "figure" in seen and "shown" in seen)
    tick = big if amplitude is None else amplitude
    S.equal("tick mark", seen["bar_tick"], tick)
    S.ensure("colour bar normalisation", bool(seen["bar_normalise"]) == norm)
    S.equal("largest colour", seen["cmax"], 1 if norm else tick)
    S.equal("middle colour", seen["cmid"], 0.5 if norm else 0)
    S.equal("smallest colour", seen["cmin"], 0 if norm else -tick)


@contract("C22", uses=["c22.boost", "c22.normalise", "c22.plot_type", "c22.resolution", "c22.outside_region"], samples=40, budget=120)
def sphere_plot(S):
    """the plotted surface is the boosted, typed, scaled field, closed, and unseen outside the region"""
    L = sample_L(S, sample=(1, 2, 3, 4))
    up, norm, reality, t, inside = S.choice("variant", [(True, True, False, "real", False), (True, False, True, "sum", True), (False, True, True, "abs", True),
                                                        (False, False, False, "imag", False), (False, False, True, "real", False)])
    res = S.int("resolution", L, sample=(4, 6)) if up else L
    region = S.new(REGION, theta_max=1.0) if inside else None
    amplitude = S.real("amplitude", 0, sample=(0.0, 1, 2)) if not norm and S.choice("amplitude given", [False, True]) else None
    f, big = S.carr("f", (L + 1, 2 * L)), S.carr("boosted", (res + 1, 2 * res))
    typed, final = S.arr("typed", (res + 1, 2 * res)), S.arr("scaled", (res + 1, 2 * res))

    def boost_(f_, L_, res_, *, reality, spin, upsample):
        S.elems("boosted: the field", f_, (L + 1, 2 * L), lambda i, j: f[i, j])
        S.equal("boosted: bandlimit", L_, L)
        S.equal("boosted: resolution", res_, res)
        S.equal("boosted: spin", spin, 2)
        S.ensure("boosted: reality and upsampling", S.and_(bool(reality) == reality_, bool(upsample) == up))
        return big

    def typed_(f_, t_):
        S.elems("typed: the boosted field", f_, (res + 1, 2 * res), lambda i, j: big[i, j])
        S.ensure("typed: type", t_ == t)
        return typed

    def scaled_(f_, *, normalise):
        S.elems("scaled: the typed field", f_, (res + 1, 2 * res), lambda i, j: typed[i, j])
        S.ensure("scaled: normalisation", bool(normalise) == norm)
        return final
    reality_ = reality
    S.patch(P + "_boost_field", boost_)
    S.patch(P + "_create_plot_type", typed_)
    S.patch(P + "_normalise_function", scaled_)
    S.patch(P + "calc_plot_resolution", lambda L_: S.equal("resolution: bandlimit", L_, L) and False or res)
    seen = {}
    plotly(S, "Surface", seen)
    kw = {} if amplitude is None else {"amplitude": amplitude}
    if region is not None:
        m = masked(S, res, region)
        kw["region"] = region
    o = S.new(SPHERE, f, L, "name", normalise=norm, plot_type=t, reality=reality, spin=2, upsample=up, **kw)
    S.method(o, "execute")
    at = lambda i, j: S.where(S.eq(j, 2 * res), lambda: final[i, 0], lambda: S.at(final, i, j))
    S.elems("plotted field", seen["surfacecolor"], (res + 1, 2 * res + 1), outside(S, m, res, at) if region is not None else at)
    colours(S, seen, norm, amplitude, S.max(abs(S.ext("numpy.min", final)), abs(S.ext("numpy.max", final))))
    th, ph = S.ext("pyssht.sample_positions", res, Grid=True, Method="MWSS")
    for n, fn in (("x", lambda a, b: S.cos(b) * S.sin(a)), ("y", lambda a, b: S.sin(b) * S.sin(a)), ("z", lambda a, b: S.cos(a))):
        S.elems("position " + n, seen[n], (res + 1, 2 * res + 1), lambda i, j: fn(S.at(th, i, 0), S.where(S.eq(j, 2 * res), lambda: S.at(ph, i, 0), lambda: S.at(ph, i, j))))
    S.unchanged("f", "boosted", "typed", "scaled")


@contract("C22", samples=20)
def wrong_size(S):
    """a field that does not belong to the resolution is refused"""
    L = sample_L(S, sample=(2, 3))
    a, b = S.int("rows", 1, sample=(1, 2, 3, 4)), S.int("columns", 1, sample=(1, 2, 4, 6))
    f = S.arr("f", (a, b))
    S.assume(S.not_(S.eq(a * b, (L + 1) * 2 * L)))
    S.raises("wrong size", ("AttributeError",), lambda: S.call(SPHERE + "._setup_plot", f, L, method="MWSS"))


@contract("C22", samples=20)
def sphere_filename(S):
    L = sample_L(S)
    f = S.carr("f", (L + 1, 2 * L))
    up, norm, t = S.choice("upsample", [True, False]), S.choice("normalise", [True, False]), S.choice("type", TYPES)
    o = S.new(SPHERE, f, L, "name", normalise=norm, plot_type=t, upsample=up)
    parts = ["name"] + (["_res", L * boosts(S, L)] if up else []) + ["_" + t] + (["_norm"] if norm else [])
    S.equal("file name", S.get(o, "filename"), S.text(*parts))


@contract("C22", uses=["c22.normalise", "c25", "c16.mesh_faces"], samples=30)
def mesh_plot(S):
    """the plotted intensity is the field averaged onto the faces and scaled, and unseen on faces outside the region"""
    m, n, k = mesh_object(S, _colourbar_pos=0.9, _camera_view=None)
    f = S.arr("f", n)
    faces = S.get(m, "faces")
    nf = S.shape(faces)[0]
    norm, inside = S.choice("normalise", [True, False]), S.choice("inside", [False, True])
    amplitude = S.real("amplitude", 0, sample=(0.0, 1, 2)) if not norm and S.choice("amplitude given", [False, True]) else None
    avg, final = S.arr("averaged", nf), S.arr("scaled", nf)
    on = S.arr("region on faces", nf, dt="i", lo=0, hi=1)

    def average(faces_, f_):
        S.elems("averaged: the faces", faces_, (nf, 3), lambda i, j: faces[i, j])
        S.elems("averaged: the field", f_, (n,), lambda i: f[i])
        return avg

    def scaled_(f_, *, normalise):
        S.elems("scaled: the averaged field", f_, (nf,), lambda i: avg[i])
        S.ensure("scaled: normalisation", bool(normalise) == norm)
        return final
    S.patch("sleplet._mesh_methods.average_functions_on_vertices_to_faces", average)
    S.patch(P + "_normalise_function", scaled_)
    S.patch("sleplet._mask_methods.convert_region_on_vertices_to_faces", lambda mesh: S.ensure("region: of the mesh", S.same(mesh, m)) and False or on)
    seen = {}
    plotly(S, "Mesh3d", seen)
    o = S.new(MESH, m, "name", f, normalise=norm, region=inside, **({} if amplitude is None else {"amplitude": amplitude}))
    S.equal("file name", S.get(o, "filename"), "name_norm" if norm else "name")
    S.method(o, "execute")
    S.elems("plotted field", seen["intensity"], (nf,), (lambda i: S.where(S.eq(on[i], 1), lambda: final[i], lambda: -1e5)) if inside else (lambda i: final[i]))
    S.ensure("one value per face", seen["intensitymode"] == "cell")
    colours(S, seen, norm, amplitude, S.max(abs(S.ext("numpy.min", f)), abs(S.ext("numpy.max", f))))
    v = S.get(m, "vertices")
    for key, c in (("x", 0), ("y", 2), ("z", 1)):
        S.elems("vertex " + key, seen[key], (n,), lambda i: v[i, c])
    for key, c in (("i", 0), ("j", 1), ("k", 2)):
        S.elems("face corner " + key, seen[key], (nf,), lambda i: faces[i, c])
    S.unchanged("f", "averaged", "scaled", "region on faces")
