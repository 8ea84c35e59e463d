import re
from pyvc.driver import contract
from contracts.common import *
from contracts.c15 import REGION
from contracts.c20 import Maker

ST, CL = "sleplet._string_methods.", "sleplet._class_lists."
SPH, MSH = "sleplet._scripts.plotting_on_sphere.", "sleplet._scripts.plotting_on_mesh."
MESH_CLASSES = ["mesh_basis_functions.MeshBasisFunctions", "mesh_field.MeshField", "mesh_noise_field.MeshNoiseField",
                "mesh_slepian_field.MeshSlepianField", "mesh_slepian_functions.MeshSlepianFunctions", "mesh_slepian_noise_field.MeshSlepianNoiseField",
                "mesh_slepian_wavelet_coefficients.MeshSlepianWaveletCoefficients", "mesh_slepian_wavelets.MeshSlepianWavelets"]
MESHES = {"bird", "cheetah", "cube", "dragon", "homer", "teapot"}
FRACTIONS = (0, 0.75, 0.125, 0.1, 1, 2, 1.5, 1 / 3, 2 / 7, 0.004, 1e-5, 1 / 999983, 123 / 999979, -0.25)


def pi_text(S, n, d):
    return S.text(n, "pi") if S.is_true(S.eq(d, 1)) else S.text(n, "pi", d)


def angle_text(S, a, b, g=None):
    """alphaApiB_betaCpiD[_gammaEpiF] with reduced fractions, 0 for zero angles"""
    out = []
    for name, x in (("alpha", a), ("_beta", b)):
        n, d = S.fraction(x)
        out += [name] + (["0"] if S.is_true(S.eq(n, 0)) else [pi_text(S, n, d)])
    if g is not None:
        n, d = S.fraction(g)
        if not S.is_true(S.eq(n, 0)):
            out += ["_gamma", pi_text(S, n, d)]
    return S.text(*out)


@contract("C23", samples=60)
def angles(S):
    a, b = S.real("alpha", sample=FRACTIONS), S.real("beta", sample=FRACTIONS)
    if S.choice("gamma", ["given", "default"]) == "given":
        g = S.real("gamma", sample=FRACTIONS)
        S.equal("name", S.call(ST + "filename_angle", a, b, g), angle_text(S, a, b, g))
    else:
        S.equal("name", S.call(ST + "filename_angle", a, b), angle_text(S, a, b))


@contract("C23", samples=60)
def arguments(S):
    """numerator, name and (for values between zero and one) denominator"""
    x = S.real("value", sample=FRACTIONS) if S.choice("value", ["real", "integer"]) == "real" else S.int("value", sample=(-3, 0, 1, 2, 10))
    n, d = S.fraction(x)
    r = S.call(ST + "filename_args", x, "arg")
    S.equal("name", r, S.text("_", n, "arg", d) if S.is_true(S.and_(abs(x) < 1, S.not_(S.eq(x, 0)))) else S.text("_", n, "arg"))


@contract("C23", samples=20)
def wavelets(S):
    j, jmin = S.int("j", 0, sample=(0, 1, 5)), S.int("j_min", 0, sample=(0, 2))
    S.equal("scale", S.call(ST + "wavelet_ending", jmin, j), S.text("_", j + jmin, "j"))
    S.equal("scaling function", S.call(ST + "wavelet_ending", jmin, None), "_scaling")


@contract("C23", samples=30)
def degrees(S):
    x = S.int("degrees", sample=(0, 1, 40, 90, 180, 360, 359))
    S.equal("degrees", S.call(ST + "angle_as_degree", x * S.pi / 180), x)


def snake(name):
    return re.sub(r"(?<!^)(?=[A-Z])", "_", name).lower()


@contract("C23", samples=1)
def names(S):
    """the classes offered, in order, and the name each is offered under: that of its module"""
    for lst, pkg, want in (("COEFFICIENTS", "functions", FLM_CLASSES + FP_CLASSES), ("FLM", "functions", FLM_CLASSES), ("FP", "functions", FP_CLASSES),
                           ("MAPS_LM", "functions", ["earth.Earth", "south_america.SouthAmerica", "wmap.Wmap"]), ("MESH_COEFFICIENTS", "meshes", MESH_CLASSES)):
        classes = S.items(S.fn(CL + lst))
        S.equal(lst + ": number", len(classes), len(want))
        for c, w in zip(classes, want):
            S.ensure(f"{lst}: {w}", S.same(c, S.fn(f"sleplet.{pkg}.{w}")))
        kw = {"word_to_remove": "Mesh"} if pkg == "meshes" else {}
        got = S.items(S.call(ST + "convert_classes_list_to_snake_case", S.fn(CL + lst), **kw))
        S.equal(lst + ": number of names", len(got), len(want))
        for g, w in zip(got, want):
            S.equal(f"{lst}: name of {w}", g, w.split(".")[0].removeprefix("mesh_"))
    S.ensure("meshes", set(S.items(S.fn(CL + "MESHES"))) == MESHES)


@contract("C23", uses=["c23.names"], samples=60)
def selections(S):
    """a name is accepted exactly when it is offered"""
    which, offered = S.choice("selection", [(SPH + "valid_maps", ["earth", "south_america", "wmap"]), (SPH + "valid_plotting", [c.split(".")[0] for c in FLM_CLASSES + FP_CLASSES]),
                                            (MSH + "valid_meshes", sorted(MESHES)), (MSH + "valid_methods", [c.split(".")[0].removeprefix("mesh_") for c in MESH_CLASSES])])
    name = S.choice("name", sorted({"earth", "wmap", "africa", "slepian_wavelets", "slepian", "field", "basis_functions", "mesh_field", "Earth", "", "cube", "unknown", "gaussian"}))
    k, v = S.outcome(lambda: S.call(which, name))
    S.ensure("accepted exactly when offered", (k == "ok") == (name in offered))
    if k == "ok":
        S.equal("the selection", v, name)


def snapped(S, L, a, b):
    """the grid point as a callee"""
    al, be = S.real("grid alpha", 0, 2 * S.pi, sample=(0.0, 0.5)), S.real("grid beta", 0, S.pi, sample=(0.0, 0.5))

    def near(L_, a_, b_):
        S.equal("grid point: bandlimit", L_, L)
        S.equal("grid point: alpha", a_, a)
        S.equal("grid point: beta", b_, b)
        return S.numpy_scalar(al), S.numpy_scalar(be)
    S.patch("sleplet.plot_methods._calc_nearest_grid_point", near)
    return al, be


@contract("C23", uses=["c23.angles", "c22.nearest_grid_point", "c22.sphere_field", "c01", "c02"], samples=40, budget=120)
def plot(S):
    """exactly the requested method is applied at the snapped angles, then the convolution, then the view of the Earth"""
    L = sample_L(S, sample=(2, 3))
    slepian = S.choice("function", ["harmonic", "Slepian"]) == "Slepian"
    method = S.choice("method", ["north", "translate"] + ([] if slepian else ["rotate"]))
    convolve = S.choice("convolve", [False, True])
    earth = None if slepian else S.choice("earth", [None, "africa", "south_america"])
    notes = S.choice("annotations", [True, False]) if method == "translate" else True
    n = L * L
    a, b, g = S.real("alpha", sample=FRACTIONS), S.real("beta", sample=FRACTIONS), S.real("gamma", sample=FRACTIONS)
    al, be = snapped(S, L, a, b)
    c = S.carr("coefficients", n)
    state = {"now": c}

    def named(a_, b_, g_=None):
        S.equal("name: alpha", a_, a)
        S.equal("name: beta", b_, b)
        S.ensure("name: rotation angle only for rotations", (g_ is not None) == (method == "rotate"))
        if g_ is not None:
            S.equal("name: gamma", g_, g)
        return "ANGLES"
    S.patch(ST + "filename_angle", named)
    kw = {"L": L, "coefficients": c, "reality": False, "spin": 0, "name": "earth" if earth else "f"}
    calls = []
    if slepian:
        problem, N, vec, val = slepian_object(S, L)
        kw |= {"slepian": problem, "region": S.new(REGION, theta_max=1.0)}
        cls = "sleplet.functions.slepian.Slepian"
        o = S.obj(cls, **kw)
    else:
        cls = "sleplet.functions.gaussian.Gaussian"
        o = S.obj(cls, _absent=("slepian",), **kw)
        N = None

    def step(what, size=n):
        def run(*check):
            calls.append(what)
            for nm, x, y in check:
                S.equal(f"{what}: {nm}", x, y) if y is not None else S.ensure(f"{what}: {nm}", x is None)
            state["now"] = S.carr(what + "d", size)
            return state["now"]
        return run

    def rotate(self, alpha, beta, *, gamma=0):
        return step("rotate")(("alpha", alpha, al), ("beta", beta, be), ("gamma", gamma, g * S.pi))

    def translate(self, alpha, beta, *, shannon=None):
        return step("translate", n if N is None else N)(("alpha", alpha, al), ("beta", beta, be), ("Shannon number", shannon, N))

    def convolve_(self, f_, g_, *, shannon=None):
        S.equal("convolve: the map", f_, want_g)
        S.equal("convolve: the current coefficients", g_, state["now"])
        return step("convolve", n if N is None else N)(("Shannon number", shannon, N))
    S.patch(cls + ".rotate", rotate)
    S.patch(cls + ".translate", translate)
    S.patch(cls + ".convolve", convolve_)

    def view(which):
        def run(c_, L_):
            S.equal(f"view of {which}: coefficients", c_, state["now"])
            return step("view " + which)(("bandlimit", L_, L))
        return run
    for w in ("africa", "south_america"):
        S.patch("sleplet.harmonic_methods.rotate_earth_to_" + w, view(w))
    other = want_g = None
    if convolve:
        gc = want_g = S.carr("map", n)
        other = S.obj("sleplet.functions.wmap.Wmap", coefficients=gc, name="wmap", L=L)
        if slepian:
            want_g = S.carr("map in the Slepian basis", n)

            def forward(L_, s, *, f=None, flm=None, **k):
                S.equal("map: bandlimit", L_, L)
                S.ensure("map: Slepian functions", S.same(s, problem))
                S.equal("map: coefficients", flm, gc)
                return want_g
            S.patch("sleplet.slepian_methods.slepian_forward", forward)
    field = S.carr("field", (L + 1, 2 * L))

    def to_field(f_, c_):
        S.ensure("field: of the function", S.same(f_, o))
        S.equal("field: of the final coefficients", c_, state["now"])
        return field
    S.patch("sleplet.plot_methods._coefficients_to_field_sphere", to_field)
    seen = {}
    keys = ("f", "L", "filename")

    def sphere(*args, **k):
        seen.update(zip(keys, args))
        seen.update(k)
        return S.ns(execute=S.function(lambda: seen.update(done=1)))
    S.patch("sleplet.plotting._create_plot_sphere.PlotSphere", sphere)
    up, norm = S.choice("upsample", [(True, False), (False, True)])
    amp = S.real("amplitude", 0, sample=(1.0, 2.0))
    S.call(SPH + "plot", o, other, alpha_pi_frac=a, beta_pi_frac=b, gamma_pi_frac=g, annotations=notes, normalise=norm, method=method, plot_type="abs",
           upsample=up, earth_view=earth or "africa", amplitude=amp)
    S.ensure("steps in order", [x.replace("view ", "") for x in calls] == ([method] if method != "north" else []) + (["convolve"] if convolve else []) + ([earth] if earth else []))
    S.ensure("plot made", "done" in seen)
    name = ["earth" if earth else "f"]
    if method == "rotate":
        name += ["_rotate_ANGLES"]
    if method == "translate":
        name += ["_translate_ANGLES"]
    if convolve:
        name += ["_convolved_wmap"]
    if earth == "africa":
        name += ["_africa"]
    S.equal("file name", seen["filename"], S.text(*name))
    S.equal("plotted: field", seen["f"], field)
    S.equal("plotted: bandlimit", seen["L"], L)
    S.equal("plotted: amplitude", seen["amplitude"], amp)
    S.ensure("plotted: options", S.and_(bool(seen["normalise"]) == norm, bool(seen["upsample"]) == up, seen["plot_type"] == "abs", not seen["reality"]))
    S.equal("plotted: spin", seen["spin"], 0)
    S.ensure("plotted: region", S.same(seen["region"], kw["region"]) if slepian else seen["region"] is None)
    marks = S.items(seen["annotations"])
    if method == "translate" and notes:
        S.equal("one mark", len(marks), 1)
        m = marks[0]
        S.equal("mark x", S.getitem(m, "x"), S.sin(be) * S.cos(al))
        S.equal("mark y", S.getitem(m, "y"), S.sin(be) * S.sin(al))
        S.equal("mark z", S.getitem(m, "z"), S.cos(be))
    else:
        S.equal("no mark", len(marks), 0)
    S.unchanged("coefficients")


@contract("C23", uses=["c23.plot", "c23.names", "c20.arguments"], samples=40, budget=100)
def main(S):
    """the named class is built with the given options and plotted with them"""
    cls = S.choice("class", ["functions.gaussian.Gaussian", "functions.wmap.Wmap", "functions.spherical_harmonic.SphericalHarmonic",
                             "functions.slepian.Slepian", "functions.slepian_identity.SlepianIdentity"])
    o = Maker(S, "sleplet." + cls)
    L = o.L
    extra = {"Gaussian": [1], "SphericalHarmonic": [0, 0]}.get(o.name) if S.choice("arguments", [False, True]) else None
    options = S.choice("options", [{}, {"region": True, "type": "imag", "method": "rotate", "unnormalise": True, "perspective": "africa"},
                                   {"noise": 5, "smoothing": 2, "outline": False, "unzeropad": True, "method": "translate", "convolve": "wmap"}])
    a, b, g = S.real("alpha", sample=FRACTIONS), S.real("beta", sample=FRACTIONS), S.real("gamma", sample=FRACTIONS)
    args = {"alpha": a, "bandlimit": L, "beta": b, "convolve": None, "extra_args": None if extra is None else S.list(*extra), "function": cls.split(".")[1], "gamma": g,
            "method": "north", "noise": None, "outline": True, "perspective": "south_america", "region": False, "smoothing": None, "type": "real",
            "unnormalise": False, "unzeropad": False} | options
    S.patch(SPH + "read_args", lambda: S.ns(**args))
    region = o.kw.get("region") or S.new(REGION, theta_max=1.0)
    S.patch("sleplet._mask_methods.create_default_region", lambda: region)
    S.patch("sleplet.functions.wmap.Wmap._create_coefficients", lambda self: o.c)
    snr = S.real("achieved", sample=(1.0,))
    S.patch(("sleplet.functions.fp.Fp" if "Slepian" in o.name else "sleplet.functions.flm.Flm") + "._add_noise_to_signal", lambda self: (o.c, snr))
    amp = S.real("amplitude", 0, sample=(1.0, 2.0))
    made = []

    def amplitude(f):
        made.append(f)
        return amp
    S.patch("sleplet.plot_methods.compute_amplitude_for_noisy_sphere_plots", amplitude)
    seen = {}

    def plot_(f, g_, **k):
        seen.update(k, f=f, g=g_)
    S.patch(SPH + "plot", plot_)
    S.call(SPH + "main")
    f = seen["f"]
    S.equal("class", S.classname(f), o.name)
    S.ensure("amplitude of that function", S.same(made[0], f))
    S.equal("bandlimit", S.get(f, "L"), L)
    if args["region"]:
        S.ensure("region: the default one", S.same(S.get(f, "region"), region))
    else:
        S.ensure("no region", S.get(f, "region") is None or "Slepian" in o.name)
    for n in ("noise", "smoothing"):
        if args[n] is None:
            S.ensure("no " + n, S.get(f, n) is None)
        else:
            S.equal(n, S.get(f, n), args[n])
    if extra is not None:
        S.ensure("arguments", S.items(S.get(f, "extra_args")) == extra)
        if o.name == "Gaussian":
            S.equal("argument applied", S.get(f, "sigma"), 10)
    if args["convolve"] is None:
        S.ensure("no convolution", seen["g"] is None)
    else:
        S.equal("convolution with", S.classname(seen["g"]), "Wmap")
        S.equal("map: bandlimit", S.get(seen["g"], "L"), L)
    for n, x in (("alpha_pi_frac", a), ("beta_pi_frac", b), ("gamma_pi_frac", g), ("amplitude", amp), ("method", args["method"]), ("plot_type", args["type"]), ("earth_view", args["perspective"])):
        S.equal(n, seen[n], x)
    S.ensure("annotations", bool(seen["annotations"]) == args["outline"])
    S.ensure("normalise", bool(seen["normalise"]) == (not args["unnormalise"]))
    S.ensure("upsample", bool(seen["upsample"]) == (not args["unzeropad"]))


@contract("C23", uses=["c23.names", "c22.mesh_field"], samples=40, budget=100)
def mesh_main(S):
    cls = S.choice("class", ["mesh_basis_functions.MeshBasisFunctions", "mesh_field.MeshField", "mesh_slepian_functions.MeshSlepianFunctions", "mesh_slepian_field.MeshSlepianField"])
    o = Maker(S, "sleplet.meshes." + cls)
    rank = S.choice("arguments", [False, True]) and "Functions" in cls
    options = S.choice("options", [{}, {"region": True, "unnormalise": True}, {"noise": 5, "zoom": True}])
    args = {"function": "cube", "extra_args": S.list(0) if rank else None, "method": cls.split(".")[0].removeprefix("mesh_"), "noise": None, "region": False,
            "unnormalise": False, "zoom": False} | options
    S.patch(MSH + "read_args", lambda: S.ns(**args))
    base = "sleplet.meshes.mesh_" + ("slepian" if "Slepian" in cls else "harmonic") + "_coefficients.Mesh" + ("Slepian" if "Slepian" in cls else "Harmonic") + "Coefficients"
    S.patch(base + "._add_noise_to_signal", lambda self: (o.c, S.real("achieved", sample=(1.0,))))

    def mesh(name, *, number_basis_functions=None, zoom=False):
        S.equal("mesh", name, "cube")
        S.ensure("zoom", bool(zoom) == args["zoom"])
        return o.mesh
    S.patch("sleplet.meshes.mesh.Mesh", mesh)
    amp = S.real("amplitude", 0, sample=(1.0, 2.0))
    S.patch("sleplet.plot_methods.compute_amplitude_for_noisy_mesh_plots", lambda f: amp)
    seen = {}
    S.patch(MSH + "plot", lambda f, **k: seen.update(k, f=f))
    S.call(MSH + "main")
    f = seen["f"]
    S.equal("class", S.classname(f), o.name)
    S.ensure("on the mesh", S.same(S.get(f, "mesh"), o.mesh))
    S.ensure("region", bool(S.get(f, "region")) == args["region"])
    if args["noise"] is None:
        S.ensure("no noise", S.get(f, "noise") is None)
    else:
        S.equal("noise", S.get(f, "noise"), args["noise"])
    if rank:
        S.equal("argument applied", S.get(f, "rank"), 0)
    S.equal("amplitude", seen["amplitude"], amp)
    S.ensure("normalise", bool(seen["normalise"]) == (not args["unnormalise"]))


@contract("C23", uses=["c22.mesh_field"], samples=20)
def mesh_plot(S):
    """the function's field is plotted on its mesh, inside its region for Slepian functions"""
    slepian = S.choice("function", ["mesh", "Slepian"]) == "Slepian"
    if slepian:
        ms, m, n, k, N, s = mesh_slepian_object(S)
        o = S.obj("sleplet.meshes.mesh_slepian_field.MeshSlepianField", mesh=m, mesh_slepian=ms, coefficients=S.arr("coefficients", k), name="f")
    else:
        m, n, k = mesh_object(S)
        o = S.obj("sleplet.meshes.mesh_field.MeshField", _absent=("mesh_slepian",), mesh=m, coefficients=S.arr("coefficients", k), name="f")
    field = S.arr("field", n)

    def to_field(f, c):
        S.ensure("field: of the function", S.same(f, o))
        S.equal("field: of its coefficients", c, S.get(o, "coefficients"))
        return field
    S.patch("sleplet.plot_methods._coefficients_to_field_mesh", to_field)
    seen = {}

    def plot_(*args, **kw):
        seen.update(zip(("mesh", "filename", "f"), args))
        seen.update(kw)
        return S.ns(execute=S.function(lambda: seen.update(done=1)))
    S.patch("sleplet.plotting._create_plot_mesh.PlotMesh", plot_)
    norm = S.choice("normalise", [True, False])
    amp = S.real("amplitude", 0, sample=(1.0, 2.0))
    S.call(MSH + "plot", o, normalise=norm, amplitude=amp)
    S.ensure("plot made", "done" in seen)
    S.ensure("mesh", S.same(seen["mesh"], m))
    S.equal("field", seen["f"], field)
    S.equal("file name", seen["filename"], "f")
    S.equal("amplitude", seen["amplitude"], amp)
    S.ensure("normalise", bool(seen["normalise"]) == norm)
    S.ensure("region", bool(seen["region"]) == slepian)


@contract("C23", uses=["c23.selections"], samples=4)
def options(S):
    """every command line option selects among exactly what exists"""
    for mod, selections in ((SPH, {"function": [c.split(".")[0] for c in FLM_CLASSES + FP_CLASSES], "convolve": ["earth", "south_america", "wmap"],
                                   "method": ["north", "rotate", "translate"], "perspective": ["africa", "south_america"], "type": ["abs", "real", "imag", "sum"]}),
                            (MSH, {"function": sorted(MESHES), "method": [c.split(".")[0].removeprefix("mesh_") for c in MESH_CLASSES]})):
        seen = {}

        def add(*names, **kw):
            long = [n for n in names if n.startswith("--")]
            seen[(long[0] if long else names[0]).strip("-")] = kw
        parsed = S.ns()
        S.patch("argparse.ArgumentParser", lambda *a, **k: S.ns(add_argument=S.function(add), parse_args=S.function(lambda: parsed)))
        r = S.call(mod + "read_args")
        S.ensure("the parsed arguments", S.same(r, parsed))
        for n, want in selections.items():
            got = S.items(seen[n]["choices"])
            S.ensure(f"{n}: choices", sorted(got) == sorted(want))
        for n, kw in seen.items():
            d = kw.get("default")
            if n in selections and n != "function":
                S.ensure(f"{n}: default is none or a choice", d is None or d in selections[n])
        kinds = {"alpha": float, "beta": float, "gamma": float, "bandlimit": int} if mod == SPH else {}
        S.ensure("options", set(seen) >= set(selections) | set(kinds) | {"extra_args", "noise", "region", "unnormalise"})
