"""C26: meshes and data signals are built from their own files and problems"""
from pyvc.driver import contract
from contracts.common import *
from contracts.c20 import Maker, DATA_FIELDS, REGION, F, M, ANY, smoothing_of, field

MM = "sleplet._mesh_methods."
EARTH_FIELDS = [F + "slepian_africa.SlepianAfrica", F + "slepian_south_america.SlepianSouthAmerica"]


@contract("C26", "C05", uses=["c05", "c06"], samples=30)
def slepian_data_fields(S):
    """the Slepian coefficients of Africa / South America are the inner products of the signal of that name, asked for with the same
    bandlimit and smoothing, with the Slepian functions of that region"""
    cls = S.choice("class", EARTH_FIELDS)
    o = Maker(S, cls, coefficients=False)
    N = S.get(o.problem, "N")
    sm = smoothing_of(S)
    f = field(S, DATA_FIELDS[o.name.removeprefix("Slepian")], o.n, sm, "signal")
    r = o.new(**sm)
    S.elems("coefficients", S.get(r, "coefficients"), (N,), lambda p: S.sum(0, o.n, lambda q: f[q] * S.conj(o.vec[p, q])))
    S.ensure("not flagged real", not S.get(r, "reality"))
    S.equal("spin", S.get(r, "spin"), 0)
    S.ensure("its own problem", S.same(S.get(r, "slepian"), o.problem))
    S.unchanged("signal", "eigenvectors")


@contract("C26", samples=30)
def region_of_data_fields(S):
    """only the region of that name is accepted"""
    cls = S.choice("class", EARTH_FIELDS)
    o = Maker(S, cls)
    own, other = ("south_america", "africa") if "South" in o.name else ("africa", "south_america")
    which = S.choice("region", ["own", "other", "cap", "rectangle", "default"])
    kw = {"mask_name": {"own": own, "other": other}[which]} if which in ("own", "other") else \
        {"theta_max": 1.0} if which == "cap" else {"theta_min": 0.5, "theta_max": 1.0, "phi_min": 0.25, "phi_max": 2.0}
    if which == "default":
        default = S.choice("default", ["africa", "south_america", None])
        S.environment(SLEPIAN_MASK=default, POLAR_GAP=None, PHI_MAX=None, PHI_MIN=None,
                      THETA_MAX=None, THETA_MIN=None)
        bad = (default or "south_america") != own
    else:
        o.kw["region"] = S.new(REGION, **kw)
        bad = which != "own"
    if which == "default":
        o.kw.pop("region")
    S.refuses_iff("another region", S.eq(1 if bad else 0, 1), ANY, o.new)


@contract("C26", uses=["c08"], samples=20)
def mesh_field(S):
    """inner products of the basis with the second component of the vertex normals of the mesh"""
    m, nv, k = mesh_object(S)
    V, Fc = S.get(m, "vertices"), S.get(m, "faces")
    normals = S.arr("normals", (nv, 3))

    def per_vertex_normals(v, f):
        S.elems("positions", v, (nv, 3), lambda i, j: S.at(V, i, j))
        S.elems("faces", f, S.shape(Fc), lambda i, j: S.at(Fc, i, j))
        return normals
    S.patch("igl.per_vertex_normals", per_vertex_normals)
    S.opaque_names()
    region = S.choice("region", [False, True])
    r = S.new(M + "mesh_field.MeshField", m, region=region)
    b = S.get(m, "basis_functions")
    S.elems("coefficients", S.get(r, "coefficients"), (k,), lambda i: S.sum(0, nv, lambda v: S.at(normals, v, 1) * S.at(b, i, v)))
    S.ensure("its own mesh", S.same(S.get(r, "mesh"), m))
    S.unchanged("normals", "basis", "vertex positions", "face indices")


@contract("C26", uses=["c07", "c08"], samples=20)
def mesh_slepian_field(S):
    """inner products of the mesh field with the Slepian functions of the mesh"""
    o = Maker(S, M + "mesh_slepian_field.MeshSlepianField", coefficients=False)
    N, s = S.get(o.problem, "N"), S.get(o.problem, "slepian_functions")
    u = S.arr("field", (o.n,))

    def coefficients(self_):
        S.ensure("the field of the same mesh", S.same(S.get(self_, "mesh"), o.mesh))
        return u
    S.patch(M + "mesh_field.MeshField._create_coefficients", coefficients)
    r = o.new()
    S.elems("coefficients", S.get(r, "coefficients"), (N,), lambda p: S.sum(0, o.n, lambda i: S.at(u, i) * S.at(s, p, i)))
    S.unchanged("field", "slepian_functions")


BOX = ("XMIN", "XMAX", "YMIN", "YMAX", "ZMIN", "ZMAX")


@contract("C26", "C25", uses=["c16.mesh_region"], samples=20)
def mesh(S):
    """a mesh is its configuration's: polygons, box, camera and colour bar (the region's when zoomed) and the eigenbasis of its own polygons"""
    name, zoom = S.choice("name", ["cube", "blob"]), S.choice("zoom", [False, True])
    conf = {k: S.real(k, sample=(-1, 0, 0.5, 2)) for k in ("CAMERA_X", "CAMERA_Y", "CAMERA_Z", "CENTRE_X", "CENTRE_Y", "CENTRE_Z",
                                                           "DEFAULT_COLOURBAR_POS", "REGION_COLOURBAR_POS", *BOX)}
    conf |= {k: S.real(k, 0, lo_open=True, sample=(0.5, 1, 2.5)) for k in ("DEFAULT_ZOOM", "REGION_ZOOM")}
    conf |= {"FILENAME": "blob.off", "UPSAMPLE": S.int("UPSAMPLE", 0, sample=(0, 1, 2))}
    n, n0 = S.int("vertices", 4, sample=(4, 6, 9)), S.int("vertices before", 1, sample=(3, 4))
    k = S.int("k", 1, n - 1, sample=(1, 2, 3))
    nf = S.int("faces", 1, sample=(1, 2, 4))
    V0, F0 = S.arr("read vertices", (n0, 3)), S.arr("read faces", (2, 3), dt="i", lo=0, hi=n0 - 1)
    V, Fc = S.arr("vertex positions", (n, 3)), S.arr("face indices", (nf, 3), dt="i", lo=0, hi=n - 1)
    asked = S.choice("number of basis functions", ["default", "given"])
    size = k if asked == "given" else n // 4
    vals, basis = S.arr("values", (size,)), S.arr("basis", (size, n))

    def config(mesh_name):
        S.ensure("its own configuration", mesh_name == name)
        return S.dict(**conf)

    def read(path):
        S.ensure("the configured polygons", S.package_file(path) == "meshes_polygons_blob.off")
        return V0, F0

    def upsample(v, f, number_of_subdivs=1):
        S.elems("upsampled vertices", v, (n0, 3), lambda i, j: S.at(V0, i, j))
        S.elems("upsampled faces", f, (2, 3), lambda i, j: S.at(F0, i, j))
        S.equal("upsampling", number_of_subdivs, conf["UPSAMPLE"])
        return V, Fc

    def eig(mesh_name, v, f, *, number_basis_functions=None):
        S.ensure("eigenbasis: name", mesh_name == name)
        S.elems("eigenbasis: vertices", v, (n, 3), lambda i, j: S.at(V, i, j))
        S.elems("eigenbasis: faces", f, (nf, 3), lambda i, j: S.at(Fc, i, j))
        if asked == "given":
            S.equal("eigenbasis: size", number_basis_functions, k)
        else:
            S.ensure("eigenbasis: default size", number_basis_functions is None or S.is_true(S.eq(number_basis_functions, size)))
        return vals, basis, size

    camera = {}

    def eye(x, y, z, zoom_, *, x_centre=0, y_centre=0, z_centre=0):
        for a, v in zip("xyz", (x, y, z)):
            S.equal("camera " + a, v, conf["CAMERA_" + a.upper()])
        S.equal("camera zoom", zoom_, conf["REGION_ZOOM" if zoom else "DEFAULT_ZOOM"])
        for a, v in zip("xyz", (x_centre, y_centre, z_centre)):
            S.equal("camera centre " + a, v, conf["CENTRE_" + a.upper()] if zoom else 0)
        camera["seen"] = True
        return None
    S.patch("plotly.graph_objects.layout.scene.Camera", lambda **k: S.ns())
    S.patch(MM + "extract_mesh_config", config)
    S.patch("igl.read_triangle_mesh", read)
    S.patch("igl.upsample", upsample)
    S.patch(MM + "mesh_eigendecomposition", eig)
    S.patch("sleplet._plotly_methods.create_camera", eye)
    kw = {"number_basis_functions": k} if asked == "given" else {}
    r = S.new("sleplet.meshes.mesh.Mesh", name, zoom=zoom, **kw)
    S.ensure("camera made", "seen" in camera)
    S.equal("colour bar position", S.get(r, "_colourbar_pos"), conf["REGION_COLOURBAR_POS" if zoom else "DEFAULT_COLOURBAR_POS"])
    S.elems("vertices", S.get(r, "vertices"), (n, 3), lambda i, j: S.at(V, i, j))
    S.elems("faces", S.get(r, "faces"), (nf, 3), lambda i, j: S.at(Fc, i, j))
    S.elems("eigenvalues", S.get(r, "mesh_eigenvalues"), (size,), lambda i: S.at(vals, i))
    S.elems("basis functions", S.get(r, "basis_functions"), (size, n), lambda i, j: S.at(basis, i, j))
    S.equal("number of basis functions", S.get(r, "number_basis_functions"), size)
    reg = S.get(r, "mesh_region")
    S.same_shape("region", reg, (n,))
    S.index((n,), lambda i: S.ensure("region: the configured box", S.iff(S.at(reg, i), S.and_(
        *[S.at(V, i, a) >= conf[x + "MIN"] for a, x in enumerate("XYZ")], *[S.at(V, i, a) <= conf[x + "MAX"] for a, x in enumerate("XYZ")]))))


@contract("C26", samples=12)
def configuration(S):
    """every mesh offered has a configuration file of its own, naming polygons that are bundled"""
    names = S.fn("sleplet._class_lists.MESHES")
    n = S.choice("mesh", ["bird", "cheetah", "cube", "dragon", "homer", "teapot"])
    S.ensure("offered", n in S.items(names))
    c = S.call(MM + "extract_mesh_config", n)
    S.ensure("its own polygons", S.getitem(c, "FILENAME") == n + ".off")
    S.ensure("zoom", S.and_(S.getitem(c, "DEFAULT_ZOOM") > 0, S.getitem(c, "REGION_ZOOM") > 0))
    S.ensure("upsampling", S.getitem(c, "UPSAMPLE") >= 0)


@contract("C26", samples=20)
def laplacian(S):
    """the operator solved for is minus the cotangent matrix"""
    n = S.int("vertices", 3, sample=(3, 5))
    V, Fc = S.arr("vertex positions", (n, 3)), S.arr("face indices", (4, 3), dt="i", lo=0, hi=n - 1)
    cot = S.arr("cotangents", (n, n))

    def cotmatrix(v, f):
        S.elems("positions", v, (n, 3), lambda i, j: S.at(V, i, j))
        S.elems("faces", f, (4, 3), lambda i, j: S.at(Fc, i, j))
        return cot
    S.patch("igl.cotmatrix", cotmatrix)
    r = S.call(MM + "_mesh_laplacian", V, Fc)
    S.elems("operator", r, (n, n), lambda i, j: -S.at(cot, i, j))
    S.unchanged("cotangents", "vertex positions", "face indices")


@contract("C26", "C17", samples=20)
def random_signal(S):
    """a random signal of variance v is sqrt(v/2) (x + iy), x and y independent standard normal draws"""
    L, seed = sample_L(S), S.int("seed", 0, sample=(0, 1, 30))
    v = S.real("variance", 0, sample=(0, 0.5, 2, 10))
    r = S.call("sleplet.harmonic_methods.compute_random_signal", L, S.rng(seed), var_signal=v)
    n = L * L
    S.elems("signal", r, (n,), lambda q: S.sqrt(v / 2) * (S.randn(seed, q) + S.I * S.randn(seed, n + q)), dtype="c")


@contract("C26", samples=20)
def camera(S):
    """the camera looks from the configured direction, nearer the larger the zoom, at the given centre"""
    x, y, z = [S.real(a, sample=(-2, 0, 1)) for a in ("eye x", "eye y", "eye z")]
    zoom = S.real("zoom", 0, lo_open=True, sample=(0.5, 1, 3))
    given = S.choice("centre", ["default", "given"])
    c = [S.real(a, sample=(-1, 0.5)) for a in ("centre x", "centre y", "centre z")] if given == "given" else [0, 0, 0]
    seen = {}
    G = "plotly.graph_objects.layout.scene."
    for k in ("camera.Eye", "camera.Center", "Camera"):
        S.patch(G + k, lambda k=k, **a: seen.update({k: a}) or S.ns(kind=k))
    S.call("sleplet._plotly_methods.create_camera", x, y, z, zoom, **(dict(zip(("x_centre", "y_centre", "z_centre"), c)) if given == "given" else {}))
    for a, v in zip("xyz", (x, y, z)):
        S.equal("eye " + a, seen["camera.Eye"][a], v / zoom)
    for a, v in zip("xyz", c):
        S.equal("centre " + a, seen["camera.Center"][a], v)
    S.ensure("eye of the camera", S.get(seen["Camera"]["eye"], "kind") == "camera.Eye")
    S.ensure("centre of the camera", S.get(seen["Camera"]["center"], "kind") == "camera.Center")


@contract("C26", "C22", samples=20)
def colour_bar(S):
    """normalised plots show two unlabelled-precision ticks; others one tick at each end of the symmetric scale"""
    t = S.real("tick", 0, lo_open=True, sample=(0.5, 1, 3))
    norm = S.choice("normalise", [False, True])
    kw = {"bar_pos": S.real("bar position", sample=(0.5, 1))} if S.choice("position", [False, True]) else {}
    r = S.call("sleplet._plotly_methods.create_colour_bar", t, normalise=norm, **kw)
    if norm:
        S.ensure("no fixed ticks", S.and_(S.getitem(r, "tick0") is None, S.getitem(r, "dtick") is None))
        S.equal("two ticks", S.getitem(r, "nticks"), 2)
    else:
        S.equal("first tick", S.getitem(r, "tick0"), -t)
        S.equal("tick step", S.getitem(r, "dtick"), t)
    if kw:
        S.equal("position", S.getitem(r, "x"), kw["bar_pos"])
