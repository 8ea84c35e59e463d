from pyvc.driver import contract
from contracts.common import *
from contracts.c15 import REGION, ANGLES, kind_of

M = "sleplet._mask_methods."


def positions(S, L):
    t, p = S.ext("pyssht.sample_positions", L, Grid=True, Method="MWSS")
    return (lambda i, j: S.at(t, i, j)), (lambda i, j: S.at(p, i, j))


def limit(S, n, L, lo=None):
    """an angle: anywhere, or exactly on a sample"""
    th, ph = positions(S, L)
    if S.choice(n + " at", ["anywhere", "sample"]) == "sample":
        if n[0] == "p":
            return ph(0, S.int(n + " sample", 0, 2 * L - 1, sample=range(8)))
        return th(S.int(n + " sample", 0, L, sample=range(5)), 0)
    return S.real(n, 0, 2 * S.pi if n[0] == "p" else S.pi)


@contract("C16", samples=30)
def cap(S):
    """colatitude at most the cap size; for a double-ended cap also at least pi minus it"""
    L = sample_L(S)
    t = limit(S, "theta_max", L)
    S.assume(S.and_(t > 0, t < S.pi))
    gap = S.choice("gap", [False, True])
    r = S.new(REGION, theta_max=t, gap=gap)
    m = S.call(M + "create_mask_region", L, r)
    th, ph = positions(S, L)

    def inside(i, j):
        a = th(i, j) <= t
        return S.or_(a, th(i, j) >= S.pi - t) if gap else a
    S.elems("mask", m, (L + 1, 2 * L), inside)


@contract("C16", samples=30)
def rectangle(S):
    """within all four limits, inclusively"""
    L = sample_L(S)
    v = {n: limit(S, n, L) for n in ANGLES}
    S.assume(kind_of(S, v)[1])
    r = S.new(REGION, **v)
    m = S.call(M + "create_mask_region", L, r)
    th, ph = positions(S, L)
    S.elems("mask", m, (L + 1, 2 * L), lambda i, j: S.and_(
        th(i, j) >= v["theta_min"], th(i, j) <= v["theta_max"], ph(i, j) >= v["phi_min"], ph(i, j) <= v["phi_max"]))


@contract("C16", "C24", uses=["c24.lookup"])
def from_file(S):
    """the mask file of the region's name and bandlimit, which must have the shape of the sampling"""
    L = sample_L(S, sample=(1, 2, 3, 4))
    a, b = S.int("rows", 1, sample=(2, 3, 4, 5)), S.int("columns", 1, sample=(2, 4, 6, 8))
    if S.choice("shape", ["right", "any"]) == "right":
        a, b = L + 1, 2 * L
    S.store()
    mask = S.barr("mask array", (a, b))
    other = S.barr("other mask", (L + 1, 2 * L))
    where = S.choice("where", ["registry", "local", "both"])
    name = S.text("slepian_masks_my_mask_L", L, ".npy")
    if where != "local":
        S.put_registry(name, mask)
    if where != "registry":
        S.put_local(name, mask if where == "local" else other)
    r = S.new(REGION, mask_name="my_mask")
    m = S.refuses_iff("shape", S.or_(S.not_(S.eq(a, L + 1)), S.not_(S.eq(b, 2 * L))), ("AssertionError", "ValueError"), lambda: S.call(M + "create_mask_region", L, r))
    if m is not None:
        S.elems("mask", m, (L + 1, 2 * L), lambda i, j: mask[i, j])


# centre of the map of Africa / South America: Euler angles in degrees, and the extent in degrees
MAPS = {"africa": ((44, 87, 341), 41), "south_america": ((54, 108, 63), 40)}


def earth(S, L):
    """the Earth's coefficients (contract c24.earth) where they are asked for"""
    flm = S.carr("earth flm", L * L)
    asked = []

    def get(L_, smoothing=None):
        S.equal("Earth: bandlimit", L_, L)
        S.ensure("Earth: not smoothed", smoothing is None)
        return flm
    S.patch("sleplet._data.create_earth_flm.create_flm", get)
    return flm


@contract("C16", samples=12)
def map_masks(S):
    """Africa and South America: land within the extent of the rotated Earth; the result is stored under the name looked up"""
    L = sample_L(S, sample=(2, 3, 4, 6))
    which = S.choice("mask", ["africa", "south_america", "atlantis"])
    S.store()
    flm = earth(S, L)
    r = S.new(REGION, mask_name=which)
    if which == "atlantis":
        S.raises("unknown mask", ("ValueError",), lambda: S.call(M + "create_mask_region", L, r))
        return
    m = S.call(M + "create_mask_region", L, r)
    euler, extent = MAPS[which]
    rot = S.ext("pyssht.rotate_flms", flm, *[x * S.pi / 180 for x in euler], L)
    f = S.ext("pyssht.inverse", rot, L, Method="MWSS", Reality=True)
    th, ph = positions(S, L)

    def inside(i, j):
        return S.and_(th(i, j) <= extent * S.pi / 180, S.at(f, i, j) >= 0)
    S.elems("mask", m, (L + 1, 2 * L), inside)
    kept = S.local(S.text(f"slepian_masks_{which}_L", L, ".npy"))
    S.ensure("stored", kept is not None)
    S.elems("stored mask", kept, (L + 1, 2 * L), inside)
    S.unchanged("earth flm")


@contract("C16", samples=16)
def masked_signal(S):
    """inside the region the field is kept, outside it is zero, and the result is in harmonic space"""
    L = sample_L(S, sample=(1, 2, 3, 4))
    flm = S.carr("flm", L * L)
    reality = S.choice("reality", [False, True])
    spin = 0 if reality else S.choice("spin", [0, 2])
    if spin:
        S.assume(L > 2)
    t = S.real("theta_max", 0, S.pi, lo_open=True, hi_open=True)
    r = S.new(REGION, theta_max=t, gap=S.choice("gap", [False, True]))
    m = S.call(M + "create_mask_region", L, r)
    got = S.call(M + "ensure_masked_flm_bandlimited", flm, L, r, reality=reality, spin=spin)
    f = S.ext("pyssht.inverse", flm, L, Method="MWSS", Reality=reality, Spin=spin)
    g = S.build((L + 1, 2 * L), "f" if reality else "c", lambda i, j: S.where(S.at(m, i, j), lambda: S.at(f, i, j), lambda: 0))
    want = S.ext("pyssht.forward", g, L, Method="MWSS", Reality=reality, Spin=spin)
    S.elems("coefficients", got, (L * L,), lambda q: want[q])
    S.unchanged("flm")


@contract("C16", samples=30)
def mesh_box(S):
    """the vertices inside the box, inclusively"""
    n = S.int("vertices", 1, sample=(1, 2, 5))
    v = S.arr("vertex positions", (n, 3))
    box = {}
    for a in "XYZ":
        for e in ("MIN", "MAX"):
            if S.choice(f"{a}{e} at", ["anywhere", "vertex"]) == "vertex":
                box[a + e] = v[S.int(f"{a}{e} vertex", 0, n - 1, sample=(0, 1, 2)), "XYZ".index(a)]
            else:
                box[a + e] = S.real(a + e)
    r = S.call("sleplet." + S.choice("function", ["_mesh_methods", "_mask_methods"]) + ".create_mesh_region", S.dict(**box), v)
    S.elems("region", r, (n,), lambda k: S.and_(*[S.and_(v[k, c] >= box[a + "MIN"], v[k, c] <= box[a + "MAX"]) for c, a in enumerate("XYZ")]))
    S.unchanged("vertex positions")


@contract("C16", samples=30)
def mesh_faces(S):
    """a face belongs to the region exactly when all of its vertices do"""
    m, n, k = mesh_object(S)
    f, reg = S.get(m, "faces"), S.get(m, "mesh_region")
    nf = S.shape(f)[0]
    r = S.call(M + "convert_region_on_vertices_to_faces", m)
    S.elems("faces", r, (nf,), lambda i: S.ite(S.and_(*[S.at(reg, S.at(f, i, c)) for c in range(3)]), 1, 0))
    S.unchanged("region", "face indices")


@contract("C16", uses=["c07"])
def masked_mesh_signal(S):
    m, n, k = mesh_object(S)
    u_i = S.arr("u_i", k)
    reg, b = S.get(m, "mesh_region"), S.get(m, "basis_functions")
    r = S.call(M + "ensure_masked_bandlimit_mesh_signal", m, u_i)
    field = S.memo(lambda v: S.sum(0, k, lambda i: u_i[i] * S.at(b, i, v)))
    S.elems("coefficients", r, (k,), lambda i: S.sum(0, n, lambda v: S.where(S.at(reg, v), lambda: field(v) * S.at(b, i, v), lambda: 0)))
    S.unchanged("u_i", "region", "basis")


@contract("C16", "C19", uses=["c16.map_masks", "c24.lookup"], samples=24)
def region_maps(S):
    """the Africa and South America functions are the rotated Earth inside the stored mask, or the land mask, and zero outside"""
    L = sample_L(S, sample=(2, 3, 4, 6))
    which = S.choice("function", ["africa", "south_america"])
    S.store()
    flm, smooth = S.carr("earth flm", L * L), S.carr("smoothed earth flm", L * L)
    where = S.choice("mask", ["registry", "registry, smoothed Earth", "local", "nowhere"])
    kw = {"smoothing": S.int("smoothing", 1, sample=(1, 2))} if where == "registry, smoothed Earth" else {}

    def get(L_, smoothing=None):
        S.equal("Earth: bandlimit", L_, L)
        if smoothing is None:
            return flm
        S.equal("Earth: smoothing", smoothing, kw.get("smoothing"))
        return smooth
    S.patch("sleplet._data.create_earth_flm.create_flm", get)
    name = S.text(f"slepian_masks_{which}_L", L, ".npy")
    mask = S.barr("mask array", (L + 1, 2 * L))
    if where.startswith("registry"):
        S.put_registry(name, mask)
    if where == "local":
        S.put_local(name, mask)
    euler, extent = MAPS[which]
    rotated, f, out = S.carr("rotated flm", L * L), S.arr("field", (L + 1, 2 * L)), S.carr("analysed flm", L * L)
    th, ph = positions(S, L)

    def rotate(flm_, alpha, beta, gamma, L_, *a, **k):
        S.elems("rotation: input", flm_, (L * L,), lambda q: (smooth if kw else flm)[q])
        for n, x, y in zip("alpha beta gamma".split(), (alpha, beta, gamma), euler):
            S.ensure("rotation: " + n, S.close(x, y * S.pi / 180))
        S.equal("rotation: bandlimit", L_, L)
        return rotated

    def inverse(flm_, L_, Spin=0, Method="MW", Reality=False, **k):
        S.elems("synthesis: input", flm_, (L * L,), lambda q: rotated[q])
        S.ensure("synthesis: a real scalar field on the samples", S.and_(S.eq(L_, L), S.eq(Spin, 0), Method == "MWSS", Reality))
        return f

    def inside(i, j):
        return S.at(mask, i, j) if where != "nowhere" else S.and_(th(i, j) <= extent * S.pi / 180, S.at(f, i, j) >= 0)

    def forward(g, L_, Spin=0, Method="MW", Reality=False, **k):
        S.elems("field outside the mask is zero", g, (L + 1, 2 * L), lambda i, j: S.where(inside(i, j), lambda: S.at(f, i, j), lambda: 0))
        S.ensure("analysis: a real scalar field on the samples", S.and_(S.eq(L_, L), S.eq(Spin, 0), Method == "MWSS", Reality))
        return out
    for n, h in (("rotate_flms", rotate), ("inverse", inverse), ("forward", forward)):
        S.patch("pyssht." + n, h)
    o = S.new(f"sleplet.functions.{which}." + {"africa": "Africa", "south_america": "SouthAmerica"}[which], L, **kw)
    S.elems("coefficients", S.get(o, "coefficients"), (L * L,), lambda q: out[q])
    S.ensure("flagged real", S.get(o, "reality"))
    S.unchanged("earth flm", "smoothed earth flm", "rotated flm", "field")
