import math

from pyvc.driver import contract
from contracts.common import *

REGION = "sleplet.slepian.region.Region"
ANGLES = ("phi_max", "phi_min", "theta_max", "theta_min")
REFUSED = ("ValueError", "AttributeError")     # pydantic's ValidationError is a ValueError


def angle(S, name):
    """no value, or any value (the samples include the defaults exactly)"""
    if S.choice(name + " given", [False, True]):
        return S.real(name, sample=(0.3, 1.0, 2.5, 3.0, 3.3, 5.0, 6.2, 6.4, -0.1, -3.0, 1e-9, 0.0, math.pi, 2 * math.pi))
    return None


def angles(S):
    """three angles at their default or any value: classification looks at each on its own"""
    return {n: angle(S, n) for n in ANGLES}


def default(S, n):
    return {"phi_max": 2 * S.pi, "phi_min": 0.0, "theta_max": S.pi, "theta_min": 0.0}[n]


def deg(S, x):
    return S.round(x * 180 / S.pi)


def in_range(S, n, x):
    return S.and_(x >= 0, x <= (2 * S.pi if n[0] == "p" else S.pi))


def kind_of(S, v):
    """polar cap / rectangle / neither, as conditions on the angles"""
    off = {n: S.not_(S.eq(v[n], default(S, n))) for n in ANGLES}
    rect = S.or_(off["phi_min"], off["phi_max"], off["theta_min"])
    return S.and_(off["theta_max"], S.not_(rect)), rect


def name_of(S, kind, v, gap, mask):
    if kind == "polar":
        return S.text("polar_gap" if gap else "polar", deg(S, v["theta_max"]))
    if kind == "lim_lat_lon":
        return S.text("theta", deg(S, v["theta_min"]), "-", deg(S, v["theta_max"]), "_phi", deg(S, v["phi_min"]), "-", deg(S, v["phi_max"]))
    return mask


@contract("C15", samples=60, budget=100)
def classification(S):
    """kind, name and refusal of a region from its angles and mask name"""
    given = angles(S)
    kw = {n: x for n, x in given.items() if x is not None}
    mask = S.choice("mask", [None, "", "africa", "My_Mask"])
    if mask is not None:
        kw["mask_name"] = mask
    gap = S.choice("gap", [None, False, True])
    if gap is not None:
        kw["gap"] = gap
    v = {n: default(S, n) if given[n] is None else given[n] for n in ANGLES}
    polar, rect = kind_of(S, v)
    bad = S.or_(*[S.not_(in_range(S, n, v[n])) for n in ANGLES])
    if not mask:
        bad = S.or_(bad, S.not_(S.or_(polar, rect)))
    r = S.refuses_iff("angles out of range or nothing specified", bad, REFUSED, lambda: S.new(REGION, **kw))
    if r is None:
        return
    t = S.get(r, "_region_type")
    S.ensure("polar cap exactly when only theta_max differs", S.iff(polar, t == "polar"))
    S.ensure("rectangle exactly when another angle differs", S.iff(rect, t == "lim_lat_lon"))
    S.ensure("mask region otherwise", S.iff(S.not_(S.or_(polar, rect)), t == "arbitrary"))
    S.equal("name", S.get(r, "_name_ending"), name_of(S, t, v, bool(gap), mask))
    for n in ANGLES:
        S.equal(n, S.get(r, n), v[n])
    S.equal("gap", S.get(r, "gap"), bool(gap))
    S.equal("mask name", S.get(r, "mask_name"), mask or "")


@contract("C15", samples=40)
def assignment(S):
    """angles are validated on assignment as well, and a refused one leaves the region as it was"""
    which = S.choice("angle", list(ANGLES))
    r = S.new(REGION, theta_max=1.0)
    before = S.get(r, which)
    x = S.real("value", sample=(0.3, 3.0, 3.3, 6.2, 6.4, -0.1, -3.0, 1e-9))
    k, e = S.outcome(lambda: S.set(r, which, x))
    S.ensure("accepted exactly when in range", S.iff(in_range(S, which, x), k == "ok"))
    S.equal("value", S.get(r, which), x if k == "ok" else before)


def unsolved(S, cls):
    """the eigenproblem plays no part here"""
    S.patch(cls + "._solve_eigenproblem", lambda self: (S.arr("eigenvalues", (4,)), S.carr("eigenvectors", (4, 4))))


@contract("C15")
def zero_cap(S):
    L = sample_L(S, sample=(2, 3))
    t = S.real("theta_max", sample=(0.0, 0.3, 1.0, 3.0, -0.5, 3.5))
    gap = S.choice("gap", [False, True])
    unsolved(S, POLAR)
    S.assume(S.not_(S.eq(t, S.pi)))
    o = S.refuses_iff("zero or invalid cap", S.or_(t <= 0, t > S.pi), REFUSED, lambda: S.new(POLAR, L, t, gap=gap))
    if o is None:
        return
    S.equal("name", S.get(o, "name"), S.text("slepian_", name_of(S, "polar", {"theta_max": t}, gap, "")))
    k, e = S.outcome(lambda: S.set(o, "theta_max", 0.0))
    S.ensure("refused on assignment", k == "exc")


@contract("C15", uses=["c15.classification"], samples=30, budget=100)
def choose(S):
    """the Slepian problem chosen is of the region's kind and has the region's angles, gap and mask"""
    L = sample_L(S, sample=(2, 3))
    kind = S.choice("kind", ["polar", "lim_lat_lon", "arbitrary"])
    cls = {"polar": POLAR, "lim_lat_lon": LATLON, "arbitrary": ARBITRARY}[kind]
    gap = False
    if kind == "polar":
        gap = S.choice("gap", [False, True])
        kw = {"theta_max": S.real("theta_max", 0, S.pi, lo_open=True, hi_open=True)}
        if gap:
            kw["gap"] = True
    elif kind == "lim_lat_lon":
        kw = {n: S.real(n, 0, 2 * S.pi if n[0] == "p" else S.pi) for n in ANGLES}
        S.assume(kind_of(S, kw)[1])
    else:
        kw = {"mask_name": S.choice("mask", ["africa", "My_Mask"])}
        m = S.barr("mask array", (2 * L + 1, 4 * L))
        S.patch("sleplet._mask_methods._load_mask", lambda L_, name: m)
    unsolved(S, cls)
    r = S.new(REGION, **kw)
    o = S.call("sleplet.slepian_methods.choose_slepian_method", L, r)
    S.equal("class", S.classname(o), cls.split(".")[-1])
    S.equal("bandlimit", S.get(o, "L"), L)
    S.equal("gap", S.get(S.get(o, "region"), "gap"), gap)
    for n in kw:
        S.equal(n, S.get(o, n), kw[n])
        S.equal(n + " of the region", S.get(S.get(o, "region"), n), kw[n])
    S.equal("kind of its region", S.get(S.get(o, "region"), "_region_type"), kind)
    S.equal("name", S.get(o, "name"), S.text("slepian_", S.get(r, "_name_ending")))


@contract("C15")
def unknown_kind(S):
    r = S.new(REGION, theta_max=1.0)
    S.set(r, "_region_type", "other")
    S.raises("unknown region kind", ("ValueError",), lambda: S.call("sleplet.slepian_methods.choose_slepian_method", 2, r))


@contract("C15", uses=["c15.classification"], samples=40, budget=100)
def from_environment(S):
    """the default region is what the environment describes, in degrees"""
    env = {}
    v = {}
    for n, d in (("PHI_MAX", 360), ("PHI_MIN", 0), ("THETA_MAX", 180), ("THETA_MIN", 0)):
        if S.choice(n + " set", [False, True]):
            x = S.int(n, 0, 360 if n[0] == "P" else 180, sample=(0, 40, 90, 180, 270, 360))
            env[n] = S.text(x)
        else:
            x = d
            env[n] = None
        v[n.lower()] = x * S.pi / 180
    env["POLAR_GAP"] = S.choice("gap", [None, "True", "true", "False", "TRUE"])
    env["SLEPIAN_MASK"] = S.choice("mask", [None, "africa"])
    S.environment(**env)
    r = S.call("sleplet._mask_methods.create_default_region")
    for n in ANGLES:
        S.equal(n, S.get(r, n), v[n])
    S.equal("gap", S.get(r, "gap"), env["POLAR_GAP"] in ("True", "true", "TRUE"))
    S.equal("mask name", S.get(r, "mask_name"), env["SLEPIAN_MASK"] or "south_america")
    polar, rect = kind_of(S, v)
    t = S.get(r, "_region_type")
    S.ensure("kind", S.iff(polar, t == "polar") if t != "lim_lat_lon" else rect)
