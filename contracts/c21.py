from pyvc.driver import contract
from contracts.common import *
from contracts.c15 import ANGLES, kind_of, deg
from contracts.c12 import MS

SAVE_ALL = 16      # polar caps up to this bandlimit keep every eigenvector on disk


def sphere_problem(S, tag, L, kind, angles=None):
    """parameters of one problem and how to construct it"""
    if kind == POLAR:
        t = S.real("theta_max" + tag, 0, S.pi, lo_open=True, hi_open=True, sample=(0.3, 0.7, 0.71, 1.0, 2.0)) if angles is None else angles
        gap = S.choice("gap" + tag, [False, True])
        return lambda: S.new(POLAR, L, t, gap=gap), t
    if kind == LATLON:
        v = {n: S.real(n + tag, 0, 2 * S.pi if n[0] == "p" else S.pi) for n in ANGLES} if angles is None else angles
        S.assume(kind_of(S, v)[1])
        return lambda: S.new(LATLON, L, **v), v
    return lambda: S.new(ARBITRARY, L, angles or "africa"), angles


def count_solves(S, solutions):
    """every solve from scratch asks the eigensolver once; the answers are given in that order"""
    calls = []

    def eigh(D, UPLO="L"):
        S.ensure("solves", len(calls) < len(solutions))
        calls.append(1)
        return solutions[len(calls) - 1]
    S.patch("numpy.linalg.eigh", eigh)
    return calls


def same_solution(S, a, b, n, leading=None):
    """Shannon number, eigenvalues, and of the vectors the leading rows"""
    N = S.get(a, "N")
    S.equal("Shannon number", S.get(b, "N"), N)
    S.elems("eigenvalues", S.get(b, "eigenvalues"), (n,), lambda p: S.at(S.get(a, "eigenvalues"), p))
    va, vb = S.get(a, "eigenvectors"), S.get(b, "eigenvectors")
    S.ensure("at least the leading vectors", S.shape(vb)[0] >= S.min(N, n))

    def row(p, q):
        S.assume_local(p < N)
        S.equal("leading vectors", S.at(vb, p, q), S.at(va, p, q))
    S.index((n, n), row)


@contract("C21", uses=["c10.solve", "c11.solve", "c24.lookup"], samples=20)
def again(S):
    """a rectangle or a mask region: solved once, then the same from its files"""
    L = sample_L(S, sample=(2, 3, 4))
    n = L * L
    kind = S.choice("kind", [LATLON, ARBITRARY])
    make, _ = sphere_problem(S, "", L, kind)
    patch_problem(S, L, kind)
    S.store()
    calls = count_solves(S, [(S.arr("raw eigenvalues", n), S.carr("raw eigenvectors", (n, n)))])
    a = make()
    b = make()
    S.equal("solved once", len(calls), 1)
    same_solution(S, a, b, n)


def patch_problem(S, L, kind):
    n = L * L
    S.patch("sleplet._mask_methods.create_mask_region", lambda L_, region: S.arr("mask", 0))
    if kind == LATLON:
        S.patch(LATLON + "._create_K_matrix", lambda self: S.carr("matrix", (n, n)))
    elif kind == ARBITRARY:
        S.patch(ARBITRARY + "._create_D_matrix", lambda self: S.carr("matrix", (n, n)))
        S.patch(ARBITRARY + "._calculate_area", lambda self: S.real("area", 0, 12, sample=(0.5, 3.0)))


@contract("C21", uses=["c12.solve", "c25.shannon_mesh", "c24.lookup"], samples=20)
def mesh_again(S):
    """the Slepian functions of a mesh: solved once, then the same from their files"""
    m, n, k = mesh_object(S)
    S.patch(MS + "._create_D_matrix", lambda self: S.arr("matrix", (k, k)))
    S.store()
    calls = count_solves(S, [(S.arr("raw eigenvalues", k), S.arr("raw eigenvectors", (k, k)))])
    a, b = S.new(MS, m), S.new(MS, m)
    S.equal("solved once", len(calls), 1)
    N = S.get(a, "N")
    S.equal("Shannon number", S.get(b, "N"), N)
    S.elems("eigenvalues", S.get(b, "slepian_eigenvalues"), (k,), lambda p: S.at(S.get(a, "slepian_eigenvalues"), p))
    va, vb = S.get(a, "slepian_functions"), S.get(b, "slepian_functions")
    S.ensure("at least the leading functions", S.shape(vb)[0] >= S.min(N, k))

    def row(p, q):
        S.assume_local(p < N)
        S.equal("leading functions", S.at(vb, p, q), S.at(va, p, q))
    S.index((k, k), row)


@contract("C21", uses=["c13.polar_merge", "c13.polar_order", "c24.lookup"], samples=20)
def polar_again(S):
    """all orders of a polar cap: solved once, then the same from the files; a single order in between disturbs nothing"""
    L = sample_L(S, sample=(2, 3, 4))
    n = L * L
    make, t = sphere_problem(S, "", L, POLAR)
    op, w, v = S.order_solutions(L)
    calls = []

    def solve(self, m):
        calls.append(1)
        k = L - abs(m)
        return S.build((k,), "f", lambda i: w(m, i)), S.build((k, n), "c", lambda i, q: v(m, i, q))
    S.patch(POLAR + "._solve_eigenproblem_order", solve)
    S.patch("sleplet._mask_methods.create_mask_region", lambda L_, region: S.arr("mask", 0))
    S.store()
    a = make()
    before = len(calls)
    b = make()
    S.equal("solved once", len(calls), before)
    same_solution(S, a, b, n)
    S.elems("orders", S.get(b, "order"), (n,), lambda p: S.at(S.get(a, "order"), p))


@contract("C21", uses=["c21.polar_again"], samples=30)
def polar_single(S):
    """one order of a polar cap, once all orders have been stored: that order's own solutions, as when solved first"""
    L = sample_L(S, sample=(2, 3, 4, 17))
    n = L * L
    m = S.int("m", 1 - L, L - 1, sample=(-2, -1, 0, 1, 2))
    N = S.int("N", 1, n, sample=(1, 2, 4, 9))
    op, w, v = S.order_solutions(L, decreasing=True)

    def solve(self, m):
        k = L - abs(m)
        return S.build((k,), "f", lambda i: w(m, i)), S.build((k, n), "c", lambda i, q: v(m, i, q))
    S.patch(POLAR + "._solve_eigenproblem_order", solve)
    S.store()
    polar = lambda order: S.obj(POLAR, L=L, theta_max=1.0, gap=False, order=order, N=N, **unsolved_fields(S))
    first = S.items(S.method(polar(m), "_solve_eigenproblem"))
    S.method(polar(None), "_solve_eigenproblem")
    o = polar(m)
    val, vec = S.items(S.method(o, "_solve_eigenproblem"))
    val, vec = S.rows(val), S.rows(vec)
    k = L - abs(m)
    S.equal("order", S.get(o, "order"), m)
    S.elems("eigenvalues first solved", first[0], (k,), lambda p: w(m, p))
    S.same_shape("eigenvalues", val, (k,))
    S.same_shape("eigenvectors", vec, (k, n))
    S.forall("non-increasing", (k - 1,), lambda p: S.at(val, p) >= S.at(val, p + 1))
    S.index((k, n), lambda p, i: S.equal("row p belongs to eigenvalue p of that order",
                                         S.sum(0, n, lambda q: op(m, i, q) * S.at(vec, p, q)), S.at(val, p) * S.at(vec, p, i)))


class Apart:
    """two problems, each with its own solutions; solved: the problems the eigensolver was asked about, in order"""

    def __init__(self, S, L=None):
        self.S, self.now, self.solved = S, "a", []
        S.patch("sleplet._mask_methods.create_mask_region", lambda L_, region: S.arr("mask", 0))
        S.patch(POLAR + "._solve_eigenproblem_order", self.order)
        S.patch(LATLON + "._create_K_matrix", self.matrix)
        S.patch(ARBITRARY + "._create_D_matrix", self.matrix)
        S.patch(ARBITRARY + "._calculate_area", lambda this: S.real("area of " + self.now, 0, 12, sample=(0.5, 3.0)))
        S.patch(MS + "._create_D_matrix", lambda this: S.arr("mesh matrix", (self.n, self.n)))
        S.patch("numpy.linalg.eigh", self.eigh)
        S.store()

    def matrix(self, this):
        n = self.S.get(this, "L") ** 2
        return self.S.build((n, n), "c", lambda i, j: 0)

    def order(self, this, m):
        S = self.S
        if not self.solved or self.solved[-1] != self.now:
            self.solved.append(self.now)
        L = S.get(this, "L")
        k = L - abs(m)
        w = S.arr("order values of " + self.now, (2 * L, L))
        return S.build((k,), "f", lambda i: S.at(w, m + L - 1, i)), S.build((k, L * L), "c", lambda i, q: 0)

    def eigh(self, D, UPLO="L"):
        S = self.S
        self.solved.append(self.now)
        n = S.shape(D)[0]
        return S.arr("values of " + self.now, n), S.carr("vectors of " + self.now, (n, n))

    def solve(self, which, make):
        self.now = which
        return make()


def apart(S, make_a, make_b):
    t = Apart(S)
    t.solve("a", make_a)
    t.solve("b", make_b)
    S.ensure("the second problem is solved, not taken from the first", t.solved == ["a", "b"])
    t.solve("a", make_a)
    t.solve("b", make_b)
    S.ensure("both are found again", t.solved == ["a", "b"])


@contract("C21", uses=["c15.classification"], samples=40, budget=300)
def other_cap(S):
    """polar caps of another bandlimit, gap or (in degrees) size never share files"""
    L = sample_L(S, sample=(2, 3))
    t = S.real("theta_max", 0, S.pi, lo_open=True, hi_open=True, sample=(0.3, 0.7, 1.0, 2.0))
    L2, u, gap, gap2 = L, t, False, False
    what = S.choice("difference", ["bandlimit", "gap", "size", "Shannon number"])
    if what == "bandlimit":
        L2 = S.int("other L", 1, sample=(4, 5))
        S.assume(S.not_(S.eq(L, L2)))
        gap = gap2 = S.choice("gap", [False, True])
    elif what == "gap":
        gap = S.choice("gap", [False, True])
        gap2 = not gap
    else:
        u = S.real("other theta_max", 0, S.pi, lo_open=True, hi_open=True, sample=(0.35, 0.72, 1.1, 2.2))
        if what == "size":
            S.assume(S.not_(S.eq(deg(S, t), deg(S, u))))
        else:
            number = lambda t: S.round(2 * S.pi * (1 - S.cos(t)) * L * L / (4 * S.pi))
            S.assume(S.not_(S.eq(number(t), number(u))))
        gap, gap2 = S.choice("gap", [False, True]), S.choice("other gap", [False, True])
    apart(S, lambda: S.new(POLAR, L, t, gap=gap), lambda: S.new(POLAR, L2, u, gap=gap2))


@contract("C21", samples=24)
def within_a_degree(S):
    """regions whose angles round to the same degrees and that have the same Shannon number"""
    L = sample_L(S, sample=(2, 3))
    t = S.real("theta_max", 0, S.pi, lo_open=True, hi_open=True, sample=(0.7, 1.0))
    u = S.real("other theta_max", 0, S.pi, lo_open=True, hi_open=True, sample=(0.699, 0.6995, 0.998, 1.001))
    S.assume(S.and_(S.not_(S.eq(t, u)), S.eq(deg(S, t), deg(S, u))))
    if S.choice("kind", ["cap", "rectangle"]) == "cap":
        number = lambda t: S.round(2 * S.pi * (1 - S.cos(t)) * L * L / (4 * S.pi))
        make = lambda t: S.new(POLAR, L, t)
    else:
        number = lambda t: S.round((1 - S.cos(t)) * L * L / (4 * S.pi))
        make = lambda t: S.new(LATLON, L, theta_max=t, phi_max=1.0)
    S.assume(S.eq(number(t), number(u)))
    p = Apart(S)
    p.solve("a", lambda: make(t))
    p.solve("b", lambda: make(u))
    S.ensure("regions within a degree are told apart", p.solved == ["a", "b"])


@contract("C21", uses=["c15.classification"], samples=40, budget=300)
def other_region(S):
    """rectangles of another bandlimit or with another angle (in degrees), masks of other names, and regions of different kinds never share files"""
    L = sample_L(S, sample=(2, 3))
    L2 = L
    what = S.choice("difference", ["bandlimit", "angle", "mask", "mask bandlimit", "polar cap", "mask for rectangle"])
    angles = lambda tag: {n: S.real(n + tag, 0, 2 * S.pi if n[0] == "p" else S.pi) for n in ANGLES}
    if what in ("bandlimit", "mask bandlimit"):
        L2 = S.int("other L", 1, sample=(4, 5))
        S.assume(S.not_(S.eq(L, L2)))
    if what.startswith("mask"):
        first = lambda: S.new(ARBITRARY, L, "africa")
    else:
        v = angles("")
        S.assume(kind_of(S, v)[1])
        first = lambda: S.new(LATLON, L, **v)
    if what == "bandlimit":
        second = lambda: S.new(LATLON, L2, **v)
    elif what in ("angle", "mask for rectangle"):
        u = angles("'")
        S.assume(kind_of(S, u)[1])
        if what == "angle":
            S.assume(S.or_(*[S.not_(S.eq(deg(S, v[n]), deg(S, u[n]))) for n in ANGLES]))
        second = lambda: S.new(LATLON, L2, **u)
    elif what == "polar cap":
        t = S.real("theta_max of the cap", 0, S.pi, lo_open=True, hi_open=True, sample=(0.3, 0.7, 1.0, 2.0))
        gap = S.choice("gap", [False, True])
        second = lambda: S.new(POLAR, L2, t, gap=gap)
    else:
        second = lambda: S.new(ARBITRARY, L2, "africa" if what == "mask bandlimit" else "My_Mask")
    apart(S, first, second)


@contract("C21", samples=40)
def other_mesh(S):
    """the Slepian functions of meshes of another name, number of basis functions or Shannon number never share files"""
    m, n, k = mesh_object(S)
    what = S.choice("difference", ["name", "basis functions", "Shannon number"])
    k2 = S.int("other basis functions", 1, sample=(1, 2, 3)) if what == "basis functions" else k
    reg = S.barr("other region", n) if what == "Shannon number" else S.get(m, "mesh_region")
    if what == "basis functions":
        S.assume(S.not_(S.eq(k, k2)))
    other = S.obj("sleplet.meshes.mesh.Mesh", name="teapot" if what == "name" else "cube", number_basis_functions=k2, zoom=False,
                  basis_functions=S.arr("other basis", (k2, n)), mesh_eigenvalues=S.arr("other mesh_eigenvalues", (k2,)),
                  vertices=S.get(m, "vertices"), faces=S.get(m, "faces"), mesh_region=reg)
    if what == "Shannon number":
        number = lambda m: S.call("sleplet._slepian_arbitrary_methods.compute_mesh_shannon", m)
        S.assume(S.not_(S.eq(number(m), number(other))))
    t = Apart(S)

    def make(mesh, n):
        t.n = n
        return lambda: S.new(MS, mesh)
    t.solve("a", make(m, k))
    t.solve("b", make(other, k2))
    S.ensure("the second problem is solved, not taken from the first", t.solved == ["a", "b"])
    t.solve("a", make(m, k))
    S.ensure("both are found again", t.solved == ["a", "b"])


@contract("C21", uses=["c25.basis_size"], samples=20)
def other_basis(S):
    """the basis functions of meshes of another name or number of basis functions never share files, nor with Slepian functions"""
    n = S.int("vertices", 8, sample=(8, 9))
    v, f = S.arr("vertex positions", (n, 3)), S.arr("face indices", (6, 3), dt="i", lo=0, hi=n - 1)
    k = S.int("k", 1, n - 1, sample=(1, 2))
    k2, name = k, "blob"
    if S.choice("difference", ["name", "number"]) == "name":
        name = S.choice("name", ["cube", "blob2"])
    else:
        k2 = S.int("other k", 1, n - 1, sample=(3, 4))
        S.assume(S.not_(S.eq(k, k2)))
    solved = []

    def eigsh(A, k_=6, M=None, sigma=None, which="LM", **kw_):
        solved.append(1)
        k = kw_.get("k", k_)
        return S.arr("values %d" % len(solved), (k,)), S.arr("vectors %d" % len(solved), (n, k))
    S.patch("scipy.sparse.linalg.eigsh", eigsh)
    S.patch("sleplet._mesh_methods._mesh_laplacian", lambda *a: S.arr("laplacian", (n, n)))
    S.store()
    both = (("blob", k), (name, k2))
    for x, c in both:
        S.call("sleplet._mesh_methods.mesh_eigendecomposition", x, v, f, number_basis_functions=c)
    S.equal("both are solved", len(solved), 2)
    for x, c in both:
        S.call("sleplet._mesh_methods.mesh_eigendecomposition", x, v, f, number_basis_functions=c)
    S.equal("both are found again", len(solved), 2)
