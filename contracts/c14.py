from pyvc.driver import contract
from contracts.common import *

P = "sleplet._parallel_methods."


@contract("C14", "C09", "C11", "C12")
def split(S):
    """shares of w workers: every item 0..n-1 in exactly one share, once; sorted; sizes differ by at most one"""
    n, w = S.int("n", 0, sample=(0, 1, 2, 3, 5, 8, 17)), S.int("workers", 1, sample=(1, 2, 3, 4, 7, 16))
    r = S.call(P + "split_arr_into_chunks", n, w)
    S.equal("number of shares", S.len(r), w)

    def one(i):
        c = S.getitem(r, i)
        m = S.len(c)
        S.ensure("balanced", S.and_(w * m - n < w, n - w * m < w))
        S.sorted("share", c)
    S.index((w,), one)
    S.index((n,), lambda x: S.equal("item in exactly one share", S.sum(0, w, lambda i: S.count(S.getitem(r, i), x)), 1))
    S.equal("nothing else in the shares", S.sum(0, w, lambda i: S.len(S.getitem(r, i))), n)


@contract("C14", "C09", "C11", "C12")
def shared_arrays(S):
    """a worker's write through its attachment is the owner's; other arrays and the private original are not touched"""
    n, k = S.int("rows", 1, sample=(1, 2, 3)), S.int("columns", 1, sample=(1, 2, 4))
    a, b = S.arr("a", (n, k)), S.arr("b", (n, k))
    a_ext, a_shm = S.call(P + "create_shared_memory_array", a)
    b_ext, b_shm = S.call(P + "create_shared_memory_array", b)
    S.finally_(lambda: (S.call(P + "free_shared_memory", a_shm, b_shm), S.call(P + "release_shared_memory", a_shm, b_shm)))
    S.same_shape("shared array", a_ext, (n, k))
    a_int, a_shm2 = S.call(P + "attach_to_shared_memory_block", a, a_shm)
    b_int, b_shm2 = S.call(P + "attach_to_shared_memory_block", b, b_shm)
    S.same_shape("attached array", a_int, (n, k))
    before = S.at(a_ext, 0, 0)
    i, j = S.int("i", 0, n - 1, sample=(0, 1, 2)), S.int("j", 0, k - 1, sample=(0, 1, 2, 3))
    x = S.real("x", sample=(1.5, -2.0))
    S.setitem(a_int, (i, j), x)
    S.forall("owner sees the write, and nothing else changes", (n, k), lambda p, q: S.eq(
        S.at(a_ext, p, q), S.ite(S.and_(S.eq(p, i), S.eq(q, j)), x, 0)))
    S.equal("fresh blocks start empty", before, 0)
    S.forall("other arrays are untouched", (n, k), lambda p, q: S.and_(S.eq(S.at(b_ext, p, q), 0), S.eq(S.at(b_int, p, q), 0)))
    S.unchanged("a", "b")
    S.setitem(b_ext, (i, j), 2 * x)
    S.equal("workers see the owner's writes", S.at(b_int, i, j), 2 * x)
    S.equal("and keep their own", S.at(a_int, i, j), x)
    for s in (a_shm2, b_shm2):
        S.call(P + "free_shared_memory", s)
    S.equal("closing an attachment keeps the data", S.at(a_ext, i, j), x)
