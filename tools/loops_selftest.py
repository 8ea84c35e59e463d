"""Soundness and reach guard for the loop rules (not for sleplet): /opt/venv/bin/python tools/loops_selftest.py [NAME...]

Small functions are added to a scratch copy of the sources and put under contract. A contract that is true should be proved and hold
when run; a contract that is false must never be proved (and fails when run)."""
import os, shutil, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)

FUNCS = '''
import numpy as np

def w_sum(a):
    k, t = 0, 0.0
    while k < len(a):
        t += a[k]
        k += 1
    return t

def w_down(a):
    out = np.zeros(len(a))
    k = len(a) - 1
    while k >= 0:
        out[k] = 2 * a[k]
        k -= 1
    return out, k

def w_two(a):
    out = np.zeros(len(a))
    k = 0
    while k < len(a):
        out[k] = a[k]
        k += 2
    return out

def r_two(a):
    out = np.zeros(len(a))
    for k in range(0, len(a), 2):
        out[k] = a[k]
    return out

def w_moving(n):
    k, m = 0, n
    while k < m:
        m = m - 1
        k += 1
    return k

def f_first(a):
    for i in range(len(a)):
        if a[i] > 0:
            return i
    return -1

def f_break(a):
    t = 0.0
    for x in a:
        if x < 0:
            break
        t += x
    return t

def f_break_else(a):
    r = 0
    for x in a:
        if x < 0:
            r = 1
            break
    else:
        r = 2
    return r

def f_nested_break(a):
    c = 0
    for j in range(3):
        for x in a:
            if x < 0:
                break
        c += 1
    return c

def f_continue(a):
    t = 0.0
    for x in a:
        if x < 0:
            continue
        t += x
    return t

def gen(a):
    for i in range(len(a)):
        yield i, a[i]

def g_fill(a):
    out = np.zeros(len(a))
    for i, x in gen(a):
        out[i] = 3 * x
    return out

def g_list(a):
    return np.array([x + i for i, x in gen(a)])

def g_sum(a):
    return sum(x for _, x in gen(a))

def g_break(a):
    t = 0
    for i, x in gen(a):
        if x < 0:
            break
        t += 1
    return t

def g_return(a):
    for i, x in gen(a):
        if x < 0:
            return i
    return -1

def c_pairs(a, b):
    return sum(x * y for x in a for y in b)

def c_pairs_list(a, b):
    return np.array([x * y for x in a for y in b])

def l_len(a):
    out = []
    for x in a:
        out.append(len(out) * x)
    return np.array(out)

def l_two(a):
    out = []
    for x in a:
        out.append(x)
        out.append(-x)
    return np.array(out)

def l_nested(a, b):
    out = []
    for x in a:
        for y in b:
            out.append(x * y)
    return np.array(out)

def l_extend(a):
    out = []
    out.extend(x + 1 for x in a)
    return np.array(out)

def m_aug(a):
    b = a.copy()
    b[b < 0] *= -1
    return b

def any_if(a):
    return any(x > 2 for x in a if x < 0)

def any_pairs(a, b):
    return any(x + y > 0.2 for x in a for y in b)

def all_if(a):
    return all(x > 0 for x in a if x > -1)

def c_if(a):
    return sum(x for x in a if x > 0)

def e_count(a):
    c = [0]
    def nxt():
        c[0] += 1
        return c[0]
    return np.array([0 * x + nxt() for x in a])

def e_walrus(a):
    t = 0
    return np.array([(t := t + 1) + 0 * x for x in a])

def e_map(a):
    t = 0
    def f(x):
        nonlocal t
        t = t + 1
        return t + 0 * x
    return np.array(list(map(f, a)))

def e_any(a):
    t = 0
    def f(x):
        nonlocal t
        t = t + 1
        return t > 1
    return any(f(x) for x in a)

def e_sum(a):
    t = 0
    def f(x):
        nonlocal t
        t = t + 1
        return t
    return sum(f(x) for x in a)

def e_join(a):
    b = np.zeros(len(a))
    def f(i, x):
        b[i] = x
        return b[0]
    r = np.array([f(i, x) for i, x in enumerate(a)])
    return r, b

def p_real(a):
    c = a + 1j * a
    c.real = 2 * a
    c.imag *= 3
    return c

def p_view(a):
    c = a + 1j * a
    r = c.real
    if len(a) > 1:
        c[0] = 7
        r[1] = 5
    return c, r

def p_conj(a):
    c = a + 1j * a
    c.imag[:] = -c.imag
    return c

def p_flat(a):
    c = np.zeros((len(a), 3))
    f = c.reshape(-1)
    f[1::3] = a
    return c, f

def p_flatten(a):
    c = np.zeros((len(a), 3))
    f = c.flatten()
    f += 1
    return c

def p_mask(a):
    c = np.stack([a, 2 * a], axis=1)
    neg = c[:, 0] < 0
    c[neg] = -c[neg]
    return c

def p_mask_other(a):
    c = np.stack([a, 2 * a], axis=1)
    neg = c[:, 0] < 0
    pos = c[:, 0] > 0
    c[neg] = -c[pos]
    return c

def p_rows(a):
    c = a.copy()
    m = c.reshape((len(a), 1))
    m[:, 0] += 1
    return c
'''

CL = [
    ("p_real", True, "p_real", lambda S, n, a, r: S.elems("v", r, (n,), lambda i: (2 + 3 * S.I) * S.at(a, i))),
    ("p_real_kept", False, "p_real", lambda S, n, a, r: S.elems("v", r, (n,), lambda i: (1 + 3 * S.I) * S.at(a, i))),
    ("p_view", True, "p_view", lambda S, n, a, r: (S.elems("c", S.getitem(r, 0), (n,), lambda i: S.where(i < 1, lambda: 7, lambda: S.where(i < 2, lambda: 5 + S.I * S.at(a, i), lambda: (1 + S.I) * S.at(a, i)))),
        S.elems("r", S.getitem(r, 1), (n,), lambda i: S.where(i < 1, lambda: 7, lambda: S.where(i < 2, lambda: 5, lambda: S.at(a, i)))))),
    ("p_view_copy", False, "p_view", lambda S, n, a, r: S.equal("r", S.at(S.getitem(r, 1), 0), S.at(a, 0))),
    ("p_view_lost", False, "p_view", lambda S, n, a, r: S.equal("c", S.at(S.getitem(r, 0), 1), (1 + S.I) * S.at(a, 1))),
    ("p_conj", True, "p_conj", lambda S, n, a, r: S.elems("v", r, (n,), lambda i: (1 - S.I) * S.at(a, i))),
    ("p_flat", True, "p_flat", lambda S, n, a, r: S.elems("c", S.getitem(r, 0), (n, 3), lambda i, j: S.where(S.eq(j, 1), lambda: S.at(a, i), lambda: 0))),
    ("p_flat_lost", False, "p_flat", lambda S, n, a, r: S.elems("c", S.getitem(r, 0), (n, 3), lambda i, j: 0)),
    ("p_flatten", True, "p_flatten", lambda S, n, a, r: S.elems("c", r, (n, 3), lambda i, j: 0)),
    ("p_mask", True, "p_mask", lambda S, n, a, r: S.elems("c", r, (n, 2), lambda i, j: (1 + j) * S.abs(S.at(a, i)))),
    ("p_mask_same", False, "p_mask", lambda S, n, a, r: S.elems("c", r, (n, 2), lambda i, j: (1 + j) * S.at(a, i))),
    ("p_mask_other", False, "p_mask_other", lambda S, n, a, r: S.elems("c", r, (n, 2), lambda i, j: (1 + j) * S.abs(S.at(a, i)))),
    ("p_rows", True, "p_rows", lambda S, n, a, r: S.elems("c", r, (n,), lambda i: 1 + S.at(a, i))),
    ("w_sum", True, "w_sum", lambda S, n, a, r: S.equal("v", r, S.sum(0, n, lambda i: S.at(a, i)))),
    ("w_sum_short", False, "w_sum", lambda S, n, a, r: S.equal("v", r, S.sum(0, n - 1, lambda i: S.at(a, i)))),
    ("w_down", True, "w_down", lambda S, n, a, r: (S.elems("v", S.getitem(r, 0), (n,), lambda i: 2 * S.at(a, i)), S.equal("k", S.getitem(r, 1), -1))),
    ("w_down_k", False, "w_down", lambda S, n, a, r: S.equal("k", S.getitem(r, 1), 0)),
    ("w_two", True, "w_two", lambda S, n, a, r: S.elems("v", r, (n,), lambda i: S.ite(S.eq(i % 2, 0), S.at(a, i), 0))),
    ("r_two", True, "r_two", lambda S, n, a, r: S.elems("v", r, (n,), lambda i: S.ite(S.eq(i % 2, 0), S.at(a, i), 0))),
    ("w_two_all", False, "w_two", lambda S, n, a, r: S.elems("v", r, (n,), lambda i: S.at(a, i))),
    ("f_first_range", True, "f_first", lambda S, n, a, r: S.ensure("v", S.or_(S.eq(r, -1), S.and_(r >= 0, r < n)))),
    ("f_first_zero", False, "f_first", lambda S, n, a, r: S.equal("v", r, 0)),
    ("f_first_never", False, "f_first", lambda S, n, a, r: S.equal("v", r, -1)),
    ("f_first_pos", True, "f_first", lambda S, n, a, r: S.ensure("v", S.or_(S.eq(r, -1), S.at(a, S.max(r, 0)) > 0))),
    ("f_break_all", False, "f_break", lambda S, n, a, r: S.equal("v", r, S.sum(0, n, lambda i: S.at(a, i)))),
    ("f_break_zero", False, "f_break", lambda S, n, a, r: S.equal("v", r, 0)),
    ("f_break_else", True, "f_break_else", lambda S, n, a, r: S.ensure("v", S.or_(S.eq(r, 1), S.eq(r, 2)))),
    ("f_break_else2", False, "f_break_else", lambda S, n, a, r: S.equal("v", r, 2)),
    ("f_break_else1", False, "f_break_else", lambda S, n, a, r: S.equal("v", r, 1)),
    ("f_break_else0", False, "f_break_else", lambda S, n, a, r: S.equal("v", r, 0)),
    ("f_nested_break", True, "f_nested_break", lambda S, n, a, r: S.equal("v", r, 3)),
    ("f_nested_break0", False, "f_nested_break", lambda S, n, a, r: S.equal("v", r, 0)),
    ("f_continue", True, "f_continue", lambda S, n, a, r: S.equal("v", r, S.sum(0, n, lambda i: S.ite(S.at(a, i) >= 0, S.at(a, i), 0)))),
    ("f_continue_all", False, "f_continue", lambda S, n, a, r: S.equal("v", r, S.sum(0, n, lambda i: S.at(a, i)))),
    ("g_fill", True, "g_fill", lambda S, n, a, r: S.elems("v", r, (n,), lambda i: 3 * S.at(a, i))),
    ("g_fill2", False, "g_fill", lambda S, n, a, r: S.elems("v", r, (n,), lambda i: 2 * S.at(a, i))),
    ("g_list", True, "g_list", lambda S, n, a, r: S.elems("v", r, (n,), lambda i: S.at(a, i) + i)),
    ("g_sum", True, "g_sum", lambda S, n, a, r: S.equal("v", r, S.sum(0, n, lambda i: S.at(a, i)))),
    ("g_break", True, "g_break", lambda S, n, a, r: S.ensure("v", S.and_(r >= 0, r <= n))),
    ("g_break_n", False, "g_break", lambda S, n, a, r: S.equal("v", r, n)),
    ("g_return", True, "g_return", lambda S, n, a, r: S.ensure("v", S.or_(S.eq(r, -1), S.at(a, S.max(r, 0)) < 0))),
    ("g_return_no", False, "g_return", lambda S, n, a, r: S.equal("v", r, -1)),
    ("l_len", False, "l_len", lambda S, n, a, r: S.elems("v", r, (n,), lambda i: 0)),
    ("l_len_i", True, "l_len", lambda S, n, a, r: S.elems("v", r, (n,), lambda i: i * S.at(a, i))),
    ("l_two", True, "l_two", lambda S, n, a, r: S.elems("v", r, (2 * n,), lambda i: S.ite(S.eq(i % 2, 0), S.at(a, i // 2), -S.at(a, i // 2)))),
    ("l_two_pos", False, "l_two", lambda S, n, a, r: S.elems("v", r, (2 * n,), lambda i: S.at(a, i // 2))),
    ("l_nested", True, "l_nested", lambda S, n, a, r: S.elems("v", r, (n * n,), lambda i: S.at(a, i // n) * S.at(a, i % n))),
    ("l_nested_t", False, "l_nested", lambda S, n, a, r: S.elems("v", r, (n * n,), lambda i: S.at(a, i // n) * S.at(a, i // n))),
    ("l_extend", True, "l_extend", lambda S, n, a, r: S.elems("v", r, (n,), lambda i: S.at(a, i) + 1)),
    ("m_aug", True, "m_aug", lambda S, n, a, r: S.elems("v", r, (n,), lambda i: S.abs(S.at(a, i)))),
    ("m_aug_no", False, "m_aug", lambda S, n, a, r: S.elems("v", r, (n,), lambda i: S.at(a, i))),
    ("any_if", True, "any_if", lambda S, n, a, r: S.ensure("v", S.not_(r))),
    ("any_if_yes", False, "any_if", lambda S, n, a, r: S.ensure("v", r)),
    ("any_pairs", False, "any_pairs", lambda S, n, a, r: S.ensure("v", S.not_(r))),
    ("all_if", False, "all_if", lambda S, n, a, r: S.ensure("v", r)),
    ("all_if_no", False, "all_if", lambda S, n, a, r: S.ensure("v", S.not_(r))),
    ("c_if", True, "c_if", lambda S, n, a, r: S.equal("v", r, S.sum(0, n, lambda i: S.ite(S.at(a, i) > 0, S.at(a, i), 0)))),
    ("c_if_all", False, "c_if", lambda S, n, a, r: S.equal("v", r, S.sum(0, n, lambda i: S.at(a, i)))),
    ("e_count", True, "e_count", lambda S, n, a, r: S.elems("v", r, (n,), lambda i: i + 1)),
    ("e_count1", False, "e_count", lambda S, n, a, r: S.elems("v", r, (n,), lambda i: 1)),
    ("e_walrus", True, "e_walrus", lambda S, n, a, r: S.elems("v", r, (n,), lambda i: i + 1)),
    ("e_walrus1", False, "e_walrus", lambda S, n, a, r: S.elems("v", r, (n,), lambda i: 1)),
    ("e_map", True, "e_map", lambda S, n, a, r: S.elems("v", r, (n,), lambda i: i + 1)),
    ("e_map1", False, "e_map", lambda S, n, a, r: S.elems("v", r, (n,), lambda i: 1)),
    ("e_any", False, "e_any", lambda S, n, a, r: S.ensure("v", S.not_(r))),
    ("e_sum", False, "e_sum", lambda S, n, a, r: S.equal("v", r, n)),
    ("e_sum2", True, "e_sum", lambda S, n, a, r: S.equal("v", 2 * r, n * (n + 1))),
    ("e_join", True, "e_join", lambda S, n, a, r: (S.elems("b", S.getitem(r, 1), (n,), lambda i: S.at(a, i)), S.elems("v", S.getitem(r, 0), (n,), lambda i: S.at(a, 0)))),
    ("e_join0", False, "e_join", lambda S, n, a, r: S.elems("b", S.getitem(r, 1), (n,), lambda i: 0)),
    ("c_pairs", True, "c_pairs", lambda S, n, a, r: S.equal("v", r, S.sum(0, n, lambda i: S.sum(0, n, lambda j: S.at(a, i) * S.at(a, j))))),
    ("c_pairs_half", False, "c_pairs", lambda S, n, a, r: S.equal("v", r, S.sum(0, n, lambda i: S.at(a, i) * S.at(a, i)))),
    ("c_pairs_list", True, "c_pairs_list", lambda S, n, a, r: S.elems("v", r, (n * n,), lambda i: S.at(a, i // n) * S.at(a, i % n))),
]
NONEMPTY = {"p_view", "p_view_copy", "p_view_lost", "f_first_pos", "g_return"}
PAIRS = {"l_nested", "any_pairs", "c_pairs", "c_pairs_list"}

def main():
    d = tempfile.mkdtemp(prefix="pyvc-loops-")
    try:
        shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__", "*.egg-info"))
        open(d + "/src/sleplet/_probe.py", "w").write(FUNCS)
        os.environ["PYVC_SRC"] = d + "/src"
        sys.path.insert(0, d + "/src")
        from pyvc import driver, sandbox
        sandbox.enter()
        bad = 0
        for name, true, fn, claim in CL:
            if sys.argv[1:] and name not in sys.argv[1:]:
                continue

            def c(S, fn=fn, claim=claim, name=name):
                n = S.int("n", 0, 9)
                a = S.arr("a", (n,))
                r = S.call("sleplet._probe." + fn, a, a) if fn in PAIRS else S.call("sleplet._probe." + fn, a)
                if name in NONEMPTY:
                    S.assume(n >= 2)
                claim(S, n, a, r)
            c.__name__ = "self." + name
            ct = driver.contract("SELF", samples=25, budget=40)(c)
            ct = next(x for k, x in driver.CONTRACTS.items() if x.fn is c) if not hasattr(ct, "samples") else ct
            r = driver.run_symbolic(ct, 40)
            proved = bool(r["obls"]) and all(o.status == "proved" for o in r["obls"]) and not r["error"]
            conc = [driver.run_concrete(ct, 1000 + k)[0] for k in range(25)]
            held = not any(x in ("fail", "error") for x in conc)
            verdict = "ok"
            if proved != true:
                verdict = "UNSOUND" if proved else ("not proved" if r["error"] is None else "stopped: " + str(r["error"])[:90])
            if held != true:
                verdict += " / CONTRACT WRONG: runs " + str(sorted(set(conc)))
            bad += verdict.startswith("UNSOUND") or "WRONG" in verdict
            if "-v" in os.environ.get("V", ""):
                for o in r["obls"]:
                    if o.status != "proved": print("  ", o.name, o.detail)
            print(f"{name:18} {'true ' if true else 'false'} {verdict}  ({r['paths']} paths, {r['time']:.1f}s; definite: {any(o.definite for o in r['obls'])})", flush=True)
        print("FAILED" if bad else "sound")
        return 1 if bad else 0
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
