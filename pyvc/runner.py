"""Check of one property: discharge every obligation of its contracts on /repo's current source, replay on the real code.

    check.sh C01            exit 0: held; exit 1 + VIOLATION line: broken
    check.sh --replay FILE  re-run a stored counterexample against /repo
"""
from __future__ import annotations

import glob
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("PYVC_OUT", ROOT)
sys.path.insert(0, ROOT)
sys.setrecursionlimit(30000)
NPROC = int(os.environ.get("PYVC_JOBS", str(min(8, os.cpu_count() or 1))))


def load_contracts():
    from . import driver
    for f in sorted(glob.glob(os.path.join(ROOT, "contracts", "c*.py"))):
        importlib.import_module("contracts." + os.path.basename(f)[:-3])
    return driver.CONTRACTS


def select(cs, prop):
    """contracts of the property and, transitively, the callee contracts they rely on"""
    out = [c for c in cs.values() if prop in c.props]
    todo = list(out)
    while todo:
        c = todo.pop()
        for u in c.uses:
            for d in cs.values():
                if (d.name == u or d.name.startswith(u + ".")) and d not in out:
                    out.append(d)
                    todo.append(d)
    return out


# ----------------------------------------------------------------- worker processes
def _child(conn, fn, args):
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    try:
        conn.send(("ok", fn(*args)))
    except BaseException as e:      # noqa: BLE001
        try:
            conn.send(("crash", f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}"))
        except Exception:
            pass
    conn.close()
    os._exit(0)


def run_pool(tasks, nproc=NPROC):
    """tasks: list of (key, fn, args, timeout) -> {key: ('ok', v) | ('crash', msg) | ('timeout', '')}"""
    ctx = mp.get_context("fork")
    pending = list(tasks)[::-1]
    running = {}
    out = {}
    while pending or running:
        while pending and len(running) < nproc:
            key, fn, args, to = pending.pop()
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, fn, args))
            p.start()
            b.close()
            running[key] = (p, a, time.time() + to)
        done = []
        for key, (p, a, dl) in running.items():
            try:
                if a.poll(0):
                    out[key] = a.recv()
                    done.append(key)
                    continue
            except EOFError:
                out[key] = ("crash", f"worker ended, exit code {p.exitcode}")
                done.append(key)
                continue
            if not p.is_alive() and not a.poll(0):
                out[key] = ("crash", f"worker ended, exit code {p.exitcode}")
                done.append(key)
            elif time.time() > dl:
                out[key] = ("timeout", "")
                done.append(key)
        for key in done:
            p, a, _ = running.pop(key)
            kill(p)
            a.close()
        if not done:
            time.sleep(0.01)
    return out


def kill(p):
    import signal
    if p.is_alive():
        p.join(0.2)
    for sig in (signal.SIGTERM, signal.SIGKILL):
        if p.is_alive():
            try:
                os.killpg(p.pid, sig)
            except OSError:
                try:
                    os.kill(p.pid, sig)
                except OSError:
                    pass
            p.join(2)
    p.join(0.1)


# ----------------------------------------------------------------------- task bodies
def task_symbolic(name, budget):
    from . import driver
    c = driver.CONTRACTS[name]
    r = driver.run_symbolic(c, budget)
    r["obls"] = [dict(contract=o.contract, name=o.name, status=o.status, detail=o.detail, path=list(o.path), model=o.model,
                      time=round(o.time, 4), backend=o.backend, definite=o.definite) for o in r["obls"]]
    return r


def task_concrete(name, seeds, givens, budget):
    from . import driver, sandbox
    import tempfile
    c = driver.CONTRACTS[name]
    if sandbox.STATE:
        sandbox.own()
    t0 = time.time()
    res = {"ok": 0, "skip": 0, "fail": [], "error": [], "reached": [], "distinct": []}
    reached = set()
    distinct = set()
    first = True
    for i, (seed, given) in enumerate([(s, g) for g in givens for s in seeds]):
        if not first and time.time() - t0 > budget:
            break
        first = False
        st, det, vals, rc = driver.run_concrete(c, seed, given)
        if st in ("ok", "skip"):
            res[st] += 1
        else:
            res[st].append((seed, given, det, vals))
        if st == "ok":
            distinct.add(json.dumps(vals, sort_keys=True, default=str) + f"|{seed}")
        reached |= set(rc)
        if len(res["fail"]) >= 3:
            break
    res["reached"] = sorted(reached)
    res["distinct"] = len(distinct)
    return res


# ---------------------------------------------------------------------------- check
def known_findings(prop):
    """lines of known-findings.txt:  finding: property=<id> contract=<name> clause=<text prefix> -- what fails"""
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: ") and f"property={prop} " in line:
                head, _, what = line[len("finding: "):].partition(" -- ")
                kv = dict(x.split("=", 1) for x in head.split(" ", 2) if "=" in x)
                out.append((kv.get("contract"), kv.get("clause", ""), what))
    return out


def check(prop, tier, seed):
    t0 = time.time()
    cs = load_contracts()
    sel = select(cs, prop)
    if not sel:
        print(f"no contracts for {prop}")
        return 2
    from . import sandbox
    sandbox.enter()
    preload()
    quick = tier == "quick"
    tasks = []
    nsamp = {}
    for c in sorted(sel, key=lambda c: -c.budget):
        tasks.append((("sym", c.name), task_symbolic, (c.name, c.budget if quick else c.budget * 4), (c.budget if quick else c.budget * 4) + 15))
    for c in sel:
        n = c.samples if quick else c.samples * 8
        nsamp[c.name] = n
        cb = c.kw.get("cbudget", 15)
        tasks.append((("con", c.name), task_concrete, (c.name, [seed * 1000 + k for k in range(n)], [None], cb if quick else cb * 6), (cb if quick else cb * 6) + 60))
    res = run_pool(tasks)
    violations, undecided, known = [], [], []
    kf = known_findings(prop)
    obligations = discharged = 0
    backends, touched, summaries, assumptions = {}, {}, set(), set()
    stats = {"z3_calls": 0, "z3_time": 0.0, "z3_unknown": 0}
    percontract = []
    follow = []
    errors = []
    for c in sel:
        st, r = res[("sym", c.name)]
        info = {"contract": c.name}
        if st == "ok":
            obligations += len(r["obls"])
            ok = [o for o in r["obls"] if o["status"] == "proved"]
            discharged += len(ok)
            for o in ok:
                backends[o["backend"]] = backends.get(o["backend"], 0) + 1
            touched.update(r["touched"])
            summaries |= set(r["summaries"])
            assumptions |= set(r["assumptions"])
            for k in stats:
                stats[k] += r["stats"][k]
            info.update(obligations=len(r["obls"]), discharged=len(ok), paths=r["paths"], seconds=round(r["time"], 2))
            bad = [o for o in r["obls"] if o["status"] != "proved"]
            if r["error"]:
                undecided.append((c, "symbolic reading stopped: " + r["error"], None))
                info["undecided"] = r["error"]
            if r["vacuous"] and not r["error"]:
                undecided.append((c, f"paths without obligations: {r['vacuous'][:5]}", None))
            if not r["obls"] and not r["error"]:
                undecided.append((c, "no obligations generated", None))
            names = {}
            for o in bad:
                names.setdefault(o["name"], []).append(o)
            for n, os_ in names.items():
                undecided.append((c, f"obligation not discharged: {n}", os_))
        else:
            undecided.append((c, f"symbolic reading: {st} {r[:300]}", None))
            info["undecided"] = st
        st, r = res[("con", c.name)]
        if st == "ok":
            info["concrete"] = {"ok": r["ok"], "outside_precondition": r["skip"], "failed": len(r["fail"])}
            for seed_, given, det, vals in r["fail"]:
                violations.append((c, det, seed_, given, vals))
            for e in r["error"]:
                errors.append(f"{c.name}: {e[2]}")
            if r["ok"] == 0 and not r["fail"]:
                errors.append(f"{c.name}: no concrete run reached the contract (skip {r['skip']})")
            info["clauses_reached"] = len(r["reached"])
        else:
            errors.append(f"{c.name}: concrete reading {st} {str(r)[:600]}")
        percontract.append(info)
    # directed search for failing inputs of obligations that were not discharged
    vio_names = {v[0].name for v in violations}
    tasks = []
    for c in {u[0].name: u[0] for u in undecided}.values():
        if c.name in vio_names:
            continue
        givens = []
        for _, why, os_ in [u for u in undecided if u[0] is c]:
            for o in (os_ or []):
                for g in (o["model"], {("choice!" + k): v for k, v in o["path"]}):
                    if g and g not in givens:
                        givens.append(g)
        givens = givens[:10] + [None]
        n = 30 if quick else 200
        tasks.append((("dir", c.name), task_concrete, (c.name, [seed * 1000 + 500000 + k for k in range(n)], givens, 40 if quick else 240), 120 if quick else 420))
        if any(not os_ for u, _, os_ in undecided if u is c):
            # nothing was read symbolically: also larger sizes than the usual samples
            tasks.append((("wide", c.name), task_concrete, (c.name, [10**9 + seed * 1000 + k for k in range(n)], [None], 40 if quick else 240), 120 if quick else 420))
    res2 = run_pool(tasks) if tasks else {}
    extra_runs = 0
    for (_, name), (st, r) in res2.items():
        if st == "ok":
            extra_runs += r["ok"]
            for seed_, given, det, vals in r["fail"]:
                violations.append((cs[name], det, seed_, given, vals))
    vio_names = {v[0].name for v in violations}
    noinput = []
    stopped = {c.name for c, why, os_ in undecided if not os_}
    for c, why, os_ in undecided:
        if c.name in vio_names or not os_ or c.name in stopped:
            continue
        d = [o for o in os_ if o.get("definite")]
        if d:
            noinput.append((c, why, d[0]))
    # ------------------------------------------------------------- reporting
    lines = []
    seen = set()
    rc = 0
    for c, det, seed_, given, vals in violations:
        hit = [k for k in kf if k[0] == c.name and det.startswith(k[1])]
        if hit:
            if hit[0] not in known:
                known.append(hit[0])
                print(f"KNOWN-FINDING: property={prop} {hit[0][2]}")
            continue
        if c.name in seen:
            continue
        seen.add(c.name)
        path = write_replay(prop, c, det, seed_, given, vals, None)
        print(f"{c.name}: {det}\n   inputs {vals}")
        lines.append(f"VIOLATION property={prop} replay={path}")
    for c, why, o in noinput:
        if c.name in seen or any(k[0] == c.name and o["name"].startswith(k[1]) for k in kf):
            continue
        seen.add(c.name)
        path = write_replay(prop, c, why, None, None, None, o)
        print(f"{c.name}: {why}\n   {o['detail'][:800]}")
        lines.append(f"VIOLATION property={prop} replay={path} no-failing-input-found")
    und_out = []
    for c, why, os_ in undecided:
        if c.name in seen:
            continue
        hit = [k for k in kf if os_ and k[0] == c.name and all(o["name"].startswith(k[1]) for o in os_)]
        if hit:     # a recorded defect: nothing can be proved there
            if hit[0] not in known:
                known.append(hit[0])
                print(f"KNOWN-FINDING: property={prop} {hit[0][2]}")
            und_out.append({"contract": c.name, "why": why, "stand_in": "none: known finding"})
            continue
        und_out.append({"contract": c.name, "why": why, "stand_in": "bounded: contract checked on sampled inputs of the real code"})
        print(f"UNDECIDED {c.name}: {why} (bounded stand-in: concrete runs passed)")
        if os_ and os.environ.get("PYVC_VERBOSE"):
            print("   ", os_[0]["detail"][:1500])
    for e in errors:
        print("note:", e)
    for l in lines:
        print(l)
        rc = 1
    from . import models
    trusted = ["pyvc symbolic interpreter and normaliser (cross-checked against CPython by the concrete reading of every contract)",
               "z3 " + __import__("z3").get_version_string(),
               "library contracts assumed in pyvc/models.py (numpy, pyssht, pys2let, igl, gmpy2, scipy)"]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof" if obligations else "other",
        "coverage": {
            "obligations": obligations, "discharged": discharged,
            "checker_cmd": f"./check.sh {prop}" + ("" if quick else " --thorough"),
            "trusted_base": trusted,
            "backends": backends, "solver_calls": stats["z3_calls"], "solver_seconds": round(stats["z3_time"], 2),
            "solver_unknown": stats["z3_unknown"],
            "functions_under_contract": sorted(touched), "callee_contracts_used": sorted(summaries),
            "contracts": percontract, "undecided_bounded": und_out,
            "evaluations": sum(i.get("concrete", {}).get("ok", 0) for i in percontract) + extra_runs,
            "explanation": "every clause of every listed contract is an obligation over the AST of /repo's current source, "
                           "for all inputs satisfying the precondition; the same clauses are re-run on the real code with sampled inputs",
        },
        "assumptions": sorted(assumptions) + BASE_ASSUMPTIONS,
        "violations": lines, "wall_s": round(time.time() - t0, 2),
    }
    if errors:
        ev["coverage"]["notes"] = errors[:20]
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{prop}: {discharged}/{obligations} obligations discharged in {len(sel)} contracts, {len(touched)} functions; "
          f"{ev['coverage']['evaluations']} concrete runs; {len(und_out)} undecided; {len(lines)} violations; {ev['wall_s']} s")
    return rc


BASE_ASSUMPTIONS = [
    "floating point arithmetic is treated as exact real/complex arithmetic (no NaN, infinity, rounding or overflow)",
    "inputs satisfy the documented types and shapes stated as preconditions of each contract",
    "the multiprocessing/threading runtime delivers exactly one call per work item (executor.map) and joins before leaving the with block",
]


def preload():
    try:
        import numpy  # noqa: F401
        import z3  # noqa: F401
    except ImportError:
        from . import solver  # noqa: F401
    from . import interp, models, loops  # noqa: F401
    try:
        import sleplet  # noqa: F401
        import sleplet._class_lists  # noqa: F401
    except Exception as e:      # noqa: BLE001
        print("note: importing sleplet failed:", type(e).__name__, e)


def write_replay(prop, c, det, seed, given, vals, obl):
    d = os.path.join(OUT, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(f"{prop}{c.name}{det}{seed}".encode()).hexdigest()[:10]
    p = os.path.join(d, f"{prop}-{c.name}-{h}.json")
    with open(p, "w") as f:
        json.dump({"property": prop, "contract": c.name, "failed": det, "seed": seed, "given": given, "inputs": vals,
                   "failed_obligation": obl, "replay_cmd": f"./check.sh --replay {p}" if seed is not None else None}, f, indent=1, default=str)
    return p


def replay(path):
    from . import driver, sandbox
    cs = load_contracts()
    d = json.load(open(path))
    if d["seed"] is None:
        print("no concrete input: failed obligation", d["failed_obligation"])
        return 1
    sandbox.enter()
    st, det, vals, _ = driver.run_concrete(cs[d["contract"]], d["seed"], d["given"])
    print(st, det, vals)
    return 1 if st == "fail" else 0


def main(argv):
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    prop = argv[0]
    tier = "thorough" if "--thorough" in argv else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return check(prop, tier, seed)


if __name__ == "__main__":
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    sys.exit(rc)
