"""Development: run checks against edited copies of the sources (never /repo itself).
exp.py FILE [-j JOBS] [ID...]   FILE = tools/mutants/x.py with CASES = [(id, props, [(file, old, new), ...]), ...]
kind: CASES named r* are behaviour-preserving (must stay quiet), b* break the property (should be caught)."""
import concurrent.futures, os, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
args = sys.argv[2:]
jobs = 2
if "-j" in args:
    i = args.index("-j"); jobs = int(args[i + 1]); del args[i:i + 2]
todo = []
for cid, props, edits in ns["CASES"]:
    if args and not any(cid.startswith(a) for a in args):
        continue
    d = f"/tmp/exp/{cid}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.environ.get("EXP_SRC", "/repo/src"), d + "/src", ignore=shutil.ignore_patterns("__pycache__", "*.egg-info"))
    ok = True
    for f, a, b in edits:
        p = f"{d}/src/sleplet/{f}"
        s = open(p).read()
        if s.count(a) != 1:
            print(f"!! {cid}: {f}: count {s.count(a)}: {a[:70]!r}"); ok = False; break
        open(p, "w").write(s.replace(a, b))
    if ok:
        r = subprocess.run(["python3", "-m", "compileall", "-q", d + "/src/sleplet"], capture_output=True, text=True)
        if r.returncode:
            print("!!", cid, "does not compile", r.stdout[-300:]); ok = False
    if ok:
        for p in props.split():
            todo.append((cid, p))

def run(t):
    cid, p = t
    t0 = time.time()
    env = dict(os.environ, PYVC_SRC=f"/tmp/exp/{cid}/src", PYVC_OUT=f"/tmp/exp/{cid}/out", VERIF_SEED="1", VERIF_TIER="quick")
    os.makedirs(env["PYVC_OUT"], exist_ok=True)
    try:
        r = subprocess.run(["./check.sh", p], cwd=ROOT, env=env, capture_output=True, text=True, timeout=900)
        out, rc = r.stdout + r.stderr, r.returncode
    except subprocess.TimeoutExpired:
        out, rc = "", "TIMEOUT"
    open(f"/tmp/exp/{cid}/{p}.log", "w").write(out)
    v = [l for l in out.splitlines() if l.startswith("VIOLATION")]
    u = [l for l in out.splitlines() if l.startswith("UNDECIDED")]
    n = sum("no-failing-input" in l for l in v)
    bad = (cid[0] == "r" and rc != 0) or (cid[0] == "b" and rc != 1)
    return f"{'**' if bad else '  '} {cid:34} {p} rc={rc} {time.time() - t0:.0f}s viol={len(v)}({n} no input) und={len(u)} {(u or [''])[0][:150]}"

with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
    for line in ex.map(run, todo):
        print(line, flush=True)
