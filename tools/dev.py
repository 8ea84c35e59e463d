"""developer run: python tools/dev.py PATTERN [-v] : symbolic + concrete results of matching contracts"""
import sys, os, fnmatch, importlib, glob, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
pats = [a for a in sys.argv[1:] if not a.startswith("-")] or ["*"]
verbose = "-v" in sys.argv
from pyvc import driver
for f in sorted(glob.glob("/verif/contracts/c*.py")):
    importlib.import_module("contracts." + os.path.basename(f)[:-3])
from pyvc import sandbox
conc = "-s" not in sys.argv
if conc:
    sandbox.enter()
for n, c in driver.CONTRACTS.items():
    if not any(fnmatch.fnmatch(n, p + "*") for p in pats):
        continue
    t = time.time()
    if "-c" not in sys.argv:
        r = driver.run_symbolic(c, 120)
        ok = sum(o.status == "proved" for o in r["obls"])
        print(f"{n}: {ok}/{len(r['obls'])} proved, {r['paths']} paths, {r['time']:.1f}s z3 {r['stats']['z3_calls']} {r['error'] or ''} {'VACUOUS %s' % r['vacuous'] if r['vacuous'] else ''}")
        if r["error"] and verbose: print(r["trace"])
        seen = 0
        for o in r["obls"]:
            if o.status != "proved" and (seen < 3 or verbose):
                seen += 1
                print("   UNPROVED", o.name, o.path, o.model); print("     ", o.detail.replace("\n", "\n      "))
    if conc:
        from collections import Counter
        cnt = Counter(); reached = set()
        for k in range(c.samples):
            st, det, vals, rc = driver.run_concrete(c, (10**9 if "-w" in sys.argv else 0) + 1000 + k)
            cnt[st] += 1; reached |= set(rc)
            if st in ("fail", "error") and cnt[st] <= 2: print("   CONCRETE", st, det, vals)
        print("   concrete", dict(cnt), f"{time.time()-t:.1f}s")
