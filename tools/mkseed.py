"""Write seeded/<id>/ from tools/seeds/*.py:  python3 tools/mkseed.py [ID...]
each file defines SEEDS = [dict(id, prop, file, edits=[(old,new),...], demo, needs, breaks)]"""
import difflib
import glob
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seeds = {}
for f in sorted(glob.glob(os.path.join(ROOT, "tools", "seeds", "*.py"))):
    ns = {}
    exec(open(f).read(), ns)
    for s in ns["SEEDS"]:
        assert s["id"] not in seeds, s["id"]
        seeds[s["id"]] = s
want = sys.argv[1:] or sorted(seeds)
for i in want:
    s = seeds[i]
    files = s["file"] if isinstance(s["file"], list) else [s["file"]]
    diff = ""
    for f in files:
        p = os.path.join("/repo/src/sleplet", f)
        a = b = open(p).read()
        for e in s["edits"]:
            if len(e) == 3:
                if e[0] != f:
                    continue
                e = e[1:]
            assert b.count(e[0]) == 1, (i, f, b.count(e[0]), e[0])
            b = b.replace(e[0], e[1])
        diff += "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/src/sleplet/" + f, "b/src/sleplet/" + f))
    d = os.path.join(ROOT, "seeded", i)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.py"), "w").write(PRE + s["demo"]) if False else None
    pre = ("import os, sys, tempfile, shutil\n_tmp = tempfile.mkdtemp()\n"
           "for _v in ('XDG_DATA_HOME', 'XDG_CACHE_HOME', 'XDG_CONFIG_HOME'):\n    os.environ[_v] = os.path.join(_tmp, _v)\n    os.makedirs(os.environ[_v])\n"
           "import atexit\natexit.register(shutil.rmtree, _tmp, True)\nos.environ['MPLBACKEND'] = 'Agg'\n"
           "import numpy as np\n")
    open(os.path.join(d, "demo.py"), "w").write(pre + s["demo"].strip() + "\n")
    sh = os.path.join(d, "demo.sh")
    open(sh, "w").write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(sh, 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    print(i, "written")
