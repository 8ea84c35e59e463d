"""functions of /repo/src/sleplet that no contract reads (from evidence/*.json of the last runs): python3 tools/fn_coverage.py"""
import ast, glob, json, os
seen = set()
for f in glob.glob("/verif/evidence/*.json") + glob.glob("/tmp/w/cov/evidence/*.json"):
    j = json.load(open(f))
    def walk(x):
        if isinstance(x, dict):
            for k, v in x.items():
                if k == "functions_under_contract":
                    for q in (v if isinstance(v, list) else [v]):
                        seen.add(q if isinstance(q, str) else q.get("function", str(q)))
                else:
                    walk(v)
        elif isinstance(x, list):
            for v in x: walk(v)
    walk(j)
allf = {}
root = "/repo/src/sleplet"
for d, _, fs in os.walk(root):
    for f in fs:
        if f.endswith(".py"):
            p = os.path.join(d, f)
            mod = "sleplet." + os.path.relpath(p, root)[:-3].replace("/", ".")
            mod = mod.removesuffix(".__init__")
            def rec(node, pre):
                for n in ast.iter_child_nodes(node):
                    if isinstance(n, (ast.FunctionDef,)):
                        allf[pre + "." + n.name] = n.end_lineno - n.lineno + 1
                    if isinstance(n, ast.ClassDef):
                        rec(n, pre + "." + n.name)
            rec(ast.parse(open(p).read()), mod)
miss = sorted(set(allf) - seen)
print(len(seen & set(allf)), "of", len(allf), "functions read;", sum(allf[m] for m in miss), "lines in", len(miss), "others")
for m in miss:
    print("  ", m, allf[m])
