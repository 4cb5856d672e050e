"""functions of the package that no check encodes (from the evidence files)"""
import json, glob, ast, os, sys
R = os.environ.get("SX_REPO", "/repo")
enc = set()
for f in glob.glob("/verif/evidence/P*.json"):
    if "replay" in f: continue
    enc |= set(json.load(open(f))["coverage"].get("functions_encoded", []))
for dp, dn, fn in os.walk(R + "/dolo"):
    if "tests" in dp: continue
    for f in sorted(fn):
        if not f.endswith(".py"): continue
        p = os.path.join(dp, f); rel = os.path.relpath(p, R)
        t = ast.parse(open(p).read()); miss = []; n = 0
        def walk(node, pre):
            global n
            for c in node.body if hasattr(node, "body") else []:
                if isinstance(c, ast.ClassDef): walk(c, pre + c.name + ".")
                elif isinstance(c, ast.FunctionDef):
                    n += 1
                    if "%s:%s%s" % (rel, pre, c.name) not in enc: miss.append("%s%s(%d)" % (pre, c.name, len(c.body) and c.end_lineno - c.lineno))
        walk(t, "")
        print("%s %d/%d" % (rel, n - len(miss), n), " ".join(miss))
