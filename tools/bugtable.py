"""bugtable.py [CHECK...]: runs checks against every planted bug (scratch copies of /repo) and rewrites the table in DESIGN.md.

For each bug: the check of its property, plus the checks given. Results are kept in /tmp/bugtable.json between calls."""
import glob
import json
import os
import re
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = "/tmp/bugtable.json"
got = json.load(open(CACHE)) if os.path.exists(CACHE) else {}
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    name = os.path.basename(d)
    meta = json.load(open(os.path.join(d, "meta.json")))
    for c in [meta["property"]] + sys.argv[1:]:
        if "%s/%s" % (name, c) in got:
            continue
        p = subprocess.run([os.path.join(V, "tools", "trybug.sh"), os.path.join(d, "patch.diff"), c], capture_output=True, text=True)
        m = re.search(r"^%s: (\d+) runs.* ([\d.]+) s" % c, p.stdout, re.M)
        got["%s/%s" % (name, c)] = ["VIOLATION property=%s" % c in p.stdout, int(m[1]) if m else None, float(m[2]) if m else None]
        print(name, c, got["%s/%s" % (name, c)], flush=True)
        json.dump(got, open(CACHE, "w"))
rows = ["| planted bug | needs | caught by (runs until the first violation) |", "|---|---|---|"]
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    name = os.path.basename(d)
    meta = json.load(open(os.path.join(d, "meta.json")))
    res = {k.split("/")[1]: v for k, v in got.items() if k.split("/")[0] == name}
    hit = ", ".join("%s (%s)" % (c, v[1]) for c, v in sorted(res.items()) if v[0]) or "not caught"
    rows.append("| %s | %s | %s |" % (name, meta["needs"].replace("|", "/").replace("\n", " "), hit))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
s = re.sub(r"<!-- bugs -->.*<!-- /bugs -->", lambda m: "<!-- bugs -->\n%s\n<!-- /bugs -->" % "\n".join(rows), s, flags=re.S)
open(p, "w").write(s)
