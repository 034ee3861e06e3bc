# mk.py ID PROPERTY needs breaks  FILE<<old>>new...   (driven from specs.py)
import subprocess, os, json, sys, shutil
sys.path.insert(0, "/tmp/plant")
import specs
V = "/verif/seeded"
only = sys.argv[1:]
for s in specs.S:
    i = s["id"]
    if only and i not in only: continue
    for f, a, b in s["edits"]:
        p = "/repo/" + f; t = open(p).read()
        assert t.count(a) == 1, (i, f, t.count(a), a)
        open(p, "w").write(t.replace(a, b))
    d = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
    os.makedirs(f"{V}/{i}", exist_ok=True)
    open(f"{V}/{i}/patch.diff", "w").write(d)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{V}/{i}/meta.json", "w"), indent=1)
    if s.get("demo_py"):
        H = "a" if s.get("agent") else "h"
        shutil.copy(f"/tmp/plant/{H}.py", f"{V}/{i}/{H}.py")
        open(f"{V}/{i}/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nsys.dont_write_bytecode = True\nfrom " + H + " import *\n" + s["demo_py"].strip() + "\nmain(demo)\n")
        open(f"{V}/{i}/demo.sh", "w").write(s.get("demo_sh", '#!/bin/bash\nexec ' + ("/opt/vp/venv/bin/python" if H == "a" else "python3") + ' "$(dirname "$0")/demo.py"\n'))
    print(i, len(d))
