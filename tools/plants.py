"""Rewrites DESIGN.md's table of planted bugs."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
miss = open(V + "/tools/missed_at_first").read().split()
t = "".join(f"| {f.split('/')[-2]}{' *' if f.split('/')[-2] in miss else ''} | {json.load(open(f))['property']} | {json.load(open(f))['needs']} |\n" for f in sorted(glob.glob(V + "/seeded/*/meta.json")))
s = open(V + "/DESIGN.md").read()
i = s.index("<!-- plants -->"); j = s.index("<!-- /plants -->")
m = s[i:j]; k = m.index("| bug")
s = s[:i] + m[:k] + "| bug | caught by | needs |\n|---|---|---|\n" + t + s[j:]
open(V + "/DESIGN.md", "w").write(s)
