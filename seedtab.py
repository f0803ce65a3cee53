"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.abspath(__file__))
m = {}
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m.setdefault(json.load(open(f))["property"], []).append(os.path.basename(os.path.dirname(f)))
tab = "| caught by | planted bugs |\n|---|---|\n" + "".join(f"| {k} | {', '.join(v)} |\n" for k, v in sorted(m.items()))
p = here + "/DESIGN.md"
s = open(p).read()
s = s.replace("@@SEEDS@@\n", tab) if "@@SEEDS@@" in s else re.sub(r"\| caught by .*?\n(?=\n)", lambda _: tab, s, flags=re.S)
open(p, "w").write(s)
