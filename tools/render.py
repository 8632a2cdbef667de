"""Render DESIGN.md from tools/DESIGN.in.md (test docstrings, planted-bug table)."""
import json, os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
doc = subprocess.run([sys.executable, os.path.join(H, "tools/doc.py")], capture_output=True, text=True, check=True).stdout
res = json.load(open(os.path.join(H, "tools/bugs.json")))
rows = ["| change | property | needs | result |", "|---|---|---|---|"]
for b in sorted(os.listdir(os.path.join(H, "seeded"))):
    m = json.load(open(os.path.join(H, "seeded", b, "meta.json")))
    rows.append(f"| {b} | {m['property']} | {m['needs']} | {res.get(b, '')} |")
s = open(os.path.join(H, "tools/DESIGN.in.md")).read()
s = s.replace("@@TESTS@@", doc.strip()).replace("@@BUGS@@", "\n".join(rows))
open(os.path.join(H, "DESIGN.md"), "w").write(s)
