#!/usr/bin/env python3
"""Rewrites the generated tables of DESIGN.md (defects, planted changes)."""
import json, os, re, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(R + "/DESIGN.md").read()
def put(tag, body):
    global s
    s = re.sub(r"(<!-- %s -->\n).*?(<!-- /%s -->)" % (tag, tag), lambda m: m[1] + body + m[2], s, flags=re.S)
esc = lambda x: x.replace("|", "\\|").replace("\n", " ")
rows = ["| property | state | what |\n|---|---|---|\n"]
for f in json.load(open(R + "/known_findings.json"))["findings"]:
    w = re.sub(r"^fixed: property=\S+ \S+ ", "", f["what"])
    st = "fixed " + f["commit"] if f["status"] == "fixed" else "open `%s`" % f["signature"]
    rows.append("| %s | %s | %s |\n" % (f["property"], st, esc(w)))
put("findings", "".join(rows))
rows = ["| seed | check | needs |\n|---|---|---|\n"]
for m in sorted(glob.glob(R + "/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append("| %s | %s | %s |\n" % (os.path.basename(os.path.dirname(m)), d["property"], esc(d["needs"])))
put("seeds", "".join(rows))
open(R + "/DESIGN.md", "w").write(s)
