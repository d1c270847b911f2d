#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: meta/design_head.md, a section per property (statement
data from gen.py's table, case rule from the harness), meta/design_tail.md."""
import json, re, glob, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rule = {}
quick = {}
for f in sorted(glob.glob(R + "/harness/props_*.go")):
    s = open(f).read()
    for m in re.finditer(r'ID:\s*"(C\d+)"(.*?)Rule:\s*((?:"(?:[^"\\]|\\.)*"\s*\+?\s*)+)', s, re.S):
        rule[m[1]] = "".join(re.findall(r'"((?:[^"\\]|\\.)*)"', m[3])).replace('\\"', '"')
        q = re.search(r"Quick:\s*(\d+)", m[2]); t = re.search(r"Thorough:\s*([^,\n]+)", m[2])
        quick[m[1]] = (q[1], t[1])
notes = json.load(open(R + "/meta/design_notes.json"))
man = {c["property"]: c for c in json.load(open(R + "/MANIFEST.json"))["checks"]}
out = open(R + "/meta/design_head.md").read()
out += "\n## 3. The properties, one by one\n"
for l in open(R + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]
    out += f"\n### {i}  {p['title']}\n\n"
    out += f"*Cases and oracle.* {rule[i][0].upper()+rule[i][1:]}\n\n"
    out += f"*Bounds.* {man[i]['level_note']}\n\n"
    out += f"*Cost.* {quick[i][0]} cases in the quick tier, {notes[i]['cost']}; {quick[i][1]} cases (or one hour) in the thorough tier.\n\n"
    out += f"*Why it reaches what the tests cannot.* {p['why_tests_cant']} {notes[i].get('why','')}\n"
    if notes[i].get("extra"): out += f"\n*Notes.* {notes[i]['extra']}\n"
tail = open(R + "/meta/design_tail.md").read()
rows = []
for d in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append(f"- {os.path.basename(os.path.dirname(d))} ({m['property']}): {m['what_it_breaks']}")
out += "\n" + tail.replace("SEEDTABLE", "\n".join(rows))
open(R + "/DESIGN.md", "w").write(out)
