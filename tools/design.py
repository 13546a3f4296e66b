#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md: properties from table.py, planted bugs from seeded/ and tools/caught.tsv
(bug, how the check caught it). Everything between a marker and its end is replaced."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))}
exec(open(os.path.join(HERE, "tools/table.py")).read())
out = []
for i, p in props.items():
    if i in NOT_APPLICABLE:
        out.append(f"**{i} {p['title']}.** Not applicable: {NOT_APPLICABLE[i]}\n")
        continue
    t = TABLE[i]
    nl = len({l for g in t["groups"] for l in GROUPS[g][1]})
    out.append(f"**{i} {p['title']}.** {t['note']} Groups: {', '.join(t['groups'])} ({nl} lemmas). {t['bounded'].replace('Bounded stand-in on every run (never counted as proved)', 'Stand-in')}"
               f" Beyond tests: {p['quantifier']['text']}.\n")
out.append("Groups (patterns of function keys):\n")
for g, (f, _) in GROUPS.items():
    out.append(f"- {g}: " + ", ".join("`" + x.replace("\\", "") + "`" for x in f))
seed = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
how = dict(l.rstrip("\n").split("\t", 1) for l in open(os.path.join(HERE, "tools/caught.tsv")) if "\t" in l)
for b in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", b, "meta.json")))
    seed.append(f"| {b} | {m['property']} | {m['needs']} | {how.get(b, '?')} |")
d = open(os.path.join(HERE, "DESIGN.md")).read()
for name, text in (("properties", "\n".join(out)), ("seeded", "\n".join(seed))):
    d = re.sub(rf"<!-- {name} -->(?:.*?<!-- end {name} -->)?", lambda _: f"<!-- {name} -->\n{text}\n<!-- end {name} -->", d, flags=re.S)
open(os.path.join(HERE, "DESIGN.md"), "w").write(d)
