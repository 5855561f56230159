#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/registry.py and bin/checks.py, and the table in DESIGN.md."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "meta"), os.path.join(V, "bin")]
from registry import PROPS
import registry
from checks import CHECKS

rows, checks, na = [], [], []
for p in PROPS:
    assert len(p["title"]) <= 80, p["title"]
    assert len(re.findall(r"[.](?:\s|$)", p["statement"])) <= 3, (p["id"], "sentences")
    rows.append({"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "hook_needed": None}})
    if p["id"] in CHECKS:
        c = "python3 bin/check.py %s --tier " % p["id"]
        checks.append({"property": p["id"], "quick_cmd": c + "quick", "thorough_cmd": c + "thorough",
                       "technique": p["technique"], "level": "model_checking", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p.get("na") or "its check is not built yet"})
open(os.path.join(V, "properties.jsonl"), "w").write("".join(json.dumps(r) + "\n" for r in rows))
m = {"version": 1, "setup_cmd": "python3 bin/check.py --self-test", "checks": checks, "not_applicable": na,
     "notes": "No hooks: every check uses the public interface of /repo's working tree. Harnesses are built per run under build/, which git ignores."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
d = os.path.join(V, "DESIGN.md")
if os.path.exists(d):
    t = open(d).read()
    body = ""
    for p in PROPS:
        body += "### %s %s\n\n%s\n\n" % (p["id"], p["title"], p["design"])
        body += "- Space: %s.\n- Beyond the tests: %s\n- Assurance: %s\n\n" % (p["text"], p["why"], p["note"])
    t = re.sub(r"(<!-- properties -->\n).*?(<!-- end properties -->)", lambda m: m.group(1) + "\n" + body + m.group(2), t, flags=re.S)
    sd = os.path.join(V, "seeded")
    if os.path.isdir(sd):
        cb = dict(l.rstrip("\n").split("\t") for l in open(os.path.join(V, "meta", "caught.tsv")))
        tab = "| change | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n"
        for b in sorted(os.listdir(sd)):
            m = json.load(open(os.path.join(sd, b, "meta.json")))
            tab += "| %s | %s | %s | %s | %s |\n" % (b, m["property"], m["what_it_breaks"], m["needs"], cb.get(b, "not run yet"))
        t = re.sub(r"(<!-- planted -->\n).*?(<!-- end planted -->)", lambda m: m.group(1) + "\n" + tab + "\n" + m.group(2), t, flags=re.S)
    open(d, "w").write(t)
print(len(rows), "properties,", len(checks), "checks,", len(na), "not claimed")
