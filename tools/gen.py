#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables in props_table.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props_table import PROPS, NA, SEEDNOTE
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(root + "/properties.jsonl", "w") as f:
    for p in PROPS:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(q) + "\n")
SCN = {}
for k, v in {"core": "C01 C02 C03 C04 C05 C06 C07 C08 C09 C15", "helpers": "C10 C11", "busctl": "C12", "loader": "C13 C14", "confset": "C16", "execreq": "C17", "reslib": "C18", "bridge": "C19", "plugins": "C20 C21", "busapi": "C22", "daemon": "C23", "compiler": "C24"}.items():
    for i in v.split():
        SCN[i] = k
TECH = "deterministic simulation with fault injection (seeded schedule and fault search)"
m = {
    "version": 1,
    "setup_cmd": "bash /verif/setup.sh",
    "hooks": {
        "guard": "none in /repo: instrumentation is woven into a build overlay of the current tree",
        "enable": "sim/prep.sh reads /repo, writes instrumented copies under /verif/.build/gen and builds with go build -overlay",
        "source_commits": [],
    },
    "checks": [{
        "property": p["id"],
        "quick_cmd": "bash /verif/check.sh %s quick" % p["id"],
        "thorough_cmd": "bash /verif/check.sh %s thorough" % p["id"],
        "technique": TECH,
        "level": "exploration",
        "level_note": p["note"],
    } for p in PROPS if not p.get("na")],
    "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in PROPS if p.get("na")],
    "notes": "Fixed defects and known findings: known_findings.jsonl. Machinery: DESIGN.md.",
}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)

import re
d = open(root + "/DESIGN.md").read()
def put(name, text):
    global d
    d, n = re.subn(r"(<!-- %s -->\n).*?(<!-- /%s -->)" % (name, name), lambda mo: mo[1] + text + mo[2], d, flags=re.S)
    assert n == 1, name
rows = "| id | property | scenario |\n|---|---|---|\n"
for p in PROPS:
    rows += "| %s | %s | %s |\n" % (p["id"], p["title"], "not applicable: " + p["na"] if p.get("na") else p.get("scn") or SCN[p["id"]])
put("props", rows)
rows = "| bug | property | needs | result |\n|---|---|---|---|\n"
for i in sorted(os.listdir(root + "/seeded")):
    j = json.load(open(root + "/seeded/" + i + "/meta.json"))
    rows += "| %s | %s | %s | %s |\n" % (i, j["property"], " ".join(j["needs"].split()).replace("|", "/"), SEEDNOTE.get(i, "caught by the quick check"))
put("seeded", rows)
open(root + "/DESIGN.md", "w").write(d)
