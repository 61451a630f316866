#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import glob, json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from props import PROPS, NOT_APPLICABLE

have = {os.path.basename(f)[:3].upper() for f in glob.glob(ROOT + "/checks/c[0-9]*.py")}
props, checks = [], []
for p in PROPS:
    props.append({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["text"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                    "observe_at": p.get("observe", []), "hook_needed": p.get("hook")},
    })
    assert len(p["title"]) <= 80, p["title"]
    if p["id"] in have:
        checks.append({
            "property": p["id"], "quick_cmd": "./check.sh " + p["id"],
            "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["technique"], "level": "model_checking", "level_note": p["note"],
        })
missing = [p["id"] for p in PROPS if p["id"] not in have]
with open(ROOT + "/properties.jsonl", "w") as f:
    for p in props:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
man = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {"guard": "cfg(vp_mc)", "enable": "RUSTFLAGS=--cfg vp_mc cargo build --offline -p circom (done by mc/build.py into /verif/.build/cli)",
              "source_commits": ["c3249ea"]},
    "checks": checks,
    "not_applicable": NOT_APPLICABLE + [{"property": m, "reason": "no check built yet"} for m in missing],
    "notes": "See DESIGN.md. Generated by tools/gen.py from tools/props.py.",
}
with open(ROOT + "/MANIFEST.json", "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
kf = json.load(open(ROOT + "/known_findings.json"))
fixes = "".join("- %s\n" % e["what"].replace("fixed: ", "") for e in kf if e["status"] == "fixed")
doc = open(ROOT + "/tools/design_head.md").read().replace("FIXES\n", fixes)
for p in PROPS:
    doc += "### %s %s\n\n%s\n\n- Explored (%s): %s.\n- Decided by: %s.\n- Bounds and oracle: %s\n- Reaches more than tests: %s\n\n" % (
        p["id"], p["title"], p["statement"], ", ".join(p["over"]), p["text"], p["technique"], p["note"], p["why"])
doc += open(ROOT + "/tools/design_tail.md").read()
rows = []
for f in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"].replace("|", "/"), m.get("caught", "")))
doc += "\n".join(rows) + "\n"
open(ROOT + "/DESIGN.md", "w").write(doc)
print(len(props), "properties,", len(checks), "checks; missing:", missing)
