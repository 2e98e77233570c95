#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, note, technique, observe=None, claimed=True):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note,
                      technique=technique, observe=observe))


exec(open(os.path.join(ROOT, "tools", "props_table.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        for x in p["files"]:
            assert os.path.exists("/repo/" + x), x
        anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["observe"]:
            anchors["observe_at"] = p["observe"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": " ".join(p["statement"].split()),
                            "quantifier": {"over": p["over"], "text": " ".join(p["text"].split())},
                            "why_tests_cant": " ".join(p["why"].split()), "anchors": anchors}) + "\n")
checks = []
for p in PROPS:
    m = f"python3 -m vf.check_{p['id'].lower()}"
    checks.append({"property": p["id"], "quick_cmd": m + " quick", "thorough_cmd": m + " thorough", "technique": p["technique"],
                   "level": "exploration", "level_note": " ".join(p["note"].split())})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": []},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties")
